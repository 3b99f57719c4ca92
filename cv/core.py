"""Check driver: loads facts, runs one rule module, reports, writes evidence."""
import gc
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from . import engine, facts

VERIF = facts.VERIF
_CTX = None


_FN = _ITEMS = None


def _call(i):
    fn, x = _FN, _ITEMS[i]
    sub = Ctx(_CTX.id, _CTX.thorough, _CTX)
    r = fn(sub, x)
    return r, sub.viol, sub.counts, sub.samples[:3], sub.errors


class Ctx:
    def __init__(self, id, thorough=False, parent=None):
        self.id = id
        self.thorough = thorough
        self._progs = parent._progs if parent else {}
        self.viol = {}          # key -> dict
        self.counts = {}
        self.samples = []
        self.errors = []
        self.assumptions = []
        self.explanation = ""

    def prog(self, config="default"):
        if config not in self._progs:
            self._progs[config] = engine.Program(facts.load(config))
        return self._progs[config]

    def violation(self, key, where, message, chain=()):
        """key names the construct (function and what), never a line number."""
        if key not in self.viol:
            self.viol[key] = dict(key=key, where=where, message=message, chain=list(chain))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12 and s not in self.samples:
            self.samples.append(s)

    def explored(self, ex):
        """Counts the work of one execution; notes what exceeded its budget."""
        self.count("path states explored", ex.steps)
        for k in ex.truncated:
            self.count("functions only partly explored")
            self.sample("partly explored: " + self.prog().F[k]["qn"])
            if os.environ.get("CV_DEBUG"):
                print("TRUNC", k[:120])

    def floor(self, name, minimum):
        """An analysis that matched (almost) nothing is broken, not clean."""
        n = self.counts.get(name, 0)
        if n < minimum:
            self.errors.append("only %d %s analysed (at least %d expected): anchors not found" % (n, name, minimum))

    def pmap(self, fn, items, chunk=None):
        """fn(ctx, item) over forked workers; merges findings, returns results."""
        global _CTX, _FN, _ITEMS
        items = list(items)
        if not items:
            return []
        jobs = int(os.environ.get("CV_JOBS", "8"))
        _CTX, _FN, _ITEMS = self, fn, items
        res = []
        if jobs == 1 or len(items) < 4:
            outs = [_call(i) for i in range(len(items))]
        else:
            gc.freeze()
            with multiprocessing.get_context("fork").Pool(jobs) as p:
                outs = p.map(_call, range(len(items)), chunksize=chunk or max(1, len(items) // (jobs * 12)))
        for r, v, c, s, e in outs:
            res.append(r)
            for k, x in v.items():
                self.viol.setdefault(k, x)
            for k, n in c.items():
                self.count(k, n)
            for x in s:
                self.sample(x)
            self.errors.extend(e)
        return res


def known(id):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            if line.startswith("finding: property=" + id + " "):
                k, _, what = line[len("finding: property=" + id + " "):].partition(" :: ")
                out[k.strip()] = what.strip()
    return out


def module(id):
    d = os.path.join(VERIF, "cv", "rules")
    for f in sorted(os.listdir(d)):
        if f.split("_")[0].split(".")[0] == id and f.endswith(".py"):
            return importlib.import_module("cv.rules." + f[:-3])
    raise SystemExit("no rule for " + id)


def main(argv):
    id = argv[0]
    thorough = "--thorough" in argv
    t0 = time.time()
    m = module(id)
    ctx = Ctx(id, thorough)
    try:
        m.run(ctx)
    except facts.AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (id, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % id)
        return 2
    kn = known(id)
    new = []
    for k in sorted(ctx.viol):
        v = ctx.viol[k]
        if k in kn:
            print("KNOWN-FINDING: property=%s %s [%s] %s" % (id, k, v["where"], kn[k]))
        else:
            new.append(v)
    ev = {
        "property": id, "tier": "thorough" if thorough else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": dict({"explanation": (m.__doc__ or "").strip() + " " + ctx.explanation,
                          "samples": ctx.samples or ["none"]},
                         **{k: v for k, v in sorted(ctx.counts.items())}),
        "assumptions": ctx.assumptions + list(getattr(m, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, n in sorted(ctx.counts.items()):
        print("%s: %s = %s" % (id, k, n))
    if new:
        rd = os.path.join(VERIF, "build", "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, id + ".txt")
        with open(path, "w") as f:
            for v in new:
                f.write("%s\n  at %s\n  %s\n" % (v["key"], v["where"], v["message"]))
                for c in v["chain"]:
                    f.write("    called from %s\n" % c)
        for v in new:
            print("%s: %s: %s [%s]" % (id, v["where"], v["message"], v["key"]))
            for c in v["chain"][:4]:
                print("    called from %s" % c)
        print("VIOLATION property=%s replay=%s" % (id, path))
        return 1
    if ctx.errors:
        for e in ctx.errors:
            print("ANALYSIS-ERROR property=%s %s" % (id, e))
        return 2
    print("OK property=%s (%.1fs)" % (id, time.time() - t0))
    return 0
