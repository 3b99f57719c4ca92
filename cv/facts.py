"""Builds the extractor, runs it over /repo's current sources, loads the facts.

Nothing of the analysed program is executed: Clang parses every translation
unit with the build's flags and the extractor prints each function's CFG.
"""
import hashlib
import json
import os
import pickle
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
FACTS = os.environ.get("CV_BUILD", BUILD)
LLVM = "/usr/lib/llvm-18"
DIRS = ("src", "gcl", "meadowlark", "apps")

CONFIGS = {
    "default": ["-std=c++20", "-DCV_ANALYSIS=0"],
    "ndebug": ["-std=c++20", "-DNDEBUG"],
}


class AnalysisError(Exception):
    """The analysis could not be carried out (an error exit, never a verdict)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build_extractor():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "extract", "extract.cc")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "extract-" + h)
    if os.path.exists(exe):
        return exe
    tmp = exe + ".tmp.%d" % os.getpid()
    cmd = ["g++", "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include",
           "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
           "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
           LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM-18.so"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisError("extractor does not build: " + r.stderr[-2000:])
    os.rename(tmp, exe)
    return exe


def sources():
    tus, hdrs = [], []
    for d in DIRS:
        p = os.path.join(REPO, d)
        if not os.path.isdir(p):
            continue
        for root, dirs, files in os.walk(p):
            dirs.sort()
            for f in sorted(files):
                full = os.path.join(root, f)
                # what the build compiles: top-level *.cc of each directory
                if f.endswith(".cc") and root == p:
                    tus.append(full)
                elif f.endswith((".h", ".hpp", ".inc")):
                    hdrs.append(full)
    if len(tus) < 20:
        raise AnalysisError("only %d translation units found under %s" % (len(tus), REPO))
    return tus, hdrs


def _run_one(exe, tu, flags, outdir):
    out = os.path.join(outdir, os.path.relpath(tu, REPO).replace("/", "_") + ".jsonl")
    cmd = [exe, REPO, out, tu, "--"] + flags + [
        "-I" + REPO, "-resource-dir", LLVM + "/lib/clang/18", "-fsyntax-only",
        "-Wno-everything"]
    kept = None
    if os.environ.get("CV_TUCACHE"):        # developer tool: unit facts kept between scratch copies
        h = hashlib.sha256(open(exe, "rb").read() + repr(flags).encode())
        for f in [tu] + sources()[1]:
            h.update(os.path.relpath(f, REPO).encode() + open(f, "rb").read())
        kept = os.path.join(os.environ["CV_TUCACHE"], h.hexdigest()[:32])
        if os.path.exists(kept):
            return tu, kept, 0, ""
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=REPO)
    if kept and r.returncode == 0:
        with open(out, errors="replace") as f, open(kept + ".tmp%d" % os.getpid(), "w") as g:
            g.write(f.read().replace(REPO + "/", ""))
        os.replace(kept + ".tmp%d" % os.getpid(), kept)
        out = kept
    return tu, out, r.returncode, r.stderr


def _stage_hash(exe, config):
    tus, hdrs = sources()
    h = hashlib.sha256()
    h.update(open(exe, "rb").read())
    h.update(open(os.path.join(VERIF, "cv", "facts.py"), "rb").read())
    h.update(repr((config, CONFIGS[config], REPO)).encode())
    for f in tus + hdrs:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()[:24]


def load(config="default"):
    exe = build_extractor()
    key = _stage_hash(exe, config)
    cache = os.path.join(FACTS, "facts-%s-%s.pickle" % (config, key))
    if os.path.exists(cache):
        try:
            with open(cache, "rb") as f:
                import gc
                gc.disable()
                d = pickle.load(f)
                gc.enable()
                return d
        except Exception:
            pass
    t0 = time.time()
    os.makedirs(FACTS, exist_ok=True)
    tus, hdrs = sources()
    flags = CONFIGS[config]
    data = {"functions": {}, "records": {}, "enums": {}, "globals": {}, "tus": [], "config": config}
    with tempfile.TemporaryDirectory(prefix="cvfacts", dir=FACTS) as td:
        # longest first keeps the 8 cores busy
        order = sorted(tus, key=lambda f: -os.path.getsize(f))
        with ThreadPoolExecutor(max_workers=int(os.environ.get("CV_JOBS", "8"))) as ex:
            results = list(ex.map(lambda t: _run_one(exe, t, flags, td), order))
        bad = [(t, e) for t, o, rc, e in results if rc != 0]
        if bad:
            raise AnalysisError("does not parse: %s: %s" % (bad[0][0], bad[0][1][-1500:]))
        for t, o, rc, e in sorted(results):
            data["tus"].append(os.path.relpath(t, REPO))
            seen_here = set()
            with open(o, encoding="utf-8", errors="replace") as f:
                for line in f:
                    kind, k, js = line.replace(REPO + "/", "").split("\t", 2)
                    if kind == "F":
                        if k in seen_here or (k in data["functions"] and '"file":"apps/' not in js):
                            continue
                        ob = json.loads(js)
                        seen_here.add(k)
                        if k in data["functions"]:
                            if data["functions"][k]["file"] == ob["file"]:
                                continue
                            k = k + "@" + ob["file"]
                            ob["key"] = k
                        data["functions"][k] = ob
                    else:
                        ob = json.loads(js)
                        if ob["kind"] == "record":
                            data["records"].setdefault(ob["qn"], ob)
                        elif ob["kind"] == "enum":
                            data["enums"].setdefault(ob["qn"] + "@" + ob["file"], ob)
                        elif ob["kind"] == "global":
                            data["globals"].setdefault(ob["d"] + "@" + ob["file"], ob)
    # keep only the newest few caches
    try:
        old = sorted((f for f in os.listdir(FACTS) if f.startswith("facts-%s-" % config)),
                     key=lambda f: os.path.getmtime(os.path.join(FACTS, f)))
        for f in old[:-3]:
            os.remove(os.path.join(FACTS, f))
    except OSError:
        pass
    tmp = cache + ".tmp.%d" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(data, f, protocol=4)
    os.rename(tmp, cache)
    log("extracted %d functions from %d units (%s) in %.1fs" % (
        len(data["functions"]), len(data["tus"]), config, time.time() - t0))
    return data


if __name__ == "__main__":
    for c in sys.argv[1:] or ["default"]:
        load(c)
