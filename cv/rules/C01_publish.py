"""Publication order and build-configuration independence.  (1) Every operand of every assertion is
effect-free, and the effects (field writes, mutating and persistent calls) of every function are the same with
NDEBUG defined.  (2) On every path of every operation that links or renames a file and deletes one, the deleted
name is not the source of a publication that has not been tested to have succeeded, and is not published later."""
from collections import Counter

from ..common import *

ASSUMPTIONS = ["link/rename/remove behave as POSIX documents",
               "two names are the same when their symbolic values are equal"]

# a stress test: its assertions are its verdict, and they contain the calls under test
EXEMPT_FILES = {"apps/dynamic-test.cc"}

LINK = {"link", "rename"}
REMOVE = {"remove", "unlink"}
FSLINK = {"std::filesystem::rename", "std::filesystem::create_hard_link", "std::filesystem::remove"}


def cfn(n):
    cn = n.get("cn") or ""
    return cn[5:] if cn.startswith("std::") and "::" not in cn[5:] else cn


def assert_effects(ctx, prog, key):
    f = prog.F[key]
    eff = effects(prog)
    nodes = f["nodes"]
    for n in nodes:
        if not n or not n.get("as"):
            continue
        ctx.count("assertion operand nodes")
        what = None
        if n["k"] == "call":
            cn = n.get("cn") or ""
            if cn == "__assert_fail":
                ctx.count("assertions")
                continue
            if persistent(cn):
                what = "calls " + cn
            elif cn.startswith("std::"):
                if short(cn) in MUTATORS:
                    what = "calls " + cn
            elif n.get("c"):
                if any(t in eff for t in prog.targets(f, n)):
                    what = "calls %s, which has side effects" % cn
        elif n["k"] == "bin":
            if n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                what = "assigns"
        elif n["k"] == "un" and n["op"] in ("++", "--", "post++", "post--"):
            what = "increments"
        elif n["k"] in ("new", "del"):
            what = "allocates"
        if what:
            ctx.violation("%s: assertion %s" % (f["qn"], what), "%s:%d (%s)" % (f["file"], n["l"], f["qn"]),
                          "an assertion operand %s: the effect is gone when assertions are compiled out" % what)


def effect_set(prog, key):
    f = prog.F[key]
    c = Counter()
    for n in f["nodes"]:
        if not n or n.get("as"):
            continue
        if n["k"] == "call":
            cn = n.get("cn") or ""
            if persistent(cn) or short(cn) in MUTATORS or (n.get("c") and cn.startswith("cottontail")):
                c["call " + cn] += 1
        elif n["k"] == "mem" and n.get("acc") in ("W", "RW"):
            c["write " + n["f"]] += 1
    return c


class Order(Rule):
    max_depth = 4
    asserts = "ignore"

    def __init__(self, prog, ctx, hot):
        super().__init__(prog)
        self.ctx, self.hot = ctx, hot

    def inline(self, fr, node, key):
        f = self.prog.F[key]
        return key in self.hot and self.prog.is_helper(key, fr.fn["file"])

    def on_call(self, ex, fr, st, node, targets, recv, args):
        if targets and not any(self.inline(fr, node, k) for k in targets):
            self.created(ex, fr, st, args)
        if node.get("c") is None or targets:
            return None
        name = cfn(node)
        files = (node.get("cn") or "").startswith("std::filesystem::")
        if files:
            name = short(name)
        if name == "operator bool" and "error_code" in (node.get("cn") or "") and recv is not None and recv[0] == 'addr':
            return ('val', ex.load(fr, st, recv[1]))
        if files and args and name in LINK | REMOVE | {"create_hard_link"}:
            args, code = list(args), None
            if args[-1] is not None and args[-1][0] == 'L' and "error_code" in fr.prep.type(
                    fr.prep.nodes[node["args"][len(args) - 1]]):
                code = args.pop()[1]
            args = [('op', 'cstr', x, NULL) if x is not None and x[0] != 'op' else x
                    for x in (self.val(ex, fr, st, x) for x in args)]
            if name == "create_hard_link":
                name = "link"
        if name in LINK and len(args) == 2:
            a, b = [self.val(ex, fr, st, x) for x in args]
            s = ex.sym(st, fr, node_id(fr, node))
            if files:
                if code is None:
                    s = NULL            # throws when it fails
                else:
                    ex.write(fr, st, dict(node, _id=node_id(fr, node)), code, s)
            self.ctx.count("publication steps")
            for k, v in list(st.r.items()):
                if k[0] == 'rm' and k[1] == a and a[0] != 'str':
                    self.report(fr, node, "the name being published was deleted earlier on this path", v)
            st.r[('pub', a)] = (s, fr.fn["file"], node["l"])
            return ('val', s)
        if name in REMOVE and len(args) == 1:
            a = self.val(ex, fr, st, args[0])
            self.ctx.count("deletions")
            p = st.r.get(('pub', a))
            if p is not None:
                t = ex.truth(st, p[0])
                if t is None:
                    self.report(fr, node, "deletes the prepared copy although the publishing step at %s:%d "
                                "was not tested to have succeeded" % p[1:], None)
                elif t is True:
                    st.r[('failrm', a)] = (fr.fn["file"], node["l"], p[2])
            st.r[('rm', a)] = (fr.fn["file"], node["l"])
            return ('val', ex.sym(st, fr, node_id(fr, node))) if files else None
        self.created(ex, fr, st, args)
        return None

    def on_ctor(self, ex, fr, st, node, args):
        self.created(ex, fr, st, args)
        if node["cn"].startswith("std::filesystem::") and short(node["cn"]) == "path" and node.get("cp") not in ("copy", "move"):
            real = [x for x in args or () if x is not None]
            if real:
                v = self.val(ex, fr, st, real[0])
                return v if v[0] not in ('obj', 'void') else None
        return None

    def created(self, ex, fr, st, args):
        """The name is passed to something that may create the file again."""
        gone = [k for k in st.r if k[0] == 'rm']
        if gone:
            vs = set()
            for x in args:
                v = self.val(ex, fr, st, x)
                vs.add(v)
                vs.add(('op', 'cstr', v, NULL))
            for k in gone:
                if k[1] in vs:
                    del st.r[k]

    def val(self, ex, fr, st, x):
        if x is None:
            return ('void',)
        return ex.load(fr, st, x[1]) if x[0] == 'L' else x

    def on_refresh(self, st, s):
        for k in [k for k in st.r if k[0] in ('rm', 'pub', 'failrm') and k[1] == s]:
            del st.r[k]

    def on_exit(self, ex, fr, st, value):
        if fr.depth:
            return
        for k, v in st.r.items():
            if k[0] == 'failrm':
                ret = fr.fn["types"][fr.fn["ret"]] if not fr.fn.get("ctor") else "void"
                t = None if value[0] == 'void' else ex.truth(st, value)
                if ret == "void" or t is True:
                    self.ctx.violation("%s: deletes after failed publication" % fr.fn["qn"],
                                       "%s:%d (%s)" % (v[0], v[1], fr.fn["qn"]),
                                       "deletes the prepared copy after the publishing step at line %d failed, "
                                       "and does not report failure" % v[2])

    def keep_cons(self, st, key):
        return any(k[0] == 'pub' and v[0] == key for k, v in st.r.items())

    def report(self, fr, node, msg, prior):
        self.ctx.violation("%s: %s" % (fr.fn["qn"], "delete before published" if prior is None else "publish after delete"),
                           fr.where(node), msg, fr.chain())


def node_id(fr, node):
    ids = getattr(fr.prep, "_ids", None)
    if ids is None:
        ids = fr.prep._ids = {id(n): i for i, n in enumerate(fr.prep.nodes) if n}
    return ids.get(id(node), -1)


def run(ctx):
    prog = ctx.prog()
    nd = ctx.prog("ndebug")
    for key, f in prog.F.items():
        if f["file"] not in EXEMPT_FILES:
            assert_effects(ctx, prog, key)
    for key, f in prog.F.items():
        if f["file"] in EXEMPT_FILES:
            continue
        k2 = key if key in nd.F else None
        if f.get("lambda") or k2 is None:
            continue
        ctx.count("functions compared across configurations")
        a, b = effect_set(prog, key), effect_set(nd, k2)
        miss = a - b
        extra = b - a
        for e in sorted(miss):
            ctx.violation("%s: %s only with assertions" % (f["qn"], e), "%s:%d (%s)" % (f["file"], f["line"], f["qn"]),
                          "%s happens only when assertions are enabled" % e)
        for e in sorted(extra):
            ctx.violation("%s: %s only without assertions" % (f["qn"], e), "%s:%d (%s)" % (f["file"], f["line"], f["qn"]),
                          "%s happens only when assertions are compiled out" % e)

    names = LINK | REMOVE
    direct = {k for k, f in prog.F.items()
              if any(n and n["k"] == "call" and (cfn(n) in names or n.get("cn") in FSLINK) and not n.get("recv")
                     for n in f["nodes"])}
    # local helpers are analysed as part of the operations that call them
    hot, todo = set(direct), list(direct)
    callers = prog.callers()
    while todo:
        k = todo.pop()
        if not prog.is_helper(k):
            continue
        for c in callers.get(k, ()):
            if c not in hot and prog.is_helper(k, prog.F[c]["file"]):
                hot.add(c)
                todo.append(c)
    roots = [k for k in hot if not (prog.is_helper(k) and any(c in hot for c in callers.get(k, ())))
             or prog.F[k].get("lambda")]
    for k in sorted(roots):
        ctx.sample("ordering analysed on every path of " + prog.F[k]["qn"])

    def one(c, k):
        rule = Order(prog, c, hot)
        ex = Exec(prog, rule)
        ex.start(k)
        c.count("operations that publish and delete")
        c.explored(ex)
    ctx.pmap(one, sorted(roots))
    ctx.floor("publication steps", 5)
    ctx.floor("deletions", 10)
    ctx.floor("assertions", 50)
    ctx.floor("functions compared across configurations", 800)

