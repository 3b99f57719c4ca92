"""Failure and message go together.  Every function with an error-message argument and a verdict (bool or pointer) is
followed on every path, lambdas and void helpers inlined.  A message is recorded by writing through the argument or by
a callee that was given the argument and failed.  On every way out: a failing verdict comes with a message; a message
comes with a failing verdict."""
from ..common import *
from ..locks import bare
from ..nulls import nullable, pointer
from .C01_publish import node_id

ASSUMPTIONS = ["a function given the error argument follows the rule itself"]


def verdict(f):
    if f.get("ctor") or f.get("dtor"):
        return False
    t = bare(f["types"][f["ret"]])
    return t == "bool" or is_smart(t)


def takes_error(prog, k):
    f = prog.F[k]
    return verdict(f) and error_param(f) is not None


class Err(Rule):
    max_depth = 4
    widen_at = 6
    max_entries = 3
    max_states = 60000
    collapse = True
    asserts = "ignore"
    in_order = True

    def __init__(self, prog, ctx, root):
        super().__init__(prog)
        self.ctx, self.root = ctx, root
        f = prog.F[root]
        self.params = {p["d"] for p in f["params"]}
        self.may = nullable(prog)
        self.err = ('v', 0, f["params"][error_param(f)]["d"])

    def inline(self, fr, node, key):
        f = self.prog.F[key]
        if f.get("lambda"):
            return True
        return self.prog.is_helper(key) and not verdict(f) and len(f["nodes"]) < 200 and self.sets(key)

    def sets(self, key):
        """may write a message"""
        f = self.prog.F[key]
        return any(is_string(bare(f["types"][p["t"]]).rstrip("*& ").strip()) and "*" in f["types"][p["t"]] for p in f["params"])

    def keep_value(self, st, loc, v):
        return v[0] == 'c' or ('EC', v) in st.r or ('FULL', v) in st.r

    def keep_cons(self, st, key):
        return ('EC', key) in st.r or ('FULL', key) in st.r

    def is_err(self, ex, fr, st, x):
        if x is None:
            return False
        if x == ('L', ('d', ('i', self.err))):
            return True
        v = ex.load(fr, st, x[1]) if x[0] == 'L' else x
        return v == ('i', self.err) or v[0] == 'i' and v[1] == self.err

    def on_call(self, ex, fr, st, node, targets, recv, args):
        if any(self.is_err(ex, fr, st, x) for x in args):
            t = fr.prep.type(node) if "t" in node else ""
            if node.get("lv") and is_string(bare(t)) or bare(t).endswith("&") and is_string(bare(t)):
                self.mark(fr, st, node)
                return None
            if "t" in node and (bare(t) == "bool" or is_smart(bare(t))) and not any(self.inline(fr, node, k) for k in targets or ()):
                s = ex.sym(st, fr, node_id(fr, node))
                st.r[('EC', s)] = node["l"]
                self.ctx.count("callees given the error argument")
                return ('val', s)
            if not targets or not any(self.inline(fr, node, k) for k in targets):
                st.r[('MAY',)] = 1
        if "t" in node and pointer(fr.prep.type(node)) and targets and not any(self.inline(fr, node, k) for k in targets):
            s = ex.sym(st, fr, node_id(fr, node))
            if not any(k in self.may for k in targets):
                st.r[('FULL', s)] = 1
                st.cons[s] = True
            return ('val', s)
        if recv is not None and recv[0] == 'addr' and recv[1][0] == 'd' and recv[1][1] == ('i', self.err) \
                and (node.get("op") in ("=", "+=") or short(node.get("cn")) in ("assign", "append", "swap")):
            self.mark(fr, st, node)
        return None

    def mark(self, fr, st, node):
        st.r[('SET',)] = node["l"]
        self.ctx.count("messages written")

    def on_write(self, ex, fr, st, node, loc, value):
        if loc == ('d', ('i', self.err)):
            self.mark(fr, st, node)

    def writer(self, ex, fr, st, node):
        """a class that stands for the message: made from the argument, assigned to"""
        r = self.prog.R.get(node["cn"].rsplit("::", 1)[0]) or self.prog.R.get(node["cn"])
        return r is not None and any(m["n"] == "operator=" for m in r["methods"])

    def on_ctor(self, ex, fr, st, node, args, *a):
        if any(self.is_err(ex, fr, st, x) for x in args or ()):
            if self.writer(ex, fr, st, node):
                self.mark(fr, st, node)
            else:
                st.r[('MAY',)] = 1

    def on_assume(self, ex, fr, st, v, truth):
        if not truth and v == ('i', self.err):
            st.r[('MAY',)] = 1          # nobody to tell
        if ('EC', v) in st.r:
            if truth:
                st.r[('FULL', v)] = 1
            else:
                st.r[('SETC',)] = st.r[('EC', v)]
            del st.r[('EC', v)]

    def on_exit(self, ex, fr, st, value):
        if fr.depth:
            return
        self.ctx.count("ways out checked")
        if value[0] == 'void':
            return
        t = ex.truth(st, value)
        has = ('SET',) in st.r or ('SETC',) in st.r
        q = fr.fn["qn"]
        if t is False and not has and ('MAY',) not in st.r:
            self.ctx.violation("%s: fails without a message" % q, fr.where(),
                               "has a way out that reports failure without having set the error message", self.how(fr, st))
        elif t is None and not has and ('MAY',) not in st.r and ('EC', value) not in st.r and not self.passed(value, st):
            self.ctx.violation("%s: may fail without a message" % q, fr.where(),
                               "returns a result that can be a failure for which no message was set", [str(value)[:100]])
        elif t is None and has and ('EC', value) in st.r:
            l = st.r.get(('SET',)) or st.r.get(('SETC',))
            self.ctx.violation("%s: may succeed with a message" % q, "%s:%d (%s)" % (fr.fn["file"], l, q),
                               "goes on after an error was recorded here, and answers what a later step answers", [])
        elif t is True and any(k[0] == 'EC' for k in st.r):
            l = next(v for k, v in st.r.items() if k[0] == 'EC')
            self.ctx.violation("%s: does not ask whether a step failed" % q, "%s:%d (%s)" % (fr.fn["file"], l, q),
                               "reports success without having looked at the outcome of this step, which may have recorded an error", [])
        elif t is True and has:
            l = st.r.get(('SET',)) or st.r.get(('SETC',))
            self.ctx.violation("%s: succeeds with a message" % q, "%s:%d (%s)" % (fr.fn["file"], l, q),
                               "goes on and reports success after an error was recorded here", [])

    def passed(self, v, st):
        if ('FULL', v) in st.r or self.given(v):
            return True
        if v[0] in ('not', 'op', 'and'):
            return any(isinstance(x, tuple) and (('EC', x) in st.r or self.passed(x, st)) for x in v[1:])
        return False

    def on_return(self, ex, fr, st, node, value):
        if fr.depth == 0:
            st.r[('AT',)] = node["l"]

    def given(self, v):
        """an argument handed back, or an element of one"""
        while v[0] in ('i', 'd', 'e', 'f') and len(v) > 1 and isinstance(v[1], tuple):
            v = v[1]
        return v[0] == 'v' and v[1] == 0 and v != self.err and v[2] in self.params

    def how(self, fr, st):
        return ["at line %d" % st.r[('AT',)]] if ('AT',) in st.r else []


def run(ctx):
    prog = ctx.prog()
    nullable(prog)
    roots = sorted(k for k in prog.F if takes_error(prog, k) and not prog.F[k].get("lambda")
                   and not prog.F[k]["file"].startswith("apps/"))

    def follow(c, k):
        rule = Err(prog, c, k)
        ex = Exec(prog, rule)
        ex.start(k)
        c.count("operations followed")
        c.explored(ex)
    ctx.pmap(follow, roots)
    ctx.floor("operations followed", 20)
    ctx.floor("messages written", 20)
