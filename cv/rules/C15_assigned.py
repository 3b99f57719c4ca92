"""Every result is complete.  Which outputs (numbers delivered through a pointer or reference argument) each operation
assigns is computed from its own paths: always, whenever it succeeds, or only sometimes.  An operation that delivers
outputs assigns them on every path that does not report failure; an output its callers preset may be left alone.  No
operation reads a local that may not have been assigned."""
from ..common import *
from ..locks import bare
from .C01_publish import node_id

ASSUMPTIONS = ["library functions that are given a writable argument assign it",
               "a loop that assigns an output or a local ran at least once where the value is used"]

SCALAR = {"bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long",
          "long long", "unsigned long long", "float", "double", "size_t", "cottontail::addr", "cottontail::fval", "addr", "fval"}


def scalar(t, prog=None):
    t = t.replace("const ", "").strip()
    return t in SCALAR or t.endswith("*") and "(" not in t


def output(t):
    """a pointer or reference through which a number is delivered"""
    t = t.strip()
    if t.endswith("&&"):
        return False
    if t.endswith("&") or t.endswith("*"):
        x = t[:-1].strip()
        return "const" not in x.split() and scalar(x) and not (t.endswith("*") and x in ("char", "unsigned char")) and not x.endswith("*")
    return False


class Assign(Rule):
    max_depth = 4
    widen_at = 4
    max_entries = 3
    max_states = 20000
    collapse = True
    asserts = "assume"
    in_order = True

    def __init__(self, prog, ctx, root, classes, learn):
        super().__init__(prog)
        self.ctx, self.root, self.classes, self.learn = ctx, root, classes, learn
        f = prog.F[root]
        self.outs = {}
        for i, p in enumerate(f["params"]):
            t = f["types"][p["t"]]
            if output(t) and p["d"] not in arrays(prog, root):
                self.outs[('d', ('i', ('v', 0, p["d"])))] = i
        self.flags = {i for i in self.outs.values() if bare(f["types"][f["params"][i]["t"]]).rstrip("*& ") == "bool"}
        self.preset_fields = fields_passed(prog)
        self.read, self.wrote, self.some, self.tested = set(), set(), {i: set() for i in self.outs.values()}, set()
        self.passed = []

    def begin(self, st):
        for loc in self.outs:
            st.r[('U', loc)] = 1

    def inline(self, fr, node, key):
        return bool(self.prog.F[key].get("lambda"))

    def keep_value(self, st, loc, v):
        return v[0] == 'c' and loc[0] == 'v' and self.prog.is_bool_local(loc[2])

    def keep_cons(self, st, key):
        return any(k[0] == 'UC' and v == key for k, v in st.r.items()) or \
            any(v == key and loc[0] == 'v' and self.prog.is_bool_local(loc[2]) for loc, v in st.env.items())

    # -- becoming assigned
    def given(self, st, loc):
        if st.r.pop(('U', loc), None) is not None and loc in self.outs:
            self.wrote.add(self.outs[loc])
        st.r.pop(('UC', loc), None)

    def on_write(self, ex, fr, st, node, loc, value):
        if loc[0] == 'v' and value[0] == 's' and node.get("k") == "decl":
            return
        self.given(st, loc)
        if loc[0] == 'f' and loc[2] in self.preset_fields:
            st.r[('W', loc)] = 1

    def on_decl(self, ex, fr, st, node, var, loc):
        st.r.pop(('U', loc), None)
        st.r.pop(('UC', loc), None)
        if var.get("init") is None and not var.get("isref") and not var.get("static") and \
                scalar(fr.fn["types"][var["t"]]) and loc[0] == 'v' and not var["n"].startswith("__"):
            st.r[('U', loc)] = var["n"]

    def on_lambda(self, ex, fr, st, node, value):
        pass

    def unassigned(self, ex, st, loc):
        if ('U', loc) in st.r:
            return True
        s = st.r.get(('UC', loc))
        return s is not None and ex.truth(st, s) is not True

    def reads(self, ex, fr, st, node, loc):
        if not self.unassigned(ex, st, loc):
            return
        if loc in self.outs:
            self.read.add(self.outs[loc])
            return
        if not self.learn and loc[0] == 'v' and not self.looped(fr, loc[2]):
            d = str(loc[2]).split("@")[0]
            self.ctx.violation("%s: %s read unassigned" % (fr.fn["qn"], d), fr.where(node),
                               "reads %s, which may not have been given a value on this path" % d, fr.chain())
        self.given(st, loc)

    def looped(self, fr, d):
        """given a value in a loop that its declaration is outside of: whether the loop ran is a matter of numbers"""
        memo = fr.prep.__dict__.setdefault("_looped", {})
        if d not in memo:
            memo[d] = in_loop(fr.prep, d)
        return memo[d]

    def on_var(self, ex, fr, st, node, loc, acc):
        if acc in ("R", "RW", "RET", "CALLC"):
            if acc == "R" and node.get("k") == "ref" and self.is_arg(fr, node):
                return
            self.reads(ex, fr, st, node, loc)
        elif acc in ("CAPTURE",):
            pass

    def is_arg(self, fr, node):
        return False

    def on_deref(self, ex, fr, st, node, value):
        if node.get("k") == "un" and node.get("op") == "*" and node.get("acc") in ("R", "RW", "RET", "CREF"):
            self.reads(ex, fr, st, node, ex.deref(value))
        if node.get("k") == "idx":
            loc = ex.deref(value)
            if loc in self.outs:            # an array, not an output
                self.read.add(self.outs[loc])
            self.given(st, loc)

    # -- calls
    def target_of(self, ex, fr, st, a, mode, t):
        if a is None:
            return None
        if a[0] == 'L':
            if mode == "REF":
                return a[1]
            v = ex.load(fr, st, a[1])
        else:
            v = a
        if v[0] == 'addr':
            return v[1]
        if ('d', v) in self.outs or ('U', ('d', v)) in st.r:
            return ('d', v)
        return None

    def on_call(self, ex, fr, st, node, targets, recv, args):
        pm = node.get("pm") or []
        for i, a in enumerate(args or ()):
            loc = self.target_of(ex, fr, st, a, pm[i] if i < len(pm) else "R", "")
            if loc is not None and targets:
                self.passed.append((tuple(targets), i, 'own' if loc in self.outs and self.unassigned(ex, st, loc) else
                                    ('W', loc) in st.r if loc[0] == 'f' else not self.unassigned(ex, st, loc), self.outs.get(loc)))

    def after_call(self, ex, fr, st, node, targets, recv, args, value):
        pm = node.get("pm") or []
        cn = node.get("cn") or ""
        if any(self.inline(fr, node, k) for k in targets or ()):
            return
        for i, a in enumerate(args or ()):
            loc = self.target_of(ex, fr, st, a, pm[i] if i < len(pm) else "R", "")
            if loc is None:
                continue
            if not targets:
                self.given(st, loc)
                continue
            cl = {self.classes.get((k, i), 'out') for k in targets}
            if ('U', loc) not in st.r and ('UC', loc) not in st.r:
                continue
            if cl <= {'out'} or 'inout' in cl:
                if 'inout' in cl and loc in self.outs:
                    self.read.add(self.outs[loc])
                self.given(st, loc)
            elif cl <= {'out', 'cond'}:
                st.r.pop(('U', loc), None)
                if loc in self.outs:
                    self.wrote.add(self.outs[loc])
                st.r[('UC', loc)] = value
        if recv is not None and recv[0] == 'addr':
            self.given(st, recv[1])

    def on_ctor(self, ex, fr, st, node, args, *a):
        pm = node.get("pm") or []
        for i, x in enumerate(args or ()):
            loc = self.target_of(ex, fr, st, x, pm[i] if i < len(pm) else "R", "")
            if loc is not None:
                self.given(st, loc)

    def on_assume(self, ex, fr, st, v, truth):
        for loc, i in self.outs.items():
            if v == loc[1]:
                self.tested.add(i)
                if not truth:
                    st.r['null'] = 1
        for k, s in list(st.r.items()):
            if k[0] == 'UC' and s == v:
                del st.r[k]
                if not truth:
                    st.r[('U', k[1])] = 1

    def on_exit(self, ex, fr, st, value):
        if fr.depth:
            return
        t = ex.truth(st, value) if value is not None and value[0] != 'void' else None
        for loc, i in self.outs.items():
            if 'null' in st.r or ex.truth(st, loc[1]) is False:
                continue
            u = ('U', loc) in st.r
            s = st.r.get(('UC', loc))
            if s is not None:
                self.some[i].add('assigned' if ex.truth(st, s) is True else 'with' if s == value or t is False else 'not')
            elif u:
                lenient = self.looped(fr, loc[1][1][2]) or \
                    any(o != loc and j in self.flags and st.env.get(o) is not None and ex.truth(st, st.env[o]) is False
                        for o, j in self.outs.items())
                self.some[i].add('with' if t is False or lenient else 'not')
            else:
                self.some[i].add('assigned')

    def verdicts(self):
        out = {}
        for loc, i in self.outs.items():
            got = self.some[i]
            if i in self.read:
                out[i] = 'inout'
            elif i not in self.wrote:
                out[i] = 'in'
            elif got <= {'assigned'}:
                out[i] = 'out'
            elif got <= {'assigned', 'with'}:
                out[i] = 'cond'
            else:
                out[i] = 'maybe'
        return out


def arrays(prog, k):
    """pointer arguments the operation walks through or indexes"""
    memo = prog.__dict__.setdefault("_arrays", {})
    if k in memo:
        return memo[k]
    f = prog.F[k]
    N = f["nodes"]

    def ref(i):
        while isinstance(i, int) and N[i] and N[i]["k"] == "cast":
            i = N[i].get("e")
        n = N[i] if isinstance(i, int) else None
        return n["d"] if n and n["k"] == "ref" and n.get("dk") == "param" and not n.get("isref") else None
    out = set()
    for n in N:
        if not n:
            continue
        if n["k"] == "bin" and n["op"] not in ("==", "!=", "&&", "||", ","):
            out |= {ref(n.get("b")), ref(n.get("a"))}
        elif n["k"] == "un" and n["op"] in ("++", "--", "post++", "post--"):
            out.add(ref(n.get("e")))
        elif n["k"] == "idx":
            out.add(ref(n.get("b")))
        elif n["k"] == "decl":
            out |= {ref(v.get("init")) for v in n["vars"] if not v.get("isref")}
    memo[k] = out - {None}
    return memo[k]


def fields_passed(prog):
    """numeric fields whose address or reference is handed out"""
    if getattr(prog, "_fpassed", None) is None:
        prog._fpassed = {n["f"] for f in prog.F.values() for n in f["nodes"] if n and n["k"] == "mem" and n.get("acc") in ("ADDR", "REF")}
    return prog._fpassed


def in_loop(prep, d):
    nodes = prep.nodes
    home = {prep.where[i][0] if isinstance(prep.where[i], tuple) else prep.where[i] for i, n in enumerate(nodes)
            if n and n["k"] == "decl" and i in prep.where and any(v["d"] == d for v in n["vars"])}

    def block_of(i):
        seen = 0
        while i not in prep.where:
            p = up.get(i)
            if p is None or seen > 50:
                return None
            i, seen = p, seen + 1
        w = prep.where[i]
        return w[0] if isinstance(w, tuple) else w
    up = {}
    for i, n in enumerate(nodes):
        if n:
            for k in ("e", "a", "b", "i", "recv", "fe", "c"):
                if isinstance(n.get(k), int):
                    up.setdefault(n[k], i)
            for a in n.get("args") or ():
                if isinstance(a, int):
                    up.setdefault(a, i)
    for i, n in enumerate(nodes):
        if not n or n["k"] != "ref" or n.get("d") != d or \
                n.get("acc") not in ("W", "RW", "ADDR", "REF") and n.get("dk") != "param":
            continue
        b = block_of(i)
        if b is None:
            return True
        todo, seen = [s for s in prep.blocks[b]["s"] if s is not None], set()
        while todo:
            x = todo.pop()
            if x == b:
                return True
            if x in seen or x in home:
                continue
            seen.add(x)
            todo += [s for s in prep.blocks[x]["s"] if s is not None]
    return False


class Quiet:
    def count(self, *a): pass

    def violation(self, *a): pass


def outputs(ctx, prog):
    cand = sorted(k for k, f in prog.F.items() if any(output(f["types"][p["t"]]) for p in f["params"]) and not f.get("lambda"))
    classes, passed = {}, {}

    def learn(c, k):
        r = Assign(prog, Quiet(), k, classes, True)
        st = State()
        r.begin(st)
        Exec(prog, r).start(k, st)
        return r.verdicts(), r.passed
    todo = cand
    callers = prog.callers()
    for n in range(6):
        again = set()
        for k, (v, ps) in zip(todo, ctx.pmap(learn, todo)):
            passed[k] = ps
            for i, c in v.items():
                if classes.get((k, i)) != c:
                    classes[k, i] = c
                    again |= set(callers.get(k, ()))
        todo = sorted(k for k in again if k in set(cand))
        if not todo:
            break
    return cand, classes


def run(ctx):
    prog = ctx.prog()
    cand, classes = outputs(ctx, prog)
    ctx.count("operations with outputs", len(cand))
    from collections import Counter
    for c, n in Counter(classes.values()).items():
        ctx.count("outputs assigned: " + c, n)

    roots = sorted(k for k, f in prog.F.items())

    def follow(c, k):
        r = Assign(prog, c, k, classes, False)
        st = State()
        r.begin(st)
        ex = Exec(prog, r)
        ex.start(k, st)
        c.count("functions followed")
        c.explored(ex)
        return r.passed
    sites = {}
    for k, ps in zip(roots, ctx.pmap(follow, roots)):
        for targets, i, state, own in ps:
            for t in targets:
                sites.setdefault((t, i), set()).add((k, own) if state == 'own' else state)
    preset = set(sites)
    while True:
        drop = {x for x in preset if any(s is False or isinstance(s, tuple) and s not in preset for s in sites[x])}
        if not drop:
            break
        preset -= drop
    ctx.count("outputs preset by every caller", len(preset))
    for (k, i), c in sorted(classes.items()):
        f = prog.F[k]
        if c == 'maybe' and (k, i) not in preset:
            ctx.violation("%s: output %s" % (f["qn"], f["params"][i]["n"]), "%s:%d (%s)" % (f["file"], f["line"], f["qn"]),
                          "assigns its output %s on some paths but not on all" % f["params"][i]["n"])
    ctx.floor("operations with outputs", 100)
