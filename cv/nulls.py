"""Which operations may answer null.  Every function of the library that returns a pointer is followed; its answer is
null on a path, or it is the answer of other functions.  Fixed point over the calls."""
from .common import *
from .engine import State
from .locks import bare

# outside functions that answer null
OUTSIDE = {"getenv", "fopen", "popen", "strchr", "strrchr", "strstr", "mmap", "opendir",
           "readdir", "fgets", "localtime", "gmtime", "memchr", "strpbrk", "dynamic_pointer_cast", "lock", "fdopen"}


def pointer(t):
    t = bare(t)
    return is_smart(t) or t.endswith("*")


class Nulls(Rule):
    max_depth = 3
    widen_at = 5
    max_entries = 2
    max_states = 6000
    collapse = True
    asserts = "assume"
    in_order = True

    def __init__(self, prog, root, out):
        super().__init__(prog)
        self.root, self.out = root, out

    def inline(self, fr, node, key):
        return False

    def keep_value(self, st, loc, v):
        return v[0] == 'c' or ('CALLEE', v) in st.r

    def on_call(self, ex, fr, st, node, targets, recv, args):
        if "t" not in node or not pointer(fr.prep.type(node)):
            return None
        name = short(node.get("cn"))
        if targets:
            from .rules.C01_publish import node_id
            s = ex.sym(st, fr, node_id(fr, node))
            st.r[('CALLEE', s)] = (tuple(sorted(targets)), about(ex, fr, st, args))
            return ('val', s)
        if name in OUTSIDE:
            from .rules.C01_publish import node_id
            s = ex.sym(st, fr, node_id(fr, node))
            st.r[('CALLEE', s)] = name
            return ('val', s)
        return None

    def on_assume(self, ex, fr, st, v, truth):
        if ('CALLEE', v) in st.r:
            c = st.r[('CALLEE', v)]
            if not truth and not isinstance(c, str):
                st.r.setdefault(('BECAUSE',), c)
            del st.r[('CALLEE', v)]

    def on_exit(self, ex, fr, st, value):
        if fr.depth:
            return
        t = ex.truth(st, value)
        if t is False:
            if ('BECAUSE',) in st.r:
                c = st.r[('BECAUSE',)]
                self.out.update((k, c[1]) for k in c[0])
            else:
                self.out.add('null')
        elif t is None and ('CALLEE', value) in st.r:
            c = st.r[('CALLEE', value)]
            if isinstance(c, str):
                self.out.add('null')
            else:
                self.out.update((k, c[1]) for k in c[0])


def about(ex, fr, st, args):
    """what is known about the arguments of a call: 'N' not null, ('str', text), or None.  An argument of the caller's own
    is taken not to be null."""
    out = []
    for a in args or ():
        v = ex.load(fr, st, a[1]) if a is not None and a[0] == 'L' else a
        if v is None:
            out.append(None)
        elif v[0] in ('str', 'c'):
            out.append(v)
        elif ('N', v) in st.r and st.r['N', v][2] and ex.truth(st, v) is not True:
            c = st.r['N', v][2:]
            out.append(('call',) + c if nest(c) < 4 else None)
        elif ('CALLEE', v) in st.r and not isinstance(st.r[('CALLEE', v)], str):
            c = st.r[('CALLEE', v)]
            out.append(('call',) + c if nest(c) < 4 else None)
        elif ex.truth(st, v) is True or v[0] == 'i' and v[1][0] == 'v':
            out.append('N')
        else:
            out.append(None)
    return tuple(out)


def nest(c):
    return 1 + max([nest(x) for x in c if isinstance(x, tuple)], default=0) if isinstance(c, tuple) else 0


def answers(prog, k, ctx=()):
    """{'null' or (function, context)}: what the function may answer besides something"""
    memo = prog.__dict__.setdefault("_answers", {})
    if (k, ctx) in memo:
        return memo[k, ctx]
    f = prog.F[k]
    out = set()
    if not f.get("ctor") and not f.get("dtor") and pointer(f["types"][f["ret"]]):
        st = State()
        for p, c in zip(f["params"], ctx):
            loc = ('v', 0, p["d"])
            if c == 'N':
                st.cons[('i', loc)] = True
            elif c is not None and c[0] != 'call':
                st.env[('d', ('i', loc)) if "&" in f["types"][p["t"]] else loc] = c
        ex = Exec(prog, Nulls(prog, k, out))
        ex.start(k, st)
    memo[k, ctx] = out
    return out


def may_be_null(prog, targets, ctx, seen=frozenset()):
    """may one of these functions, called like this, answer null?"""
    if len(seen) > 12:
        return any(k in nullable(prog) for k in targets)
    ctx = tuple((None if may_be_null(prog, c[1], c[2], seen | {(k, ctx) for k in targets}) else 'N')
                if isinstance(c, tuple) and c[0] == 'call' else c for c in ctx)
    for k in targets:
        if (k, ctx) in seen:
            continue
        a = answers(prog, k, ctx)
        if 'null' in a:
            return True
        for k2, c2 in a:
            if may_be_null(prog, (k2,), c2, seen | {(k, ctx)}):
                return True
    return False


def nullable(prog):
    """the functions that may answer null"""
    if getattr(prog, "_nullable", None) is not None:
        return prog._nullable
    edges = {k: answers(prog, k) for k in prog.F}
    may = {k for k, e in edges.items() if 'null' in e}
    grew = True
    while grew:
        grew = False
        for k, e in edges.items():
            if k not in may and any(x[0] in may for x in e if x != 'null'):
                may.add(k)
                grew = True
    prog._nullable = may
    return may
