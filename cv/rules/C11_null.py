"""Results that can be null and lookups that can miss are tested before they are used.  Which operations may answer null is
computed from their own paths (cv/nulls.py); which operations use an argument, or keep it in a field nobody tests,
without testing it is computed the same way.  Every function is followed on all its paths: a may-be-null result is not
dereferenced, handed to such an operation or kept in such a field before it was found not to be null, and an iterator
from a lookup is not dereferenced before it was found to differ from the end of the container that was searched."""
import re

from ..common import *
from ..engine import is_iter
from ..locks import bare
from ..nulls import nullable, pointer, about, may_be_null, OUTSIDE
from .C01_publish import node_id

ASSUMPTIONS = ["pointers held in fields that no code tests are set up before use; they are not followed between functions",
               "an argument given by the caller is the caller's responsibility where the function asserts or documents it"]

LOOKUPS = {"find", "lower_bound", "upper_bound", "find_if", "find_if_not", "adjacent_find", "search", "max_element",
           "min_element"}

# the library and the server; the other programs run fixed demonstrations and experiments, and gcl/mt.cc is the
# original query interpreter kept for comparison
SCOPE = ("src/", "gcl/", "meadowlark/", "apps/ssr-server.cc")
OUTSIDE_SCOPE = {"gcl/mt.cc"}

# answer null exactly for an empty range; the callers call them while there is something left
EMPTY = {("cottontail::SimplePostingFactory::posting_from_tokens", 2),
         ("cottontail::SimplePostingFactory::posting_from_annotations", 2),
         ("cottontail::SimplePostingFactory::posting_from_merge", 1)}


def component(prog, t):
    """a pointer to one of the library's own classes"""
    t = bare(t)
    return is_smart(t) or t.endswith("*") and t.rstrip("* ").replace("const ", "").strip() in prog.R


def made_of(prog, t):
    """a pointer to an object of the library (rather than to a buffer)"""
    m = re.search(r"(?:shared_ptr|unique_ptr)<(?:class )?([\w:]+)", bare(t))
    return bool(m) and any(q == m.group(1) or q.endswith("::" + m.group(1)) for q in prog.R)


class Null(Rule):
    max_depth = 4
    widen_at = 3
    max_entries = 2
    max_states = 40000
    max_term = 8
    collapse = True
    asserts = "ignore"
    in_order = True

    def __init__(self, prog, ctx, root, needs, learn=None):
        super().__init__(prog)
        self.ctx, self.root, self.needs, self.learn = ctx, root, needs, learn
        self.may = nullable(prog)
        self.fields = needs.get("fields", ())
        f = prog.F[root]
        self.pars = {('i', ('v', 0, p["d"])): i for i, p in enumerate(f["params"]) if component(prog, f["types"][p["t"]])} if learn is not None else {}

    def inline(self, fr, node, key):
        return bool(self.prog.F[key].get("lambda"))

    def keep_value(self, st, loc, v):
        return v[0] == 'c' or any((k, v) in st.r for k in ('N', 'IT', 'END', 'CMP'))

    def keep_cons(self, st, key):
        return False

    # -- what is known about a value
    def own(self, v):
        """the field of a component the value came from"""
        return v[1][2] if v[0] == 'i' and len(v) > 1 and v[1][0] == 'f' else None

    def suspect(self, ex, st, v):
        """why the value may be null, or None"""
        if v in self.pars:
            return None if ex.truth(st, v) is True or ('OK', v) in st.r else ('P', self.pars[v])
        if ('N', v) in st.r and ex.truth(st, v) is not True:
            return ('N', st.r[('N', v)])
        return None

    def on_assume(self, ex, fr, st, v, truth):
        if self.learn is not None and self.own(v):
            st.r[('OK', v)] = 1
            return
        if v in self.pars:
            st.r[('OK', v)] = 1          # tested: either way the function looked
            return
        if ('N', v) in st.r and (truth or not self.held(st, v)):
            del st.r[('N', v)]
        if ('CMP', v) in st.r:
            it, differ, end = st.r.pop(('CMP', v))
            if not self.held(st, end):
                st.r.pop(('END', end), None)
            if truth == differ or not self.held(st, it):
                st.r.pop(('IT', it), None)

    def held(self, st, v):
        """by a variable"""
        return any(x == v for x in st.env.values())

    def same(self, a, b):
        def strip(x):
            if not isinstance(x, tuple):
                return x
            x = x[:2] if x and x[0] == 'i' else x
            return tuple(strip(y) for y in x)
        a, b = strip(a), strip(b)

        def vague(x):
            return isinstance(x, tuple) and (x and x[0] == 's' or any(vague(y) for y in x))
        return a == b or vague(a) or vague(b)

    def bad(self, fr, node, what, where, why):
        self.ctx.violation("%s: %s %s" % (fr.fn["qn"], what, where), fr.where(node) if node is not None else "%s:%d (%s)" % (fr.fn["file"], fr.fn["line"], fr.fn["qn"]), why, fr.chain())

    def use(self, ex, fr, st, node, v, how):
        s = self.suspect(ex, st, v)
        if s is None:
            return
        if s[0] == 'P':
            self.learn.add(s[1])
        elif self.learn is None:
            cn, line, targets, how_called = s[1]
            if targets and not may_be_null(self.prog, targets, how_called):
                return
            if targets and all((self.prog.F[k]["qn"], len(self.prog.F[k]["params"])) in EMPTY for k in targets):
                return
            self.bad(fr, node, "uses result of", cn, "%s what %s answered (line %d) without having tested that it is not null" % (how, cn, line))

    def on_deref(self, ex, fr, st, node, value):
        if self.learn is None:
            self.ctx.count("dereferences checked")
        elif self.own(value) and ('OK', value) not in st.r and not self.own(value).startswith("std"):
            self.learn.add(self.own(value))
        self.use(ex, fr, st, node, value, "uses")

    def on_exit(self, ex, fr, st, value):
        if fr.depth or not fr.fn.get("ctor") and bare(fr.fn["types"][fr.fn["ret"]]) == "void":
            return                  # cannot report it either
        if value is not None and ex.truth(st, value) is False:
            return
        for loc, v in st.env.items():
            if loc[0] == 'f' and (loc[2] in self.fields or value is not None and value[0] == 'new' and ('MADE', v) in st.r):
                s = self.suspect(ex, st, v)
                if s is not None:
                    self.use(ex, fr, st, None, v, "keeps in " + short(loc[2]) + (", a field used without a test," if loc[2] in self.fields else " of the object it answers"))

    def args_of(self, ex, fr, st, node, targets, args):
        for i, a in enumerate(args):
            if a is None:
                continue
            v = ex.load(fr, st, a[1]) if a[0] == 'L' else a
            if self.suspect(ex, st, v) is None:
                continue
            if any(i in self.needs.get(k, ()) for k in targets or ()):
                self.use(ex, fr, st, node, v, "hands on")
            elif self.learn is None and ('MADE', v) in st.r and any(self.prog.F[k].get("ctor") for k in targets or ()):
                self.use(ex, fr, st, node, v, "builds an object with")

    def on_ctor(self, ex, fr, st, node, args, *a):
        ks = [k for k in (node.get("c"),) if k in self.prog.F]
        self.args_of(ex, fr, st, node, ks, args or ())

    def on_call(self, ex, fr, st, node, targets, recv, args):
        cn = node.get("cn") or ""
        name, op = short(cn), node.get("op")
        inl = any(self.inline(fr, node, k) for k in targets or ())
        if not inl:
            self.args_of(ex, fr, st, node, targets, args)
        if "t" not in node:
            return None
        t = fr.prep.type(node)
        if not inl and pointer(t) and (any(k in self.may for k in targets or ()) or not targets and name in OUTSIDE):
            s = ex.sym(st, fr, node_id(fr, node))
            st.r[('N', s)] = (short(cn) if not targets else self.prog.F[targets[0]]["qn"].replace("cottontail::", ""), node["l"],
                              tuple(targets or ()), about(ex, fr, st, args) if targets else ())
            if made_of(self.prog, t):
                st.r[('MADE', s)] = 1
            if self.learn is None:
                self.ctx.count("results that may be null")
            return ('val', s)
        if not inl and pointer(t) and targets:
            s = ex.sym(st, fr, node_id(fr, node))
            st.cons[s] = True
            return ('val', s)
        if cn.startswith(("std::", "__gnu_cxx::")):
            loc = recv[1] if recv is not None and recv[0] == 'addr' else None
            if name in LOOKUPS and is_iter(bare(t)):
                s = ex.sym(st, fr, node_id(fr, node))
                if recv is not None:
                    where = loc if loc is not None else ('d', recv)
                else:
                    b = args[0] if args else None
                    b = ex.load(fr, st, b[1]) if b is not None and b[0] == 'L' else b
                    where = b[2][1] if b is not None and b[0] == 'op' and b[1] == "begin" else ('d', ('s', -1, -1))
                st.r[('IT', s)] = (where, node["l"])
                if self.learn is None:
                    self.ctx.count("lookups that may miss")
                return ('val', s)
            if recv is not None and name in ("begin", "cbegin") and not args:
                return ('val', ('op', "begin", ('addr', loc if loc is not None else ('d', recv))))
            if recv is not None and name in ("end", "cend") and not args:
                if not any(k[0] == 'IT' for k in st.r):
                    return None
                s = ex.sym(st, fr, node_id(fr, node))
                st.r[('END', s)] = loc if loc is not None else ('d', recv)
                return ('val', s)
            if loc is not None and is_iter(cn.rsplit("::", 1)[0]):
                v = ex.load(fr, st, loc)
                if op in ("*", "->") and len(args) == 0 and ('IT', v) in st.r and self.learn is None:
                    self.bad(fr, node, "uses lookup of line", "", "uses the result of the lookup at line %d without having tested that it found something (against the end of the container searched)" % st.r[('IT', v)][1])
                if op in ("++", "--", "+=", "-="):
                    ex.write(fr, st, dict(node, _id=node.get("_id", -1)), loc, ex.sym(st, fr, node_id(fr, node), 7))
                    return ('val', ('L', loc))
            if op in ("==", "!=") and len(args) + (recv is not None) == 2:
                x, y = [ex.load(fr, st, a[1]) if a is not None and a[0] == 'L' else a for a in (
                    list(args) if recv is None else [('L', loc) if loc is not None else recv] + list(args))]
                if ('IT', y) in st.r:
                    x, y = y, x
                if ('IT', x) in st.r:
                    s = ex.sym(st, fr, node_id(fr, node))
                    if ('END', y) in st.r and self.same(st.r[('IT', x)][0], st.r[('END', y)]):
                        st.r[('CMP', s)] = (x, op == "!=", y)
                    elif ('END', y) in st.r and self.learn is None:
                        self.bad(fr, node, "compares lookup", "", "compares the result of the lookup at line %d with the end of another container" % st.r[('IT', x)][1])
                    return ('val', s)
        return None


class Quiet:
    def count(self, *a): pass

    def violation(self, *a): pass


def needs_of(ctx, prog):
    """{function: positions of pointer arguments it uses without testing}"""
    needs = {}
    cand = sorted(k for k, f in prog.F.items() if not f.get("lambda"))
    up = {}
    for k in cand:
        for c in prog.callees(k):
            up.setdefault(c, set()).add(k)

    def learn(c, k):
        got = set(needs.get(k, ()))
        Exec(prog, Null(prog, Quiet(), k, needs, got)).start(k)
        return got
    fields = needs["fields"] = set()
    todo = cand
    for r in range(4):
        changed = set()
        for k, got in zip(todo, ctx.pmap(learn, todo)):
            if {x for x in got if isinstance(x, int)} != needs.get(k, set()) or got - needs.get(k, set()) - fields:
                needs[k] = {x for x in got if isinstance(x, int)}
                fields |= got - needs[k]
                changed.add(k)
        todo = sorted({c for k in changed for c in up.get(k, ())} | ({k for k in cand if prog.F[k].get("ctor")} if r == 0 else set()))
        if not todo:
            break
    return needs


def run(ctx):
    prog = ctx.prog()
    nullable(prog)
    needs = needs_of(ctx, prog)
    ctx.count("operations that may answer null", len(nullable(prog)))
    roots = sorted(k for k, f in prog.F.items() if f["file"].startswith(SCOPE) and f["file"] not in OUTSIDE_SCOPE)

    def follow(c, k):
        ex = Exec(prog, Null(prog, c, k, needs))
        ex.start(k)
        c.count("functions followed")
        c.explored(ex)
    ctx.pmap(follow, roots)
    ctx.floor("dereferences checked", 500)
