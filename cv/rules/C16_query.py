"""A query expression is understood everywhere or rejected.  The operator tables are read from their initialisers: every
operator with a spelling has a printed form that is a spelling of the same operator, and a smallest and a largest number
of operands.  The parser answers success for an operator only on paths on which the number of operands was held against
both.  The evaluator is walked once for every operator and every number of operands that the parser lets through: it
answers something on every path on which its operands could be evaluated, the operands in their order, and no two
operators the same.  Whoever answers with a parsed expression has seen the text end where the expression ends.  Every pass that makes an expression node gives it a kind, and with a kind taken from another node
that node's width and term.  Operators spelled in texts of the library are ones the parser knows."""
import re
from ..common import *
from ..locks import bare
from .C01_publish import node_id, cfn

ASSUMPTIONS = ["operators and their arities are kept in tables that the parser consults"]
THIS = ('d', ('this',))
SPELL = re.compile(r"\(([#+^.<>!@]+)(?=[ (]|$)")


class Tables:
    def __init__(self, prog):
        self.enum = self.cls = None
        self.accept, self.prints, self.limits, self.spells = {}, {}, {}, set()
        enums = {e["qn"]: e for e in prog.data["enums"].values()}
        for q, r in sorted(prog.R.items()):
            for f in r["fields"]:
                if bare(f["t"]) in enums and any("<%s>" % q in x["t"] and "vector" in x["t"] for x in r["fields"]):
                    self.cls, self.enum = q, enums[bare(f["t"])]
                    self.kind = q + "::" + f["n"]
                    self.subs = q + "::" + next(x["n"] for x in r["fields"] if "<%s>" % q in x["t"] and "vector" in x["t"])
        if not self.cls:
            return
        self.fields = prog.R[self.cls]["fields"]
        names = {e["n"]: e["v"] for e in self.enum["enumerators"]}
        self.ops = {v: n for n, v in names.items()}
        for g in prog.data["globals"].values():
            rows = g.get("rows") or ()
            if not rows or not any(any(c.get("n") in names for c in r) for r in rows):
                continue
            a, b = rows[0]
            if "s" in a:
                self.spells.add(g["d"])
                self.accept.update({r[0]["s"]: r[1].get("v") for r in rows})
            elif "s" in b:
                self.prints.update({r[0].get("v"): r[1]["s"] for r in rows})
            elif "v" in b:
                self.limits[g["d"]] = {r[0].get("v"): r[1].get("v") for r in rows}
        self.where = "%s:%s" % (self.enum["file"], self.enum["line"])


class Eval(Rule):
    """One operator with one number of operands."""
    max_depth = 3
    max_states = 20000
    widen_at = 4
    max_entries = 3
    asserts = "assume"

    def __init__(self, prog, t, root, evals, op, n):
        super().__init__(prog)
        self.t, self.root, self.evals, self.op, self.n = t, root, evals, op, n
        self.null, self.made, self.again, self.order = [], set(), 0, []

    def begin(self):
        st = State()
        st.env[('f', THIS, self.t.kind)] = ('c', self.op)
        return st

    def inline(self, fr, node, key):
        f = self.prog.F[key]
        return key not in self.evals and (bool(f.get("lambda")) or f.get("cls") == self.t.cls and not self.makes(f) or
                                          not f.get("cls") and self.prog.is_helper(key) and len(f["nodes"]) < 300)

    def makes(self, f):
        return "<%s>" % self.t.cls in f["types"][f["ret"]]

    def keep_value(self, st, loc, v):
        return v[0] == 'c' or ('AT', v) in st.r

    def keep_cons(self, st, key):
        return ('AT', key) in st.r

    def on_call(self, ex, fr, st, node, targets, recv, args):
        if short(node.get("cn")) in ("size", "empty") and recv is not None and recv[0] == 'addr' and \
                recv[1] == ('f', THIS, self.t.subs):
            return ('val', ('c', self.n if short(node["cn"]) == "size" else int(self.n == 0)))
        if targets and set(targets) & self.evals:
            return ('val', self.child(ex, fr, st, node, recv))
        return None

    def child(self, ex, fr, st, node, recv):
        v = recv
        if v is not None and v[0] == 'addr' and v[1][0] == 'd':
            v = v[1][1]
        elif v is not None and v[0] == 'L':
            v = ex.load(fr, st, v[1])
        at = None
        if v is not None and v[0] == 'i' and v[1][0] == 'e' and v[1][1] == ('f', THIS, self.t.subs) and v[1][2][0] == 'c':
            at = v[1][2][1]
        s = ex.sym(st, fr, node_id(fr, node), 7)
        st.cons.pop(s, None)
        st.r[('AT', s)] = 'node' if at is None else int(at)
        return s

    def after_call(self, ex, fr, st, node, targets, recv, args, value):
        st.env[('f', THIS, self.t.kind)] = ('c', self.op)
        if short(node.get("cn")) == "make_unique":
            at = []
            for a in args or ():
                v = ex.load(fr, st, a[1]) if a is not None and a[0] == 'L' else a
                if v is not None and isinstance(st.r.get(('AT', v)), int):
                    at.append(st.r[('AT', v)])
            st.r[('MK',)] = bare(fr.prep.type(node))
            if at != sorted(at) or len(set(at)) != len(at):
                self.order.append(fr.where(node))
            if at and self.n == 2 and len(at) < 2:
                self.order.append(fr.where(node))

    def on_assume(self, ex, fr, st, v, truth):
        if not truth and v[0] not in ('op', 'not', 'c') or truth and v[0] == 'not':
            st.r['missing'] = 1

    def on_exit(self, ex, fr, st, value):
        if fr.depth or value is None:
            return
        t = ex.truth(st, value)
        if t is False or value == NULL:
            if 'missing' not in st.r:
                self.null.append(fr.fn["qn"])
        else:
            self.made.add(st.r.get(('MK',), 'operands'))


class Copy(Rule):
    """What is known of an expression node when the function that made it ends."""
    max_depth = 3
    max_states = 20000
    widen_at = 4
    max_entries = 2
    asserts = "assume"

    def __init__(self, prog, ctx, t, root):
        super().__init__(prog)
        self.ctx, self.t, self.root = ctx, t, root
        self.rest = [(t.cls + "::" + f["n"], f) for f in t.fields if t.cls + "::" + f["n"] not in (t.kind, t.subs)]

    def inline(self, fr, node, key):
        f = self.prog.F[key]
        return key != self.root and (bool(f.get("lambda")) or (
            f.get("cls") in (self.t.cls, self.prog.F[self.root].get("cls")) or not f.get("cls")) and
            self.prog.is_helper(key) and len(f["nodes"]) < 250 and any(
                n and n["k"] == "mem" and n["f"] == self.t.kind and n.get("acc") in ("W", "RW", "CALLM") for n in f["nodes"]))

    def keep_value(self, st, loc, v):
        return loc[0] == 'f' and loc[2].startswith(self.t.cls + "::")

    def keep_cons(self, st, key):
        k = key[1] if key[0] == 'eq' else key
        return k in [v for x, v in st.r.items() if x[0] == 'W' and x[2] == self.t.kind] or \
            k[0] == 'i' and k[1][0] == 'f' and k[1][2] == self.t.kind

    def base(self, v):
        """the node a value was copied from"""
        return v[1][1] if v is not None and v[0] == 'i' and v[1][0] == 'f' else None

    def on_new(self, ex, fr, st, node, v):
        if "<%s>" % self.t.cls in fr.prep.type(node):
            for k in [k for k in st.r if k[0] == 'W' and k[1] == ('d', v)]:
                del st.r[k]
            st.r[('N', ('d', v))] = node["l"]

    def on_write(self, ex, fr, st, node, loc, value):
        if loc[0] == 'f' and loc[2].startswith(self.t.cls + "::"):
            st.r[('W',) + loc[1:]] = value
            if loc[2] == self.t.kind:
                self.ctx.count("kinds given")

    def on_exit(self, ex, fr, st, value):
        if fr.depth or value is None:
            return
        v = value
        b = ('d', v)
        if v[0] != 'new' or ('N', b) not in st.r:
            return
        kind = st.r.get(('W', b, self.t.kind))
        f = fr.fn
        if kind is None:
            if self.passed(st, v):
                return
            self.ctx.violation("%s: node without a kind" % f["qn"], "%s:%s (%s)" % (f["file"], st.r[('N', b)], f["qn"]),
                               "answers an expression node that was never given an operator")
            return
        src = self.base(kind)
        for q, x in self.rest:
            w = st.r.get(('W', b, q))
            self.ctx.count("fields of new nodes compared")
            if w is None and (x.get("scalar") or src is not None):
                self.ctx.violation("%s: %s left out" % (f["qn"], short(q)),
                                   "%s:%s (%s)" % (f["file"], st.r[('N', b)], f["qn"]),
                                   "answers an expression node whose %s was never set" % short(q))
            elif src is not None and self.base(w) not in (src, None) and short(w[1][2]) == short(q):
                self.ctx.violation("%s: %s of another node" % (f["qn"], short(q)),
                                   "%s:%s (%s)" % (f["file"], st.r[('N', b)], f["qn"]),
                                   "answers an expression node with the %s of another node" % short(q))
            elif src is not None and x.get("scalar") and w[0] == 'c' and not self.known_kind(ex, st, kind):
                self.ctx.violation("%s: %s lost" % (f["qn"], short(q)),
                                   "%s:%s (%s)" % (f["file"], st.r[('N', b)], f["qn"]),
                                   "answers a copy of an expression node, of any kind, with a constant %s" % short(q))

    def passed(self, st, v):
        return ('GIVEN', v) in st.r

    def after_call(self, ex, fr, st, node, targets, recv, args, value):
        if any(self.inline(fr, node, k) for k in targets or ()):
            return
        for a in args or ():
            x = ex.load(fr, st, a[1]) if a is not None and a[0] == 'L' else a
            if targets and x is not None and x[0] == 'new':
                st.r[('GIVEN', x)] = 1

    def known_kind(self, ex, st, kind):
        return which(st, kind) is not None


def which(st, kind):
    """the operator a kind is known to be"""
    e = st.cons.get(('eq', kind))
    return e if e is not None else 0 if st.cons.get(kind) is False else None


class Parse(Rule):
    """Success of the parser and the operand counts."""
    max_depth = 2
    max_states = 20000
    widen_at = 4
    max_entries = 2
    asserts = "assume"

    def __init__(self, prog, ctx, t, root):
        super().__init__(prog)
        self.ctx, self.t, self.root = ctx, t, root
        self.oks = [('d', ('i', ('v', 0, p["d"]))) for p in prog.F[root]["params"]
                    if bare(prog.F[root]["types"][p["t"]]).rstrip(" ") in ("bool *", "bool*", "_Bool *", "bool &")]

    def inline(self, fr, node, key):
        f = self.prog.F[key]
        return key != self.root and self.prog.is_helper(key) and len(f["nodes"]) < 60

    def keep_value(self, st, loc, v):
        return loc in self.oks or loc[0] == 'f' and loc[2] == self.t.kind or v[0] == 'c'

    def keep_cons(self, st, key):
        k = key[1] if key[0] == 'eq' else key
        return k == st.r.get('kind') or k == st.r.get('ok')

    def on_call(self, ex, fr, st, node, targets, recv, args):
        if targets and self.root in targets:
            st.r['nested'] = 1
        return None

    def after_call(self, ex, fr, st, node, targets, recv, args, value):
        if short(node.get("cn") or "") == "find" and recv is not None and recv[0] == 'addr' and recv[1][0] == 'g' and \
                recv[1][1] in self.t.spells:
            st.r[('F', value)] = 1

    def on_var(self, ex, fr, st, node, loc, acc):
        if loc[0] == 'g' and loc[1] in self.t.limits:
            st.r[('T', loc[1])] = 1

    def on_write(self, ex, fr, st, node, loc, value):
        if loc in self.oks and value is not None:
            st.r['ok'] = value
        if loc[0] == 'f' and loc[2] == self.t.kind and loc[1][0] == 'd':
            st.r['kind'] = value

    def on_assume(self, ex, fr, st, v, truth):
        if v[0] == 'op' and v[1] == '==' and not truth:
            for x in v[2:]:
                if ('F', x) in st.r:
                    st.r['found'] = x

    def on_exit(self, ex, fr, st, value):
        if fr.depth:
            return
        ok, kind = st.r.get('ok'), st.r.get('kind')
        if ok is None or ex.truth(st, ok) is False or ok == NULL:
            return
        self.ctx.count("ways the parser succeeds")
        if kind is None:
            self.ctx.violation("%s: success without a kind" % fr.fn["qn"], fr.where(),
                               "can report success for an expression without having given it an operator")
            return
        if kind[0] == 'c':
            return
        if kind[0] == 'i' and kind[1][0] == 'f' and kind[1][2].endswith("::second") and kind[1][1][0] == 'd' and \
                st.r.get('found') != kind[1][1][1]:
            self.ctx.violation("%s: unknown operator" % fr.fn["qn"], fr.where(),
                               "can report success for an operator it did not find among the known ones")
        v = which(st, kind)
        if v is not None and max([d.get(v) or 0 for d in self.t.limits.values()] or [0]) == 0:
            return
        for d in self.t.limits:
            if ('T', d) not in st.r:
                self.ctx.violation("%s: operands not counted against %s" % (fr.fn["qn"], short(d)), fr.where(),
                                   "can report success for an operator without having compared the number of its operands "
                                   "with %s" % short(d))


class Rest(Rule):
    """Whoever answers with what the parser made has seen the end of the text."""
    max_depth = 2
    max_states = 20000
    widen_at = 4
    max_entries = 3
    asserts = "assume"

    def __init__(self, prog, ctx, t, parser):
        super().__init__(prog)
        self.ctx, self.t, self.parser = ctx, t, parser

    def inline(self, fr, node, key):
        f = self.prog.F[key]
        return key != self.parser and self.prog.is_helper(key) and len(f["nodes"]) < 100

    def keep_value(self, st, loc, v):
        return loc in (st.r.get('at') or ())

    def keep_cons(self, st, key):
        return True

    def after_call(self, ex, fr, st, node, targets, recv, args, value):
        if targets and self.parser in targets:
            st.r['came'] = value
            st.r['at'] = ()
            st.r.pop('end', None)
            st.r['where'] = fr.where(node)

    def on_write(self, ex, fr, st, node, loc, value):
        if 'came' in st.r and value is not None and value == st.r['came']:
            st.r['at'] = tuple(sorted(set(st.r['at']) | {loc}, key=repr))
        elif loc in (st.r.get('at') or ()):
            st.r.pop('end', None)

    def on_assume(self, ex, fr, st, v, truth):
        if 'came' not in st.r:
            return
        if v[0] == 'op' and v[1] == '==' and truth:
            if NULL in v[2:]:
                v, truth = v[3] if v[2] == NULL else v[2], False
            elif any(ex.load(fr, st, loc) in v[2:] for loc in st.r['at']):
                st.r['end'] = 1
        if v[0] == 'i' and v[1][0] in 'de' and not truth:
            st.r['end'] = 1

    def on_exit(self, ex, fr, st, value):
        if fr.depth or 'came' not in st.r or value is None or value == NULL or ex.truth(st, value) is False:
            return
        self.ctx.count("ways a parsed expression is answered")
        if 'end' not in st.r:
            self.ctx.violation("%s: rest of the text" % fr.fn["qn"], st.r['where'],
                               "can answer an expression without having seen that the text ends where the expression ends")


def comparisons(prog, t, key):
    """(node, relation, table) of the comparisons of a number of operands with an entry of a table"""
    f = prog.F[key]
    N = f["nodes"]

    def has(i, test):
        todo, seen = [i], set()
        while todo:
            i = todo.pop()
            if not isinstance(i, int) or i in seen or i >= len(N) or not N[i]:
                continue
            seen.add(i)
            if test(N[i]):
                return N[i]
            for x in ("e", "recv", "b", "i", "a"):
                todo.append(N[i].get(x))
            todo += [a for a in N[i].get("args") or ()]
        return None
    flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
    for n in N:
        if n and n["k"] == "bin" and n["op"] in ("<", ">", "<=", ">=", "==", "!="):
            for x, y, op in ((n["a"], n["b"], n["op"]), (n["b"], n["a"], flip.get(n["op"], n["op"]))):
                g = has(y, lambda m: m["k"] == "ref" and m.get("d") in t.limits)
                if g and has(x, lambda m: m["k"] == "call" and short(m.get("cn")) == "size"):
                    yield n, op, g["d"]


def run(ctx):
    prog = ctx.prog()
    t = Tables(prog)
    if not t.cls:
        ctx.errors.append("expression nodes not found")
        return
    name = lambda v: short(t.ops.get(v, str(v)))
    low = {v: min([d[v] for d in t.limits.values() if d.get(v) is not None] or [0]) for v in t.ops}
    high = {v: max([d[v] for d in t.limits.values() if d.get(v) is not None] or [3]) for v in t.ops}

    # the tables
    spelled = set(t.accept.values())
    for v in sorted(x for x in spelled if x is not None):
        ctx.count("operators with a spelling")
        if t.prints and (v not in t.prints or t.accept.get(t.prints[v]) != v):
            ctx.violation("%s: printed form" % name(v), t.where,
                          "%s is printed as %r, which the parser reads as %s" % (
                              name(v), t.prints.get(v, ""), name(t.accept[t.prints[v]]) if t.prints.get(v) in t.accept else "nothing"))
        for d in t.limits:
            if v not in t.limits[d]:
                ctx.violation("%s: missing from %s" % (name(v), short(d)), t.where, "%s has no entry in %s, which then answers zero" % (
                    name(v), short(d)))
        if low[v] > high[v] or len(t.limits) > 1 and high[v] == 0 and low[v] > 0:
            ctx.violation("%s: no number of operands" % name(v), t.where, "no number of operands is accepted")
    for w, v in sorted(t.accept.items()):
        if w.isidentifier() and v in t.ops:
            ctx.count("operators spelled by their names")
            for x, n in t.ops.items():
                if x != v and short(n).lower() == w.lower():
                    ctx.violation("%s: spelling" % w, t.where, "%s is read as %s" % (w, name(v)))
    dead = {v for v in t.ops if v not in spelled}

    # the evaluator
    evals = {k for k, f in prog.F.items() if f.get("cls") == t.cls and is_smart(f["types"][f["ret"]]) and
             "Hopper" in f["types"][f["ret"]] and not f.get("lambda") and not prog.is_static(k)}
    if not evals:
        ctx.errors.append("no evaluator of %s found" % t.cls)
    for k in sorted(evals):
        f = prog.F[k]
        classes = {}
        for v in sorted(t.ops):
            if v in dead and v not in t.prints:
                continue
            for n in range(low[v], min(high[v], 3) + 1):
                r = Eval(prog, t, k, evals, v, n)
                ex = Exec(prog, r)
                ex.start(k, r.begin())
                ctx.explored(ex)
                ctx.count("operators and operand counts evaluated")
                where = "%s:%s (%s)" % (f["file"], f["line"], f["qn"])
                if not r.made:
                    ctx.violation("%s: %s not evaluated" % (f["qn"], name(v)), where,
                                  "answers nothing for %s with %d operands, which the parser accepts" % (name(v), n))
                elif r.null:
                    ctx.violation("%s: %s not always evaluated" % (f["qn"], name(v)), where,
                                  "has a path that answers nothing for %s with %d operands although its operands were "
                                  "evaluated" % (name(v), n))
                for w in r.order:
                    ctx.violation("%s: operands of %s" % (f["qn"], name(v)), w,
                                  "does not evaluate %s with its operands in their order" % name(v))
                if n == min(high[v], 2):
                    for c in r.made - {'operands'}:
                        classes.setdefault(c, set()).add(v)
        for c, vs in sorted(classes.items()):
            ctx.sample("%s: %s" % (c, ", ".join(map(name, vs))))
            if len(vs) > 1:
                ctx.violation("%s: %s the same" % (f["qn"], " and ".join(sorted(map(name, vs)))),
                              "%s:%s (%s)" % (f["file"], f["line"], f["qn"]), "evaluates different operators by the same %s" % c)

    # new nodes
    makers = sorted(k for k, f in prog.F.items() if is_smart(f["types"][f["ret"]]) and "<%s>" % t.cls in f["types"][f["ret"]]
                    and not f.get("lambda") and any(
                        n and n["k"] == "call" and short(n.get("cn")) == "make_shared" and
                        "<%s>" % t.cls in f["types"][n["t"]] for n in f["nodes"] if n and "t" in n))

    makers = sorted(set(makers) | {k for k, f in prog.F.items() if is_smart(f["types"][f["ret"]]) and
                                   "<%s>" % t.cls in f["types"][f["ret"]] and not f.get("lambda") and
                                   any(m in prog.callees(k) for m in makers)})

    def copy(c, k):
        r = Copy(prog, c, t, k)
        ex = Exec(prog, r)
        ex.start(k)
        c.count("functions that make nodes")
        c.explored(ex)
    ctx.pmap(copy, makers, 1)

    # the parser
    parsers = sorted(k for k, f in prog.F.items() if not f.get("lambda") and any(
        n and n["k"] == "mem" and n["f"] == t.kind and n.get("acc") == "W" for n in f["nodes"]) and any(
        bare(f["types"][p["t"]]).rstrip(" ") in ("bool *", "bool*", "_Bool *", "bool &") for p in f["params"]))

    def parse(c, k):
        r = Parse(prog, c, t, k)
        ex = Exec(prog, r)
        ex.start(k)
        c.count("parsers followed")
        c.explored(ex)
    ctx.pmap(parse, parsers, 1)
    def rest(c, k):
        p = next(x for x in parsers if x in prog.callees(k))
        ex = Exec(prog, Rest(prog, c, t, p))
        ex.start(k)
        c.count("users of the parser followed")
        c.explored(ex)
    ctx.pmap(rest, sorted(k for k, f in prog.F.items() if k not in parsers and not f.get("lambda") and
                          is_smart(f["types"][f["ret"]]) and "<%s>" % t.cls in f["types"][f["ret"]] and
                          any(x in prog.callees(k) for x in parsers)), 1)
    total = {d: sum(x or 0 for x in rows.values()) for d, rows in t.limits.items()}
    for k in sorted(prog.F):
        for n, op, d in comparisons(prog, t, k):
            ctx.count("comparisons of operand counts")
            least = total[d] == min(total.values()) and len(total) > 1
            if op not in ((">=", "<") if least else ("<=", ">")):
                f = prog.F[k]
                ctx.violation("%s: operands compared with %s" % (f["qn"], short(d)), "%s:%s (%s)" % (
                    f["file"], n.get("l", f["line"]), f["qn"]), "holds the number of operands against %s by %s" % (short(d), op))

    # operators spelled in texts
    for k, f in sorted(prog.F.items()):
        if f["file"].startswith(("test/", "apps/")):
            continue
        for n in f["nodes"]:
            if n and n["k"] == "lit" and isinstance(n.get("v"), str) and n.get("lk") == "str" and "(" in n["v"]:
                for m in SPELL.finditer(n["v"]):
                    ctx.count("operators spelled in texts")
                    if t.accept and m.group(1) not in t.accept:
                        ctx.violation("%s: operator %s" % (f["qn"], m.group(1)), "%s:%s (%s)" % (
                            f["file"], n.get("l", f["line"]), f["qn"]),
                            "writes an expression with the operator %s, which the parser does not know" % m.group(1))
    ctx.floor("operators with a spelling", 5)
    ctx.floor("operators and operand counts evaluated", 10)
    ctx.floor("functions that make nodes", 2)
