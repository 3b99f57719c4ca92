"""No name reaches a shell unquoted.  The text of every command that is run by a shell, and of every script that is made
executable, is followed on every path as a sequence of pieces: literal text, numbers, the result of a quoting operation,
other strings.  Only the first three are allowed, and a quoted piece does not stand inside quotes.  A quoting operation
is recognised by what it does: on its own paths it delivers one pair of quotes around its argument's characters, each of
which is known not to be a quote or is replaced.  A helper that runs its argument makes its callers responsible."""
from ..common import *
from ..locks import bare
from ..loops import LoopMixin, elem_of
from .C01_publish import cfn, node_id

ASSUMPTIONS = ["the shell is a POSIX shell", "numbers and addresses print without characters special to the shell"]

RUN = {"system": 0, "popen": 0}
QUOTE = "'"
ESCAPES = ("'\\''", "'\"'\"'")
CHARS = "const char *"


def stringy(t):
    t = bare(t)
    return is_string(t) or t.rstrip("* ").replace("const", "").strip() == "char" and "*" in t


def numeric(t):
    return bare(t) in ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short", "double",
                       "float", "bool", "size_t", "addr") or bare(t).endswith("*") and "char" not in t


def join(a, b):
    out = list(a)
    for p in b:
        if p in out[1:] and len(out) > 12:
            continue
        else:
            out.append(p)
    return tuple(out)


def grow(a, b):
    """appending in place, perhaps again and again: a piece that is there already is not added twice"""
    out = list(a)
    for p in b:
        if p not in out[1:]:
            out.append(p)
    return tuple(out)


class Text(LoopMixin, Rule):
    max_depth = 5
    widen_at = 6
    max_entries = 4
    max_states = 20000
    collapse = False
    asserts = "ignore"
    max_term = 40

    def __init__(self, prog, ctx, root, quoters, sinks, found=None, quoting=False):
        super().__init__(prog)
        self.ctx, self.root, self.quoters, self.sinks, self.found, self.quoting = ctx, root, quoters, sinks, found, quoting
        f = prog.F[root]
        self.pars = {p["d"]: i for i, p in enumerate(f["params"])}
        self.result = []

    def inline(self, fr, node, key):
        f = self.prog.F[key]
        if key in self.quoters or key in self.sinks:
            return False
        if f.get("lambda"):
            return True
        return len(f["nodes"]) < 400 and (stringy(f["types"][f["ret"]]) and not f.get("virtual") or
                                         self.prog.is_helper(key) and any(stringy(f["types"][p["t"]].rstrip("*& ")) for p in f["params"]))

    def keep_value(self, st, loc, v):
        return v[0] in ('txt', 'str', 'c')

    def keep_local(self, st, loc):
        return st.env.get(loc, ('c',))[0] == 'txt'

    # -- pieces of a string
    def pieces(self, ex, fr, st, v, t=None):
        if v is None:
            return (('x', None),)
        if v[0] == 'L':
            vec = st.r.get(('VEC', elem_of(v[1]) or v[1]))
            v = ex.load(fr, st, v[1])
            if vec is not None and v[0] != 'txt':
                return vec
        if v[0] == 'i' and ('VEC', elem_of(v[1]) or v[1]) in st.r:
            return st.r[('VEC', elem_of(v[1]) or v[1])]
        if v[0] == 'txt':
            return v[1]
        if v[0] == 'str':
            return (('t', v[1]),)
        if v[0] == 'c' and isinstance(v[1], str):
            return (('t', v[1]),)
        if v[0] == 'c' and t is not None and bare(t).replace("const ", "") == "char" and isinstance(v[1], int) and 0 < v[1] < 128:
            return (('t', chr(v[1])),)
        if t is not None and bare(t).replace("const ", "") in ("char", "value_type"):
            return (('ch', ('ch', v) in st.r or ex.truth(st, ('isq', v)) is False),)
        if t is not None and numeric(t) or v[0] == 'c':
            return (('n',),)
        if v[0] == 'obj':
            return ()
        return (('x', v),)

    def typ(self, fr, i):
        n = fr.prep.nodes[i]
        while n["k"] == "cast" and n.get("e") is not None:
            n = fr.prep.nodes[n["e"]]
        try:
            return fr.prep.type(n)
        except KeyError:
            return ""

    def on_bin(self, *a):
        return None

    def on_call(self, ex, fr, st, node, targets, recv, args):
        name, op = short(node.get("cn") or ""), node.get("op")
        cn = node.get("cn") or ""
        A = node.get("args") or []
        T = [self.typ(fr, i) if i is not None else "" for i in A]
        loc = recv[1] if recv is not None and recv[0] == 'addr' else None
        std = cn.startswith("std::") or not targets

        if targets and any(k in self.quoters for k in targets):
            p = self.pieces(ex, fr, st, args[self.quoters[targets[0]]], "")
            self.ctx.count("pieces quoted")
            return ('val', ('txt', (('q',),)))
        if targets:
            for k in targets:
                for i in self.sinks.get(k, ()):
                    self.sink(ex, fr, st, node, args[i], "hands to " + short(self.prog.F[k]["qn"]) + ", which runs it,")
            return None
        c = cfn(node)
        if c in RUN and recv is None:
            self.sink(ex, fr, st, node, args[0], "runs")
            return None
        if c.startswith(("execl", "execv", "posix_spawn")):
            for i, a in enumerate(args):
                if self.pieces(ex, fr, st, a) == (('t', "-c"),) and i + 1 < len(args):
                    self.sink(ex, fr, st, node, args[i + 1], "runs")
            return None
        if c in ("chmod", "fchmod") and len(args) == 2:
            m = args[1]
            m = ex.load(fr, st, m[1]) if m[0] == 'L' else m
            if m[0] == 'c' and isinstance(m[1], int) and not m[1] & 0o111:
                return None
            name_ = self.name(ex, fr, st, args[0])
            for k, v in list(st.r.items()):
                if k[0] == 'FILE' and v == name_:
                    self.sink(ex, fr, st, node, ('txt', st.r.get(('SS', k[1]), ())), "makes executable a script with")
            return None
        if name in ("c_str", "data") and recv is not None and std:
            v = ex.load(fr, st, loc) if loc is not None else recv
            return ('val', ('txt', self.pieces(ex, fr, st, v)))
        if op == "+" and cn.startswith("std::") and len(args) == 2 and (stringy(T[0]) or stringy(T[1])):
            return ('val', ('txt', join(self.pieces(ex, fr, st, args[0], T[0]), self.pieces(ex, fr, st, args[1], T[1]))))
        if name == "to_string" and recv is None and std:
            return ('val', ('txt', (('n',),)))
        if name in ("move", "forward") and cn.startswith("std::") and len(args) == 1 and args[0] is not None and stringy(T[0]):
            return ('val', args[0])
        if loc is not None and cn.startswith("std::vector") and name in ("push_back", "emplace_back") and len(args) == 1:
            st.r[('VEC', loc)] = grow(st.r.get(('VEC', loc), ()), self.pieces(ex, fr, st, args[0], T[0]))
            return None
        r = self.iter_call(ex, fr, st, node, recv, args)
        if r is not None:
            return r
        if recv is not None and loc is not None and std:
            R = self.typ(fr, node["recv"]) if node.get("recv") is not None else ""
            if is_string(bare(R).rstrip("*& ")) or cn.startswith("std::basic_string"):
                old = self.pieces(ex, fr, st, ex.load(fr, st, loc))
                new = None
                if op == "=" or name == "assign" and len(args) == 1:
                    new = self.pieces(ex, fr, st, args[0], T[0])
                elif op == "+=" or name == "append" and len(args) == 1:
                    new = grow(old, self.pieces(ex, fr, st, args[0], T[0]))
                elif name == "push_back":
                    new = grow(old, self.pieces(ex, fr, st, args[0], "char"))
                elif name == "append" and len(args) == 2 and "char" == bare(T[1]):
                    new = grow(old, self.pieces(ex, fr, st, args[1], T[1]))
                elif name == "clear":
                    new = ()
                elif name in ("append", "insert", "replace", "assign", "resize"):
                    new = old + (('x', None),)
                elif name in ("operator[]", "at", "back", "front") or op == "[]":
                    return ('val', ('L', ('e', loc, ex.sym(st, fr, node_id(fr, node)))))
                if new is not None:
                    ex.write(fr, st, dict(node, _id=node.get("_id", -1)), loc, ('txt', new))
                    return ('val', ('L', loc))
            if "stream" in R or "stream" in cn:
                if name == "str" and not args:
                    return ('val', ('txt', st.r.get(('SS', loc), ())))
                if name == "str" and len(args) == 1:
                    st.r[('SS', loc)] = self.pieces(ex, fr, st, args[0], T[0])
                if name == "open" and args:
                    st.r[('FILE', loc)] = self.name(ex, fr, st, args[0])
                    st.r[('SS', loc)] = ()
                if name in ("write", "put") and args:
                    st.r[('SS', loc)] = grow(st.r.get(('SS', loc), ()), self.pieces(ex, fr, st, args[0], T[0]))
        if op == "<<" and len(args) + (recv is not None) == 2:
            s = recv if recv is not None else args[0]
            s = s[1] if s is not None and s[0] in ('addr', 'L') else None
            a, t = (args[-1], T[-1])
            if s is not None and "(" not in t:          # not a manipulator
                st.r[('SS', s)] = grow(st.r.get(('SS', s), ()), self.pieces(ex, fr, st, a, t))
            return ('val', ('L', s)) if s is not None else None
        return None

    def on_ctor(self, ex, fr, st, node, args):
        cn = node.get("cn") or ""
        if cn.startswith("std::basic_string") or cn == "std::string":
            T = [self.typ(fr, i) if i is not None else "" for i in node.get("args") or []]
            real = [(a, t) for a, t in zip(args, T) if a is not None and not bare(t).startswith("std::allocator")]
            if not real:
                return ('txt', ())
            if len(real) == 1:
                return ('txt', self.pieces(ex, fr, st, real[0][0], real[0][1]))
            if len(real) == 2 and bare(real[1][1]).replace("const ", "").rstrip("& ") in ("char", "value_type"):
                return ('txt', self.pieces(ex, fr, st, real[1][0], "char"))
            return ('txt', (('x', None),))
        if cn.startswith("std::vector") and not [a for a in args or () if a is not None]:
            st.r[('VEC', ('tmp', fr.id, node_id(fr, node)))] = ()
        if cn.startswith(("std::basic_ofstream", "std::basic_fstream")) and args:
            st.r[('FILE', ('tmp', fr.id, node_id(fr, node)))] = self.name(ex, fr, st, args[0])
        return None

    def on_adopt(self, st, old, new):
        for k in [k for k in st.r if k[1] == old]:
            st.r[(k[0], new)] = st.r.pop(k)

    def name(self, ex, fr, st, v):
        v = ex.load(fr, st, v[1]) if v is not None and v[0] == 'L' else v
        return self.pieces(ex, fr, st, v)

    def sink(self, ex, fr, st, node, v, how):
        if self.quoting:
            return
        ps = self.pieces(ex, fr, st, v)
        self.ctx.count("commands followed")
        text, bad = "", None
        for p in ps:
            if p[0] == 't':
                text += p[1]
            elif p[0] == 'q':
                if text.count("'") % 2 or text.count('"') % 2:
                    bad = (('x', None), "puts a quoted name inside quotes in")
            elif p[0] in ('x', 'ch'):
                bad = (p, "puts a string that was not quoted into")
        if bad is None:
            return
        p, what = bad
        o = p[1] if p[0] == 'x' else None
        while o is not None and isinstance(o, tuple) and o and o[0] in ('i', 'd', 'op', 'e', 'addr', 'L'):
            o = o[1] if o[0] != 'op' else o[2]
        if self.found is not None:
            if o is not None and isinstance(o, tuple) and o[0] == 'v' and o[1] == 0 and o[2] in self.pars:
                self.found.add(self.pars[o[2]])
            return
        if o is not None and isinstance(o, tuple) and o[0] == 'v' and o[1] == 0 and o[2] in self.pars and self.root in self.sinks:
            if self.prog.is_helper(self.root):
                return                      # its callers answer for it
        self.ctx.violation("%s: unquoted command" % fr.fn["qn"], fr.where(node),
                           "%s a command that %s the text a shell will read" % (how, what), fr.chain())

    # -- quoting operations
    def on_assume(self, ex, fr, st, v, truth):
        if not self.quoting:
            return
        op, a, b = None, None, None
        if v[0] == 'eq':
            a, b, same = v[1], v[2], truth
        elif v[0] == 'op' and v[1] in ("==", "!="):
            a, b, same = v[2], v[3], truth == (v[1] == "==")
        else:
            return
        for x, y in ((a, b), (b, a)):
            if y == ('c', 39) and x[0] != 'c' and not same:
                st.r[('ch', x)] = 1

    def on_exit(self, ex, fr, st, value):
        if fr.depth == 0 and self.quoting:
            self.result.append(self.pieces(ex, fr, st, value))


class Quiet:
    def count(self, *a): pass

    def violation(self, *a): pass


def quoters(prog):
    """{function: which argument it quotes}"""
    out = {}
    for k, f in prog.F.items():
        if f.get("ctor") or f.get("dtor") or f.get("lambda") or not is_string(bare(f["types"][f["ret"]])):
            continue
        ps = [i for i, p in enumerate(f["params"]) if stringy(f["types"][p["t"]])]
        lits = [str(n.get("v")) for n in f["nodes"] if n and n["k"] == "lit"]
        if len(ps) != 1 or len(f["nodes"]) > 300 or not any(e in x for x in lits for e in ESCAPES):
            continue
        r = Text(prog, Quiet(), k, {}, {}, quoting=True)
        Exec(prog, r).start(k)
        out[k] = ps[0] if proves(r.result) else None
    return out


def proves(results):
    if not results:
        return False
    for ps in results:
        if len(ps) < 2 or not ps[0][0] == ps[-1][0] == 't' or not ps[0][1].startswith(QUOTE) or not ps[-1][1].endswith(QUOTE):
            return False
        for p in ps[1:-1]:
            if p == ('ch', True) or p[0] == 't' and p[1] in ESCAPES:
                continue
            return False
        if (ps[0][1], ps[-1][1]) != (QUOTE, QUOTE):
            return False
    return True


def run(ctx):
    prog = ctx.prog()
    qs = quoters(prog)
    for k, i in sorted(qs.items()):
        f = prog.F[k]
        if i is None:
            ctx.sample("not recognised as quoting: " + f["qn"])
        else:
            ctx.count("quoting operations recognised")
            ctx.sample("quotes: %s at %s" % (f["qn"], f["file"]))
    good = {k: i for k, i in qs.items() if i is not None}

    def direct(f):
        return any(n and n["k"] == "call" and (cfn(n) in RUN or cfn(n) in ("chmod", "fchmod") or cfn(n).startswith(("exec", "posix_spawn")))
                   for n in f["nodes"])
    hot = {k for k, f in prog.F.items() if direct(f)}
    # a helper that runs what it is given
    sinks = {}
    todo = sorted(hot)
    callers = prog.callers()
    for r in range(4):
        nxt = set()
        for k in todo:
            got = set()
            Exec(prog, Text(prog, Quiet(), k, good, {x: v for x, v in sinks.items() if x != k}, found=got)).start(k)
            if got != sinks.get(k, set()):
                if prog.is_helper(k):
                    sinks[k] = got
                    nxt |= set(callers.get(k, ()))
        hot |= nxt
        todo = sorted(nxt)
        if not todo:
            break
    # helpers reached only through inlining are followed in their callers too
    for k in list(hot):
        if prog.is_helper(k):
            hot |= set(callers.get(k, ()))
    for k in sorted(hot):
        ex = Exec(prog, Text(prog, ctx, k, good, {x: v for x, v in sinks.items() if v}))
        ex.start(k)
        ctx.count("functions followed")
        ctx.explored(ex)
    ctx.floor("commands followed", 5)
