"""A clone is a complete copy.  For every clone operation, on every path that answers an object made there, each field
of the class and its bases that carries configuration (set by a factory, a setter or from a constructor argument, and
not by the life-cycle steps) holds on the new object what it holds on the original: the same value, something made
from it, or the constant every object gets.  Constructors and helpers are followed."""
from ..common import *
from ..locks import bare

ASSUMPTIONS = ["a value computed from a field of the original stands for that field",
               "a step called on the clone (start) keeps its configuration"]
LIFE = {"start_", "end_", "transaction_", "ready_", "commit_", "abort_", "start", "end", "transaction", "ready",
        "commit", "abort"}
THIS = ('d', ('this',))


def clones(prog):
    for k, f in prog.F.items():
        if f.get("cls") and f["name"].rstrip("_").startswith("clone") and not prog.is_static(k) and not f.get("lambda") \
                and not f["file"].startswith(("apps/", "test/")):
            t = bare(f["types"][f["ret"]])
            if is_smart(t) and any(c in t for c in prog.superclasses(f["cls"])):
                yield k


def on_this(f, n):
    b = n.get("b")
    b = f["nodes"][b] if b is not None else None
    while b and b["k"] in ("cast", "un", "paren") and b.get("e") is not None:
        b = f["nodes"][b["e"]]
    return b is None or b["k"] == "this"


class Fields:
    """What each field of a class is for."""

    def __init__(self, prog, cls):
        self.prog, self.cls = prog, cls
        self.sup = set(prog.superclasses(cls))
        self.fields = {}
        for x in prog.all_fields(cls):
            self.fields[x["f"]] = x
        self.life, self.cfg, self.consts, self.const_only, self.filled = set(), {}, {}, {}, set()
        self.lifecycle()
        self.writers()

    def lifecycle(self):
        prog = self.prog
        mine = {k for k, f in prog.F.items() if f.get("cls") in self.sup and not f.get("ctor") and not f.get("dtor")}
        over = {k for k in mine if short(prog.F[k]["qn"]) in LIFE}
        todo, seen = list(over), set(over)
        while todo:
            for c in prog.callees(todo.pop()):
                f = prog.F.get(c)
                if c in mine and c not in seen and not prog.is_static(c) and not f["name"].startswith("clone"):
                    seen.add(c)
                    todo.append(c)
        self.lifefns = seen
        for k in seen:
            f = prog.F[k]
            for n in f["nodes"]:
                if n and n["k"] == "mem" and n["f"] in self.fields and n.get("acc") in ("W", "RW") and on_this(f, n):
                    self.life.add(n["f"])

    def constant(self, f, i):
        n = f["nodes"][i] if i is not None else None
        while n and n["k"] in ("cast", "ctor", "paren"):
            if n["k"] == "ctor":
                a = [x for x in n["args"] if x is not None and not (f["nodes"][x]["k"] == "ctor" and
                                                                    "allocator" in f["nodes"][x].get("cn", ""))]
                if len(a) > 1:
                    return None
                if not a:
                    return ('c', 'empty')
                n = f["nodes"][a[0]]
            else:
                n = f["nodes"][n["e"]] if n.get("e") is not None else None
        if n and n["k"] == "lit":
            return ('c', str(n.get("v")))
        return None

    def writers(self):
        prog = self.prog
        clone = set(clones(prog))
        for k, f in prog.F.items():
            inside = f.get("cls") in self.sup
            if k in clone or k in self.lifefns or self.only_clone(k, clone):
                continue
            params = {p["d"] for p in f["params"]}
            for n in f["nodes"]:
                if not n:
                    continue
                lhs, rhs = self.assignment(n)
                m = f["nodes"][lhs] if lhs is not None else None
                if not m or m["k"] != "mem" or m["f"] not in self.fields:
                    continue
                c = self.constant(f, rhs)
                mine = on_this(f, m)
                if f.get("ctor"):
                    continue
                if not mine:                        # a factory filling in an object
                    if f.get("cls") and f["cls"] not in self.sup:
                        continue
                    if c is None:
                        self.cfg.setdefault(m["f"], f["qn"])
                        self.filled.add(m["f"])
                    else:
                        self.consts.setdefault(m["f"], set()).add(c)
                elif inside and self.from_param(f, rhs, params):
                    self.cfg.setdefault(m["f"], f["qn"])
                elif inside:
                    self.const_only[m["f"]] = False
        for k, f in prog.F.items():
            if f.get("ctor") and f.get("cls") in self.sup:
                params = {p["d"] for p in f["params"]}
                for b in f["blocks"]:
                    for e in b["e"]:
                        if isinstance(e, dict) and "init" in e and e["init"] in self.fields and e.get("e") is not None \
                                and self.from_param(f, e["e"], params):
                            self.cfg.setdefault(e["init"], f["qn"])
                for n in f["nodes"]:
                    if n and n["k"] == "mem" and n["f"] in self.fields and n.get("acc") == "W" and params:
                        self.cfg.setdefault(n["f"], f["qn"]) if self.assigned_param(f, n, params) else None
        self.own_const = set()
        for k, f in prog.F.items():
            if f.get("ctor") and f.get("cls") == self.cls:
                for n in f["nodes"]:
                    if n and n["k"] == "mem" and n["f"] in self.fields and n.get("acc") == "W" and on_this(f, n):
                        self.own_const.add(n["f"])
        for x, cs in self.consts.items():
            if x not in self.cfg and self.const_only.get(x, True):
                self.cfg[x] = "a factory"
        made = self.loaded()
        for x in self.life - self.filled - set(made):
            self.cfg.pop(x, None)
        for x, q in made.items():
            self.cfg.setdefault(x, q)
        self.life -= self.filled | set(made)
        for x in self.fixed():
            self.cfg.pop(x, None)

    def loaded(self):
        """fields set by a member a factory calls on the object it makes"""
        prog, out = self.prog, {}
        for k, f in prog.F.items():
            if not prog.is_static(k) or f.get("cls") not in self.sup or f["name"].startswith("clone"):
                continue
            for n in f["nodes"]:
                if not n or n["k"] != "call" or n.get("recv") is None:
                    continue
                for c in prog.targets(f, n):
                    g = prog.F.get(c)
                    if not g or g.get("cls") not in self.sup or prog.is_static(c) or short(g["qn"]) in LIFE \
                            or g["name"].startswith("clone"):
                        continue
                    for i, m in enumerate(g["nodes"]):
                        if not m:
                            continue
                        lhs, rhs = self.assignment(m)
                        t = g["nodes"][lhs] if lhs is not None else None
                        if t and t["k"] == "mem" and t["f"] in self.fields and on_this(g, t) and self.constant(g, rhs) is None:
                            out.setdefault(t["f"], g["qn"])
        return out

    @staticmethod
    def assignment(n):
        if n["k"] == "bin" and n.get("op") == "=":
            return n["a"], n["b"]
        if n["k"] == "call" and (n.get("op") == "=" or short(n.get("cn")) == "reset") and n.get("recv") is not None and n["args"]:
            return n["recv"], n["args"][0]
        return None, None

    def flows(self, f, d, depth=5):
        """fields a constructor's argument initialises, here or in a base"""
        out = set()
        for b in f["blocks"]:
            for e in b["e"]:
                if not isinstance(e, dict) or e.get("e") is None:
                    continue
                if "init" in e and self.from_param(f, e["e"], {d}):
                    out.add(e["init"])
                c = f["nodes"][e["e"]]
                if "initbase" in e and c and c["k"] == "ctor" and depth:
                    base = self.prog.F.get(c.get("c"))
                    for p, a in zip(base["params"], c["args"]) if base else ():
                        if a is not None and self.from_param(f, a, {d}):
                            out |= self.flows(base, p["d"], depth - 1)
        return out

    def fixed(self):
        """fields the class's own constructors always give the same constant"""
        prog, res = self.prog, None
        for k, f in prog.F.items():
            if not (f.get("ctor") and f.get("cls") == self.cls) or f.get("copyctor"):
                continue
            mine = set()
            for b in f["blocks"]:
                for e in b["e"]:
                    if not (isinstance(e, dict) and "initbase" in e and e.get("e") is not None):
                        continue
                    c = f["nodes"][e["e"]]
                    base = prog.F.get(c.get("c")) if c and c["k"] == "ctor" else None
                    if not base:
                        continue
                    for p, a in zip(base["params"], c["args"]):
                        if a is not None and self.constant(f, a):
                            mine |= self.flows(base, p["d"])
            res = mine if res is None else res & mine
        return res or set()

    def assigned_param(self, f, m, params):
        for n in f["nodes"]:
            if n and n["k"] == "bin" and n.get("op") == "=" and f["nodes"][n["a"]] is m:
                return self.from_param(f, n["b"], params)
            if n and n["k"] == "call" and n.get("op") == "=" and n.get("recv") is not None and f["nodes"][n["recv"]] is m:
                return bool(n["args"]) and self.from_param(f, n["args"][0], params)
        return False

    def only_clone(self, k, clone, depth=4):
        if k in clone:
            return True
        cs = self.prog.callers().get(k, ())
        return depth > 0 and bool(cs) and self.prog.is_helper(k) and all(self.only_clone(c, clone, depth - 1) for c in cs)

    def from_param(self, f, i, params):
        seen, todo = set(), [i]
        hit = False
        while todo:
            j = todo.pop()
            if j is None or j in seen:
                continue
            seen.add(j)
            n = f["nodes"][j]
            if not n:
                continue
            if n["k"] == "ref" and n.get("d") in params:
                hit = True
            if n["k"] == "mem":
                return False
            for key in ("e", "a", "b", "c", "recv"):
                if isinstance(n.get(key), int) and not (n["k"] == "call" and key == "c"):
                    todo.append(n[key])
            todo.extend(x for x in n.get("args", ()) or ())
        return hit


class Copy(Rule):
    max_depth = 6
    widen_at = 8
    max_entries = 4
    max_states = 40000
    collapse = False
    asserts = "assume"

    def __init__(self, prog, ctx, root):
        super().__init__(prog)
        self.ctx, self.root = ctx, root
        self.cls = prog.F[root]["cls"]
        self.info = Fields(prog, self.cls)

    def inline(self, fr, node, key):
        f = self.prog.F[key]
        if f.get("lambda"):
            return True
        if short(f["qn"]) in LIFE or f["name"].startswith("clone") or len(f["nodes"]) > 400:
            return False
        if f.get("ctor"):
            return f.get("cls") in self.info.sup
        if self.prog.is_helper(key):
            return len(f["nodes"]) < 250
        return f.get("cls") in self.info.sup and not f.get("virtual") and key != self.root and self.fills(key)

    def fills(self, key, depth=3):
        """makes or fills an object of the class"""
        f = self.prog.F[key]
        for n in f["nodes"]:
            if n and n["k"] in ("new",):
                return True
            if n and n["k"] == "call" and short(n.get("cn")) == "make_shared":
                return True
            if n and n["k"] == "mem" and n["f"] in self.info.fields and n.get("acc") in ("W", "RW", "CALLM", "REF"):
                return True
        return depth > 0 and any(c in self.prog.F and self.prog.F[c].get("cls") in self.info.sup and self.fills(c, depth - 1)
                                 for c in self.prog.callees(key) if c != key)

    def keep_value(self, st, loc, v):
        return True

    def keep_cons(self, st, key):
        return True

    # -- where values come from
    def sources(self, st, v, seen=None):
        out = set()
        if not isinstance(v, tuple) or not v:
            return out
        if v[0] == 'f' and len(v) == 3:
            if v[1] == THIS:
                out.add(v[2])
                return out
        if v[0] == 's':
            out |= st.r.get(('D', v), frozenset())
        if v[0] in ('v', 'tmp', 'f', 'd', 'e') and v in st.env and st.env[v] != v:
            s = seen or set()
            if v not in s:
                s.add(v)
                out |= self.sources(st, st.env[v], s)
        for x in v[1:]:
            if isinstance(x, tuple):
                out |= self.sources(st, x, seen)
        for k, fs in st.r.items():
            if k[0] == 'M' and k[1] == v:
                out |= fs
        return out

    def mine(self, st, loc):
        """(object, field) when loc is a field of a new object"""
        if loc and loc[0] == 'f' and loc[1] != THIS and loc[2] in self.info.fields:
            return loc
        return None

    def on_write(self, ex, fr, st, node, loc, value):
        if self.mine(st, loc):
            st.r[('W', loc)] = value
            if not fr.fn.get("ctor"):
                st.r[('SAID', loc)] = 1
                self.said(fr, st, node, loc)
            self.ctx.count("fields set on a clone")

    def said(self, fr, st, node, loc):
        """written with something worked out, whatever it is on this path"""
        rhs = self.info.assignment(node)[1]
        if rhs is not None and self.info.constant(fr.fn, rhs) is None:
            st.r[('EXPR', loc)] = 1
        else:
            st.r.pop(('EXPR', loc), None)

    def on_adopt(self, st, old, new):
        ex = Exec(self.prog, self)
        for k in [k for k in st.r if k[0] in ('W', 'M', 'D') and ex.subst(k[1], old, new) != k[1]]:
            st.r[(k[0], ex.subst(k[1], old, new))] = st.r.pop(k)

    def on_new(self, ex, fr, st, node, v):
        t = fr.prep.type(node)
        st.r[('CLS', v)] = bare(t)

    def on_ctor(self, ex, fr, st, node, args):
        return None

    def on_call(self, ex, fr, st, node, targets, recv, args):
        cn = node.get("cn") or ""
        nid = next(i for i, n in enumerate(fr.prep.nodes) if n is node) if "_id" not in node else node["_id"]
        if short(cn) in ("make_shared", "make_unique") and cn.startswith("std::"):
            t = bare(fr.prep.type(node))
            made = [c for c in self.info.sup if "<%s>" % c in t]
            v = ('new', fr.id, nid)
            st.r[('CLS', v)] = t
            if made:
                ct = [m["key"] for m in self.prog.R[made[0]]["methods"] if m.get("ctor") and m["key"] in self.prog.F and
                      len(self.prog.F[m["key"]]["params"]) == len(args)]
                if ct:
                    ex.refresh_new(st, v)
                    outs = ex.invoke(fr, st, nid, node, ct[0], args, v)
                    return ('fork', [(s, v) for s, _ in outs])
            return None
        if targets and any(self.inline(fr, node, k) for k in targets):
            return None
        rl = None
        if recv is not None:
            rl = recv[1] if recv[0] == 'addr' else None
        src = set()
        for x in args:
            if x is not None:
                src |= self.sources(st, x)
        f = rl and self.mine(st, rl)
        if f and node.get("op") == "=" and args:
            v = ex.load(fr, st, args[0][1]) if args[0][0] == 'L' else args[0]
            st.env[rl] = v
            st.r[('W', rl)] = v
            if not fr.fn.get("ctor"):
                st.r[('SAID', rl)] = 1
                self.said(fr, st, node, rl)
            self.ctx.count("fields set on a clone")
            return ('val', v)
        if cn.startswith("std::") and not (rl and short(cn) in MUTATORS):
            plain = is_smart(fr.prep.type(fr.prep.nodes[node["recv"]])) if node.get("recv") is not None else \
                short(cn) in ("move", "forward", "swap", "static_pointer_cast", "const_pointer_cast", "dynamic_pointer_cast") \
                or node.get("op") in ("==", "!=")
            if plain:
                return None
        if f:
            st.r[('M', f)] = st.r.get(('M', f), frozenset()) | frozenset(src)
        elif rl and src and short(cn) in MUTATORS:
            st.r[('M', rl)] = st.r.get(('M', rl), frozenset()) | frozenset(src)
        for x in args:                          # out-arguments
            if x is not None and x[0] in ('addr', 'L') and x[1][0] in ('v', 'f') and x[1] != THIS:
                pm = (node.get("pm") or [])
                i = [j for j, y in enumerate(args) if y is x][0]
                m = pm[i] if i < len(pm) else "R"
                if x[0] == 'addr' or m == "REF":
                    o = src | (self.sources(st, recv) if recv is not None else set())
                    if self.mine(st, x[1]):
                        st.r[('M', x[1])] = st.r.get(('M', x[1]), frozenset()) | frozenset(o)
                    elif x[1][0] == 'v':
                        s = ex.sym(st, fr, nid, ('o', i))
                        st.r[('D', s)] = frozenset(o)
                        st.env[x[1]] = s
        if recv is not None:
            src |= self.sources(st, recv)
        s = ex.sym(st, fr, nid)
        if src:
            st.r[('D', s)] = frozenset(src)
        return ('val', s)

    def on_assume(self, ex, fr, st, v, truth):
        src = self.sources(st, v)
        if v[0] != 'i':
            for x in src:
                st.r[('ASK', x)] = 1

    # -- the verdict
    def on_exit(self, ex, fr, st, value):
        if fr.depth:
            return
        t = ex.truth(st, value)
        if t is False or value[0] == 'void':
            self.ctx.count("refusals")
            return
        q = fr.fn["qn"]
        if value[0] != 'new':
            if value == ('this',) or self.sources(st, value) and not self.made_elsewhere(st, value):
                self.ctx.violation("%s: not an object of its own class" % q, fr.where(),
                                   "answers something other than a new object of the class it clones: %s" % desc(value), [])
            else:
                self.ctx.count("clones made by a factory")
            return
        cls = st.r.get(('CLS', value), "")
        if short(self.cls) not in cls:
            self.ctx.violation("%s: not an object of its own class" % q, fr.where(),
                               "answers a new %s" % cls, [])
            return
        self.ctx.count("complete clones checked")
        for f, x in sorted(self.info.fields.items()):
            why = self.info.cfg.get(f)
            if x.get("static"):
                continue
            loc = ('f', ('d', value), f)
            self.field(ex, fr, st, q, f, x, why, loc)

    def made_elsewhere(self, st, v):
        return False

    def field(self, ex, fr, st, q, f, x, why, loc):
        t = bare(x["t"]) if isinstance(x["t"], str) else ""
        writer = any(short(c) in ("Annotator", "Appender") for c in self.prog.R if "<%s>" % c in t and short(c) in ("Annotator", "Appender"))
        v = st.r.get(('W', loc), st.env.get(loc))
        m = st.r.get(('M', loc))
        if f in self.info.life:
            return
        if writer:
            if why and (v is None or v == NULL or ex.truth(st, v) is False) and not self.absent(ex, st, f):
                self.bad(q, fr, f, "is left null on the clone")
            return
        if not why:
            return
        self.ctx.count("fields compared")
        if v is None and m is None:
            if not self.absent(ex, st, f):
                self.bad(q, fr, f, "is not carried to the clone (set by %s)" % why)
            return
        if ('EXPR', loc) in st.r and v is not None and (v[0] == 'c' or x.get("scalar") and v[0] != 'i'):
            return
        if "unique_ptr" in t or m is not None:
            if v == NULL:
                self.bad(q, fr, f, "is left null on the clone")
            return
        src = self.sources(st, v)
        if f in src:
            return
        if v[0] == 'i' and v[1][0] == 'f' and v[1][1] == THIS:
            self.bad(q, fr, f, "gets the value of another field, %s" % short(v[1][2]))
            return
        if src:
            return
        if v[0] in ('str', 'c') and v != NULL and f in self.info.own_const:
            return                              # every object of the class has it
        if ('SAID', loc) in st.r and (why == "a factory" or v[0] == 'str' and v[1]):
            return                              # reset in so many words
        if self.absent(ex, st, f):
            return
        self.bad(q, fr, f, "does not get its value from the original (it gets %s; set by %s)" % (desc(v), why))

    def absent(self, ex, st, f):
        """the original is known not to have one"""
        return ex.truth(st, ('i', ('f', THIS, f))) is False or \
            ('ASK', f) in st.r and not is_smart(bare(self.info.fields[f]["t"]))

    def bad(self, q, fr, f, what):
        self.ctx.violation("%s: %s" % (q, short(f)), fr.where(), "%s %s" % (f, what), [])


def run(ctx):
    prog = ctx.prog()
    roots = sorted(set(clones(prog)))

    def follow(c, k):
        rule = Copy(prog, c, k)
        ex = Exec(prog, rule)
        ex.start(k)
        c.count("clone operations")
        c.sample("%s: configuration %s" % (prog.F[k]["qn"], ", ".join(sorted(short(x) for x in rule.info.cfg))))
        c.explored(ex)
    ctx.pmap(follow, roots)
    ctx.floor("clone operations", 5)
    ctx.floor("complete clones checked", 4)
    ctx.floor("fields compared", 20)
