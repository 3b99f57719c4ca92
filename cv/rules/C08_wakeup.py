"""Completion of waits.  The state every wait depends on is found from the wait calls themselves (the predicate of a
condition variable, the atomic of an atomic wait).  Every function that can make such a predicate true is followed on
every path: the change must be made under the waiter's mutex and followed by a wake-up of everyone who waits before
the operation ends.  Every object created with a closed gate and then shared (stored, cached, handed out) carries an
obligation that is followed along all paths, into the thread that is started to discharge it: each way out must have
opened the gate.  Results behind a gate are used only after waiting for it and are not changed once it is open."""
from ..common import *
from ..engine import _children
from ..locks import *
from .C01_publish import node_id

ASSUMPTIONS = ["a started thread eventually runs; starting a thread does not itself fail",
               "library calls return; memory allocation failure ends the process"]

CV = ("std::condition_variable", "std::condition_variable_any")
INSERTERS = {"push_back", "emplace_back", "insert", "emplace", "try_emplace", "insert_or_assign", "push", "operator="}


def on_cv(n, f):
    cn = n.get("cn") or ""
    return cn.rsplit("::", 1)[0] in CV


def is_atomic_wait(n):
    cn = n.get("cn") or ""
    return cn.startswith("std::") and "atomic" in cn and short(cn) == "wait"


def strip(nodes, i):
    n = nodes[i] if i is not None else None
    while n and n["k"] == "cast":
        n = nodes[n["e"]]
    return n


class Waits:
    """field waited on -> dict(cv field or None, consuming)"""

    def __init__(self, prog):
        self.prog, self.pred, self.sites = prog, {}, []
        for k, f in prog.F.items():
            nodes = f["nodes"]
            for i, n in enumerate(nodes):
                if not n or n["k"] != "call":
                    continue
                if is_atomic_wait(n):
                    r = strip(nodes, n["recv"])
                    if r and r["k"] == "mem":
                        self.pred.setdefault(r["f"], {"cv": r["f"], "consume": False, "atomic": True})
                        self.sites.append((k, i, r["f"], True))
                elif on_cv(n, f) and short(n["cn"]) in ("wait", "wait_for", "wait_until"):
                    r = strip(nodes, n["recv"])
                    cv = r["f"] if r and r["k"] == "mem" else r["d"] if r and r["k"] == "ref" else "?"
                    lam = [nodes[a] for a in n["args"] if a is not None]
                    lam = [self.lambda_of(nodes, a) for a in n["args"] if a is not None]
                    lam = [x for x in lam if x]
                    self.sites.append((k, i, cv, bool(lam)))
                    host = [prog.F[x] for x in lam if x in prog.F]
                    fields = set()
                    for h in host or [f]:
                        for m in h["nodes"]:
                            if m and m["k"] == "mem" and "mutex" not in self.ftype(h, m) and \
                                    "condition_variable" not in self.ftype(h, m):
                                fields.add(m["f"])
                            elif m and m["k"] == "ref" and m.get("dk") in ("local", "param") and host and \
                                    "mutex" not in h["types"][m["t"]]:
                                fields.add(m["d"])
                    for x in fields:
                        consume = any(m and m["k"] == "mem" and m["f"] == x and m.get("acc") in ("W", "RW")
                                      for m in nodes)
                        self.pred[x] = {"cv": cv, "consume": consume, "atomic": False}

    def ftype(self, f, m):
        return f["types"][m["t"]] if "t" in m else ""

    def lambda_of(self, nodes, a):
        todo = [a]
        while todo:
            n = nodes[todo.pop()]
            if not n:
                continue
            if n["k"] == "lambda":
                return n["fn"]
            if n["k"] in ("cast", "ctor"):
                todo.extend(_children(n))
        return None


def in_cycle(f, nid):
    blocks = {b["id"]: b for b in f["blocks"]}
    home = None
    for b in blocks.values():
        if nid in [e for e in b["e"] if isinstance(e, int)]:
            home = b["id"]
    if home is None:
        return False
    seen, todo = set(), [s for s in blocks[home]["s"] if s is not None]
    while todo:
        x = todo.pop()
        if x == home:
            return True
        if x in seen or x not in blocks:
            continue
        seen.add(x)
        todo.extend(s for s in blocks[x]["s"] if s is not None)
    return False


class Notify(LockRule):
    """From a change that can satisfy a wait to the wake-up."""
    max_depth = 5

    def __init__(self, prog, ctx, waits, hot):
        super().__init__(prog)
        self.ctx, self.w, self.hot = ctx, waits, hot

    def inline(self, fr, node, key):
        return key in self.hot and (self.prog.is_helper(key) or self.prog.F[key].get("file", "").endswith(".h"))

    def enabling(self, fr, node, value):
        """Can the write make the predicate true?"""
        p = fr.prep
        nid = node_id(fr, node)
        par = p.nodes[p.parent[nid]] if nid in p.parent else None
        if par and par["k"] == "un" and par["op"] in ("--", "post--", "pre--"):
            return False
        if par and par["k"] == "bin" and par["op"] == "-=":
            return False
        return value not in (NULL, ('c', False), ('c', 0))

    def changed(self, ex, fr, st, node, base, field):
        w = self.w.pred[field]
        self.ctx.count("changes that can satisfy a wait")
        st.r[('N', canon(base), w["cv"])] = (field, fr.where(node))
        st.r[('O', canon(base), field)] = 1
        if not w["atomic"] and not any(p[0] == 'f' and p[1] == canon(base) for p in self.held(st)) and \
                not self.ctor_of(fr):
            self.ctx.violation("%s: %s outside the mutex" % (fr.fn["qn"], pretty(field)), fr.where(node),
                               "changes %s, which a wait depends on, without holding the waiter's mutex: the wake-up "
                               "can be lost" % pretty(field), fr.chain())

    def ctor_of(self, fr, base=('d', ('this',))):
        f = self.prog.F[self.root]
        return (f.get("ctor") or f.get("dtor")) and base == ('d', ('this',))

    def on_dtor(self, ex, fr, st, elem, loc, type):
        super().on_dtor(ex, fr, st, elem, loc, type)
        r = self.prog.R.get(bare(type))
        for m in (r or {}).get("methods", ()):
            k = m["key"]
            if m["n"].startswith("~") and k in self.hot and k not in fr.stack and k in self.prog.F:
                outs = ex.invoke(fr, st.copy(), elem.get("i", -1), {"l": elem.get("l", fr.fn["line"]), "k": "dtor"}, k, [],
                                 ('addr', loc), None)
                if outs:
                    for x in [x for x in st.r if x[0] in 'CN']:
                        if not any(x in s.r for s, _ in outs):
                            st.r.pop(x)
                    for s, _ in outs:
                        st.r.update({x: y for x, y in s.r.items() if x[0] in 'NO'})

    def on_write(self, ex, fr, st, node, loc, value):
        if loc[0] == 'f' and loc[2] in self.w.pred and not self.w.pred[loc[2]]["atomic"] and not self.ctor_of(fr):
            key = ('C', canon(loc[1]), loc[2])
            if self.enabling_value(fr, node, value):
                st.r.pop(key, None)
                self.changed(ex, fr, st, node, loc[1], loc[2])
            elif self.w.pred[loc[2]]["consume"]:
                st.r[key] = fr.where(node)

    def enabling_value(self, fr, node, value):
        if node["k"] == "un" and "--" in node.get("op", ""):
            return False
        if node["k"] == "bin" and node.get("op") == "-=":
            return False
        if value and value[0] == 'op' and value[1] == '-':
            return False
        return value not in (NULL, ('c', False))

    def on_call(self, ex, fr, st, node, targets, recv, args):
        r = self.lock_call(ex, fr, st, node, recv, args)
        if r is not None:
            return r
        cn = node.get("cn") or ""
        name = short(cn)
        if not cn.startswith("std::") or recv is None or recv[0] != 'addr' or recv[1][0] != 'f':
            return None
        base, field = recv[1][1], recv[1][2]
        w = self.w.pred.get(field)
        if name in ("notify_all", "notify_one"):
            self.ctx.count("wake-ups seen")
            cv = field
            for f, x in self.w.pred.items():
                if x["cv"] == cv and name == "notify_one" and not x["consume"]:
                    self.ctx.violation("%s: wakes only one waiter of %s" % (fr.fn["qn"], pretty(f)), fr.where(node),
                                       "wakes one of the threads that wait for %s, although the change releases all "
                                       "of them" % pretty(f), fr.chain())
            st.r.pop(('N', canon(base), cv), None)
            return None
        if w is None or not w["atomic"] or self.ctor_of(fr):
            return None

        def val(i):
            x = args[i] if i < len(args) else None
            return ex.load(fr, st, x[1]) if x is not None and x[0] == 'L' else x
        if name in ("store", "exchange", "operator="):
            if val(0) != NULL:
                self.changed(ex, fr, st, node, base, field)
            return None
        if name.startswith("compare_exchange") and val(1) != NULL:
            s2 = st.copy()
            self.changed(ex, fr, st, node, base, field)
            outs = [(st, TRUE)]
            if "strong" in name and val(0) == NULL:
                s2.r[('O', canon(base), field)] = 1     # it was already open
            outs.append((s2, NULL))
            return ('fork', outs)
        return None

    def on_assume(self, ex, fr, st, v, truth):
        if truth and v and v[0] == 'i' and v[1][0] == 'f' and v[1][2] in self.w.pred:
            st.r[('O', canon(v[1][1]), v[1][2])] = 1

    def on_exit(self, ex, fr, st, value):
        if fr.depth or self.ctor_of(fr):
            return
        for k in [k for k in st.r if k[0] == 'C']:
            if not self.prog.is_helper(self.root):
                self.ctx.violation("%s: keeps %s" % (fr.fn["qn"], pretty(k[2])), st.r[k],
                                   "ends on some path without giving back what it took from %s here: later waits for it "
                                   "never end" % pretty(k[2]), fr.chain())
        for k in [k for k in st.r if k[0] == 'N']:
            field, where = st.r[k]
            self.ctx.violation("%s: no wake-up for %s" % (fr.fn["qn"], pretty(field)), where,
                               "ends on some path without waking the threads that wait for %s after changing it here"
                               % pretty(field), fr.chain())
        for f, w in self.w.pred.items():
            if w["atomic"] and fr.key in self.setters.get(f, ()) and ('O', ('d', ('this',)), f) not in st.r:
                self.ctx.violation("%s: may leave %s closed" % (fr.fn["qn"], pretty(f)), "%s:%s (%s)" % (
                    fr.fn["file"], fr.fn["line"], fr.fn["qn"]),
                    "ends on some path without having opened %s or seen it open" % pretty(f), fr.chain())


# -- obligations to fill --------------------------------------------------------------
def gated_records(prog, gates):
    """records that own a gate: record -> gate field"""
    out = {}
    for q, r in prog.R.items():
        for f in r["fields"]:
            if bare(f["t"]) in gates:
                out[q] = f["q"] if "q" in f else f.get("f") or q + "::" + f["n"]
    return out


def points_to(t, recs):
    """the gated record a type is or points at"""
    t = bare(t)
    for q in recs:
        if t == q or t in (q + " *", q + "*") or t.startswith(("std::shared_ptr<" + q + ">", "std::unique_ptr<" + q,
                                                             "std::shared_ptr<const " + q)):
            return q
    return None


class Fill(Rule):
    max_depth = 7
    collapse = True
    widen_at = 4
    max_entries = 3

    def __init__(self, prog, ctx, w, recs, gates, hot, providers, late, root):
        super().__init__(prog)
        self.ctx, self.w, self.recs, self.gates, self.hot = ctx, w, recs, gates, hot
        self.providers, self.late, self.root = providers, late, root
        self.near = prog.near
        self.mutators = prog.mutators
        self.found_provider = False
        self.opened = 0

    def inline(self, fr, node, key):
        f = self.prog.F[key]
        return key in self.hot and not f.get("virtual") and f["qn"].rsplit("::", 1)[0] not in self.gates and \
            (key in self.near or self.prog.is_helper(key))

    def keep_value(self, st, loc, value):
        if value[0] in ('c', 'op', 'i') and loc[0] != 'v':
            return False
        b = self.pointee(value)
        return any((x, b) in st.r for x in "PUWA")

    def on_adopt(self, st, src, dst):
        for k in [k for k in st.r if k[1] == src]:
            st.r[(k[0], dst)] = st.r.pop(k)

    # -- creation
    def closed(self, ex, st, base):
        st.r[('P', canon(base))] = 'new'

    def on_ctor(self, ex, fr, st, node, args):
        if node["cn"] in self.gates and node.get("cp") not in ("copy", "move"):
            v = args[0] if args else TRUE
            if v is not None and v[0] == 'L':
                v = ex.load(fr, st, v[1])
            return ('s', 'gate', v if v else TRUE)
        if node["cn"] in ("std::thread", "std::jthread") and args:
            self.spawn(ex, fr, st, node, args)
        return None

    def on_write(self, ex, fr, st, node, loc, value):
        if loc[0] == 'f' and loc[2] in self.recs.values() and value and value[0] == 's' and value[1] == 'gate':
            if value[2] == NULL or value[2] != TRUE and not self.report:
                self.ctx.count("objects created with a closed gate")
                self.closed(ex, st, loc[1])
            return
        v = self.pointee(value)
        if v is not None and ('P', v) in st.r and not self.local(loc):
            st.r[('P', v)] = 'shared'
        if loc[0] == 'f' and isinstance(loc[1], tuple):
            self.use(ex, fr, st, node, loc, "W")

    def on_new(self, ex, fr, st, node, value):
        t = fr.prep.type(node)
        q = points_to(t.rstrip("*").strip(), self.recs)
        if q and value[0] == 'new':
            r = self.prog.R[q]
            user = any(self.prog.F[k].get("ctor") and self.prog.F[k].get("cls") == q for k in self.prog.F
                       if self.prog.F[k].get("cls") == q)
            if not user:
                self.ctx.count("objects created with a closed gate")
                self.closed(ex, st, ('d', value))

    def local(self, loc):
        while isinstance(loc, tuple) and loc[0] in ('f', 'e'):
            loc = loc[1]
        return loc[0] in ('v', 'tmp', 't')

    def pointee(self, v):
        if v is None:
            return None
        v = canon(v)
        if v[0] == 'addr':
            return v[1]
        return ('d', v)

    # -- calls
    def on_call(self, ex, fr, st, node, targets, recv, args):
        cn = node.get("cn") or ""
        cls, name = cn.rsplit("::", 1)[0] if "::" in cn else "", short(cn)
        if cls in self.gates and recv is not None:
            b = canon(recv[1])[1] if recv[0] == 'addr' and recv[1][0] == 'f' else None
            if b is not None:
                if name == "open":
                    self.opened += 1
                    self.ctx.count("gate openings seen")
                    st.r.pop(('P', b), None)
                    st.r.pop(('U', b), None)
                    st.r[('A', b)] = 1
                elif name == "wait":
                    st.r[('W', b)] = 1
                    st.r.pop(('U', b), None)
                elif name == "is_open":
                    return ('val', ('s', 'isopen', b))
            return ('val', ('void',))
        if cn.startswith("std::") and name in INSERTERS:
            for x in args:
                v = self.pointee(ex.load(fr, st, x[1]) if x is not None and x[0] == 'L' else x)
                if v is not None and ('P', v) in st.r and not (recv and self.local(recv[1] if recv[0] == 'addr' else recv)):
                    st.r[('P', v)] = 'shared'
        ann = [k[1] for k in st.r if k[0] == 'A']
        if ann and self.report:
            if recv is not None and any(k in self.mutators for k in targets or ()):
                b = self.pointee(ex.load(fr, st, recv[1]) if recv[0] == 'L' else recv)
                if b in ann:
                    self.late_change(fr, node, short(cn))
            if cn in ("std::thread::join", "std::jthread::join") and any(('T', b) in st.r for b in ann):
                self.late_change(fr, node, "what the thread that is joined here produces")
            if not cn.startswith("std::") or short(cn) in ("memcpy", "memset", "copy", "memmove"):
                for i, x in enumerate(args):
                    x = ex.load(fr, st, x[1]) if x is not None and x[0] == 'L' else x
                    a = fr.prep.nodes[node["args"][i]] if i < len(node["args"]) and node["args"][i] is not None else None
                    t = fr.prep.type(a) if a and "t" in a else ""
                    if x is None or not t.endswith("*") or t.startswith("const ") or " const *" in t:
                        continue
                    if self.data_of(st, x) & set(ann):
                        self.late_change(fr, node, "what %s is given" % short(cn))
        if not cn.startswith("std::") and targets and not any(self.inline(fr, node, k) for k in targets) \
                and self.root_consumes:
            for x in args:
                v = self.pointee(ex.load(fr, st, x[1]) if x is not None and x[0] == 'L' else x)
                if v is not None and ('U', v) in st.r and not self.lazy(targets):
                    self.unwaited(fr, st, node, v, "passes on")
        return None

    root_consumes = True

    def late_change(self, fr, node, what):
        self.ctx.violation("%s: changes the result after announcing" % fr.fn["qn"], fr.where(node),
                           "changes %s after the gate of the result was opened" % what, fr.chain())

    def data_of(self, st, v):
        """the results whose data a value points into"""
        out = set()

        def go(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == 'f' and x[2] in self.late:
                    out.add(canon(x[1]))
                for y in x:
                    go(y)
        go(v)
        if v[0] in ('s', 'new', 'obj'):
            for k, y in st.env.items():
                if k[0] == 'f' and k[2] in self.late and y == v:
                    out.add(canon(k[1]))
        return out

    def lazy(self, targets):
        """A callee that keeps the object and waits later: returns a Hopper."""
        return all(short(self.prog.F[k]["qn"]) == "make" for k in targets)

    def on_assume(self, ex, fr, st, v, truth):
        if truth and v and v[0] == 's' and v[1] == 'isopen':
            st.r[('W', v[2])] = 1
            st.r.pop(('U', v[2]), None)

    def unwaited(self, fr, st, node, v, verb):
        self.ctx.violation("%s: %s unfinished result" % (fr.fn["qn"], verb), fr.where(node),
                           "%s a result that another thread may still be producing, without waiting for it" % verb,
                           fr.chain())

    def after_call(self, ex, fr, st, node, targets, recv, args, value):
        cn = node.get("cn") or ""
        if cn == "std::async" or short(cn) in ("emplace_back",) and cn.startswith("std::") and node.get("recv") is not None \
                and "std::thread" in fr.prep.type(fr.prep.nodes[node["recv"]]):
            self.spawn(ex, fr, st, node, args)
        if targets and any(k in self.providers for k in targets) and value is not None:
            v = self.pointee(value)
            if v is not None and ('P', v) not in st.r and ('W', v) not in st.r and ('A', v) not in st.r \
                    and value[0] not in ('new', 'c', 'void'):
                st.r[('U', v)] = 1

    def spawn(self, ex, fr, st, node, args):
        vals = []
        for x in args:
            if x is not None and x[0] == 'L':
                x = ex.load(fr, st, x[1])
            vals.append(x)
        body = None
        for i, x in enumerate(vals):
            if x is not None and x[0] == 'lam':
                body, rest, lam = x[1], vals[i + 1:], x
                break
            if x is not None and x[0] == 'fnp':
                body, rest, lam = x[1], vals[i + 1:], None
                break
        if body is None:
            for a in node["args"]:
                n = fr.prep.nodes[a] if a is not None else None
                todo = [n]
                while todo:
                    m = todo.pop()
                    if not m:
                        continue
                    if m["k"] == "ref" and m.get("dk") == "func":
                        body = self.prog.lookup(m["d"], fr.fn["file"])
                        rest, lam = vals[1:], None
                    else:
                        todo.extend(fr.prep.nodes[c] for c in _children(m))
                break
        if body is None or body not in self.prog.F or body in fr.stack:
            return
        f = self.prog.F[body]
        for x in vals:
            for b in self.data_of(st, x) if x is not None else ():
                st.r[('T', b)] = 1
        pend = {k: v for k, v in st.r.items() if k[0] == 'P'}
        if not pend:
            return
        self.ctx.count("threads followed")
        s2 = st.copy()
        for k in [k for k in s2.r if k[0] == 'P']:
            s2.r[k] = 'shared'
        argv = []
        for i, p in enumerate(f["params"]):
            x = rest[i] if i < len(rest) else None
            argv.append(x if x is not None else ('s', fr.id, node_id(fr, node), 'arg%d' % i))
        outs = ex.invoke(fr, s2, node_id(fr, node), node, body, argv, None, lam)
        for k in pend:
            if outs and all(k not in s.r for s, _ in outs):
                st.r.pop(k, None)
                st.r[('H', k[1])] = 1       # handed over
            elif any(k not in s.r for s, _ in outs):
                st.r.pop(k, None)
                self.ctx.violation("%s: leaves a waiter behind" % f["qn"], "%s:%s (%s)" % (f["file"], f["line"], f["qn"]),
                                   "the thread ends on some path without announcing the result others wait for",
                                   ["started at " + fr.where(node)] + fr.chain())

    # -- use of results
    def on_mem(self, ex, fr, st, node, loc, acc):
        self.use(ex, fr, st, node, loc, acc)

    def use(self, ex, fr, st, node, loc, acc):
        if loc[0] != 'f' or loc[2] not in self.late:
            return
        b = canon(loc[1])
        if acc in ("W", "RW", "CALLM", "REF") and ('A', b) in st.r:
            self.ctx.violation("%s: changes %s after announcing" % (fr.fn["qn"], pretty(loc[2])), fr.where(node),
                               "changes %s after its gate was opened" % pretty(loc[2]), fr.chain())
        if fr.depth == 0 or fr.fn.get("cls") == self.prog.F[self.root].get("cls"):
            if self.prog.F[self.root].get("cls") in self.consumers and fr.fn.get("cls") not in self.recs:
                self.ctx.count("uses of awaited results")
                if ('W', b) not in st.r and ('A', b) not in st.r and ('P', b) not in st.r and \
                        not (b[0] == 'd' and b[1][0] == 'new'):
                    self.unwaited(fr, st, node, b, "reads")

    def on_exit(self, ex, fr, st, value):
        if fr.depth:
            return
        ret = self.pointee(value) if value else None
        for k in [k for k in st.r if k[0] == 'P']:
            if ret is not None and k[1] == ret:
                self.found_provider = True
                continue
            if st.r[k] == 'shared' and self.report and not (self.softfail and value in (NULL,)):
                f = fr.fn
                self.ctx.violation("%s: leaves a waiter behind" % f["qn"], "%s:%s (%s)" % (f["file"], f["line"], f["qn"]),
                                   "ends on some path without announcing the shared result that others wait for",
                                   fr.chain())
        if ret is not None and ('U', ret) in st.r:
            self.unwaited(fr, st, {"l": fr.fn["line"]}, ret, "returns")

    report = True
    softfail = False
    consumers = ()


class Bind(Rule):
    """Methods of a class that waits lazily read what the wait provides only after it."""
    max_depth = 4

    def __init__(self, prog, ctx, binders, fields):
        super().__init__(prog)
        self.ctx, self.binders, self.fields = ctx, binders, fields

    def inline(self, fr, node, key):
        return self.prog.is_helper(key, fr.fn["file"]) and key not in self.binders

    def after_call(self, ex, fr, st, node, targets, recv, args, value):
        if targets and any(k in self.binders for k in targets):
            st.r['B'] = 1

    def on_mem(self, ex, fr, st, node, loc, acc):
        if loc[0] == 'f' and loc[2] in self.fields and loc[1] == ('d', ('this',)):
            self.ctx.count("uses of awaited results")
            if 'B' not in st.r and acc not in ("W",):
                self.ctx.violation("%s: %s before waiting" % (fr.fn["qn"], pretty(loc[2])), fr.where(node),
                                   "uses %s before waiting for the result it stands for" % pretty(loc[2]), fr.chain())


def orders(prog, field):
    """(function, node, operation, memory order) of the atomic operations on a field"""
    for k, f in prog.F.items():
        if f.get("ctor"):
            continue
        for i, n in enumerate(f["nodes"]):
            if not n or n["k"] != "call" or "atomic" not in (n.get("cn") or ""):
                continue
            r = strip(f["nodes"], n.get("recv"))
            if not r or r["k"] != "mem" or r["f"] != field:
                continue
            name = short(n["cn"])
            at = {"load": 0, "store": 1, "exchange": 1, "wait": 1}.get(name, 2 if name.startswith("compare_ex") else None)
            if at is None:
                continue
            a = f["nodes"][n["args"][at]] if at < len(n["args"]) and n["args"][at] is not None else None
            while a and a["k"] == "cast":
                a = f["nodes"][a["e"]]
            v = a.get("v") if a else None
            yield k, i, name, int(v) if str(v).isdigit() else None


class Quiet:
    def __getattr__(self, n):
        return lambda *a, **k: None


def run(ctx):
    for config in ("default", "ndebug"):
        program(ctx, ctx.prog(config))
    ctx.floor("waits found", 2)
    ctx.floor("operations analysed", 8)
    ctx.floor("kinds of results that are waited for", 2)
    ctx.floor("threads followed", 3)


def program(ctx, prog):
    w = Waits(prog)
    for k, i, cv, pred in w.sites:
        f = prog.F[k]
        ctx.count("waits found")
        ctx.sample("wait: %s:%s (%s)" % (f["file"], f["nodes"][i]["l"], f["qn"]))
        if not pred and not in_cycle(f, i):
            ctx.violation("%s: unguarded wait" % f["qn"], "%s:%s (%s)" % (f["file"], f["nodes"][i]["l"], f["qn"]),
                          "does not re-check its condition after waking")

    # changes -> wake-ups
    def touches(f):
        for n in f["nodes"]:
            if n and n["k"] == "mem" and n["f"] in w.pred and n.get("acc") in ("W", "RW", "CALLM", "REF"):
                return True
        return False
    cvs = {x["cv"] for x in w.pred.values()}
    direct = {k for k, f in prog.F.items() if touches(f)}
    hot = {k for k in prog.closure_pred(lambda f: touches(f) or any(n and n["k"] == "mem" and n["f"] in cvs
                                                                  for n in f["nodes"]))}
    callers = prog.callers()
    setters = {}
    for k in direct:
        f = prog.F[k]
        if f.get("ctor") or f.get("dtor"):
            continue
        for i, n in enumerate(f["nodes"]):
            if n and n["k"] == "call" and (n.get("cn") or "").startswith("std::") and "atomic" in (n.get("cn") or "") and \
                    (short(n["cn"]) in ("store", "exchange", "operator=") or short(n["cn"]).startswith("compare_exch")):
                r = strip(f["nodes"], n.get("recv"))
                if r and r["k"] == "mem" and r["f"] in w.pred:
                    setters.setdefault(r["f"], set()).add(k)
    owners = {x.rsplit("::", 1)[0] for x in w.pred}
    roots = {k for k in hot if prog.F[k].get("cls") in owners and not prog.is_helper(k)}
    roots |= {k for ks in setters.values() for k in ks}
    seen, todo = set(), sorted(roots)
    while todo:
        k = todo.pop()
        if k not in seen:
            seen.add(k)
            todo.extend(prog.callees(k))
    roots |= direct - seen
    for x, d in w.pred.items():
        for k, i, name, order in orders(prog, x):
            f = prog.F[k]
            ctx.count("memory orders checked")
            bad = order == 0 or order in (1, 2) and name in ("store", "exchange") or order == 3 and name in ("load", "wait")
            if name == "load" or name == "wait":
                bad = order in (0, 3)
            if bad:
                ctx.violation("%s: unordered %s of %s" % (f["qn"], name, pretty(x)), "%s:%s (%s)" % (
                    f["file"], f["nodes"][i]["l"], f["qn"]), "the %s of %s does not order it with the data that waiters "
                    "read" % (name, pretty(x)))
    roots = sorted(roots)
    for k in roots:
        rule = Notify(prog, ctx, w, hot)
        rule.setters = setters
        rule.root = k
        ex = Exec(prog, rule)
        ex.start(k)
        ctx.count("operations analysed")
        ctx.explored(ex)

    # fill obligations
    gates = {x.rsplit("::", 1)[0] for x, d in w.pred.items() if not d["consume"]}
    recs = gated_records(prog, gates)
    for q in recs:
        ctx.count("kinds of results that are waited for")

    def gateop(f):
        for n in f["nodes"]:
            if n and n["k"] == "call" and (n.get("cn") or "").rsplit("::", 1)[0] in gates and short(n["cn"]) in (
                    "open", "wait", "is_open"):
                return True
            if n and n["k"] == "ctor" and n["cn"] in gates:
                return True
            if n and n["k"] == "new" and points_to(f["types"][n["t"]].rstrip("*").strip(), recs):
                return True
        return False
    base = {k for k, f in prog.F.items() if gateop(f) and f["qn"].rsplit("::", 1)[0] not in gates}
    spawners = {k for k, f in prog.F.items() if not f.get("lambda") and prog.is_helper(k) and
                any(n and n["k"] == "ctor" and n["cn"] in ("std::thread", "std::jthread") and n.get("args")
                    for n in f["nodes"])}
    fhot, todo = set(base) | spawners, list(base)
    while todo:
        k = todo.pop()
        for c in callers.get(k, ()):
            if c not in fhot and not prog.F[k].get("virtual"):
                fhot.add(c)
                todo.append(c)
    prog.near = base | spawners | {k for k, f in prog.F.items() if any(points_to(f["types"][p["t"]], recs) for p in f["params"])
                        or isinstance(f.get("ret"), int) and points_to(f["types"][f["ret"]], recs)}
    creators = {k for k in base for n in prog.F[k]["nodes"] if n and n["k"] == "new"}
    late = set()
    for k, f in prog.F.items():
        if k in creators or f.get("ctor"):
            continue
        for n in f["nodes"]:
            if n and n["k"] == "mem" and n["f"].rsplit("::", 1)[0] in recs and n["f"] not in recs.values() and \
                    n.get("acc") in ("W", "RW", "CALLM", "REF"):
                late.add(n["f"])
    prog.mutators = {k for k, f in prog.F.items() if f.get("cls") in recs and not f.get("ctor") and any(
        n and n["k"] == "mem" and n["f"] in late and n.get("acc") in ("W", "RW", "CALLM") for n in f["nodes"])}
    waiting = set()
    for k, f in prog.F.items():
        if f.get("cls") and f["cls"] not in recs and f["cls"] not in gates:
            for n in f["nodes"]:
                if n and n["k"] == "call" and short(n.get("cn")) == "wait" and (n.get("cn") or "").rsplit("::", 1)[0] in recs:
                    waiting.add(f["cls"])
    consumers = waiting
    ctx.count("classes that wait for results", len(consumers))
    providers, done = set(), set()

    def analyse(c, k, report):
        rule = Fill(prog, c, w, recs, gates, fhot, providers, late, k)
        rule.report, rule.consumers = report, consumers
        ex = Exec(prog, rule)
        ex.start(k)
        c.explored(ex)
        return rule

    # who hands out unfinished results: to a fixed point
    work = creators | {k for k in base if any(n and n["k"] == "ctor" and n["cn"] in gates for n in prog.F[k]["nodes"])}
    roots = set()

    def is_provider(c, k):
        return analyse(Quiet(), k, False).found_provider
    while work:
        now = sorted(work - done)
        work = set()
        done |= set(now)
        ask = [k for k in now if not prog.F[k].get("ctor")]
        for k in now:
            if prog.F[k].get("ctor"):
                work |= set(callers.get(k, ()))
        for k, r in zip(ask, ctx.pmap(is_provider, ask, 1)):
            if r:
                providers.add(k)
                work |= set(callers.get(k, ()))
            else:
                roots.add(k)

    def fills(c, k):
        analyse(c, k, True)
        c.count("operations analysed")
        c.sample("fills or hands over: " + prog.F[k]["qn"])
    ctx.pmap(fills, sorted(roots), 1)
    # functions that fill what they are given
    def filler(c, k):
        f = prog.F[k]
        ps = [p for p in f["params"] if points_to(f["types"][p["t"]], recs)]
        rule = Fill(prog, Quiet(), w, recs, gates, fhot, providers, late, k)
        rule.report, rule.consumers = False, ()
        ex = Exec(prog, rule)
        ex.start(k)
        if not rule.opened:
            return
        c.count("functions that fill results")
        rule = Filler(prog, c, w, recs, gates, fhot, providers, late, k)
        rule.softfail = True
        rule.params = {p["d"] for p in ps}
        ex = Exec(prog, rule)
        ex.start(k)
        c.explored(ex)
    ctx.pmap(filler, [k for k in sorted(fhot) if not prog.F[k].get("lambda") and prog.F[k].get("cls") not in recs and
                      any(points_to(prog.F[k]["types"][p["t"]], recs) for p in prog.F[k]["params"])], 1)
    # readers
    readers = [k for k in sorted(prog.F) if prog.F[k].get("cls") in consumers and not prog.F[k].get("ctor") and
               k not in roots and any(n and n["k"] == "mem" and n["f"] in late for n in prog.F[k]["nodes"])]

    def reader(c, k):
        analyse(c, k, True)
        c.count("operations analysed")
    ctx.pmap(reader, readers, 1)
    for cls in sorted(consumers):
        # lazily bound fields
        binders, fields = set(), set()
        for k, f in prog.F.items():
            if f.get("cls") == cls and any(n and n["k"] == "call" and short(n.get("cn")) == "wait" and
                                           (n.get("cn") or "").rsplit("::", 1)[0] in recs for n in f["nodes"]):
                ws = {n["f"] for n in f["nodes"] if n and n["k"] == "mem" and n.get("acc") == "W" and
                      n["f"].rsplit("::", 1)[0] == cls}
                if ws:
                    binders.add(k)
                    fields |= ws
        if not fields:
            continue
        todo = list(binders)
        while todo:
            x = todo.pop()
            for c in callers.get(x, ()):
                if prog.F[c].get("cls") == cls and prog.is_helper(c) and c not in binders:
                    binders.add(c)
                    todo.append(c)
        for k in sorted(prog.F):
            f = prog.F[k]
            if f.get("cls") == cls and k not in binders and not f.get("ctor") and not (
                    prog.is_helper(k) and any(prog.F[c].get("cls") == cls for c in callers.get(k, ()))) and any(
                    n and n["k"] == "mem" and n["f"] in fields for n in f["nodes"]):
                rule = Bind(prog, ctx, binders, fields)
                ex = Exec(prog, rule)
                ex.start(k)
                ctx.count("operations analysed")
                ctx.explored(ex)


class Filler(Fill):
    """A function that fills a result it is given: it announces it on every way out that reports success."""

    def on_call(self, ex, fr, st, node, targets, recv, args):
        self.seed(ex, fr, st)
        return super().on_call(ex, fr, st, node, targets, recv, args)

    def seed(self, ex, fr, st):
        pass

    def given(self, v, fid):
        """Does the object come from a parameter?"""
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == 'v' and v[1] == fid and v[2] in self.params:
                return True
            return any(self.given(x, fid) for x in v)
        return False

    def on_exit(self, ex, fr, st, value):
        if fr.depth:
            return
        if self.softfail and value == NULL:
            return
        if not any(k[0] == 'A' and self.given(k[1], fr.id) for k in st.r):
            f = fr.fn
            self.ctx.violation("%s: leaves a waiter behind" % f["qn"], "%s:%s (%s)" % (f["file"], f["line"], f["qn"]),
                               "ends on some path without announcing the result it was given to fill", fr.chain())
