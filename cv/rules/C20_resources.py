"""Descriptors, streams, pipes, threads and raw allocations are given back.  Every function that acquires one is followed
on every path, helpers inlined: what is open at the way out must have been closed (by the matching call, once), handed to
the caller, or stored where an owner's destructor closes it; the destructors are then followed with the resource open.
A thread must be joined or detached, element by element, before its object goes away."""
from ..common import *
from ..locks import bare
from ..loops import LoopMixin, elem_of, natural_loops
from .C01_publish import node_id

ASSUMPTIONS = ["a failed acquisition answers null or a negative number and leaves nothing to give back",
               "library functions do not close what they are given"]
ACQUIRE = {"fopen": "fclose", "fdopen": "fclose", "tmpfile": "fclose", "popen": "pclose", "open": "close",
           "creat": "close", "socket": "close", "accept": "close", "accept4": "close", "dup": "close",
           "mkstemp": "close", "opendir": "closedir"}
RELEASE = set(ACQUIRE.values())
THREAD = "std::thread"
THIS = ('d', ('this',))


def cname(node):
    cn = node.get("cn") or ""
    if cn.startswith("std::"):
        cn = cn[5:]
    return cn


def direct(f):
    for n in f["nodes"]:
        if n and n["k"] == "call" and cname(n) in ACQUIRE:
            return True
        if n and n["k"] == "ctor" and n.get("cn") == THREAD and n.get("cp") not in ("copy", "move", "default"):
            return True
    return False


def closes(f):
    return any(n and n["k"] == "call" and (cname(n) in RELEASE or short(n.get("cn")) in ("join", "detach") and
                                           (n.get("cn") or "").startswith("std::thread")) for n in f["nodes"])


def smart_use(f):
    """new expressions that go straight into a smart pointer: {id of new: type of the smart pointer or None}"""
    out = {}
    nodes = f["nodes"]

    def strip(i):
        while i is not None and nodes[i] and nodes[i]["k"] in ("cast", "paren") and nodes[i].get("e") is not None:
            i = nodes[i]["e"]
        return i
    for j, n in enumerate(nodes):
        if not n:
            continue
        if n["k"] == "ctor" and n["args"]:
            i = strip(n["args"][0])
            if i is not None and nodes[i] and nodes[i]["k"] == "new":
                t = f["types"][n["t"]]
                if is_smart(bare(t)):
                    out[i] = (bare(t), len([a for a in n["args"] if a is not None]))
        if n["k"] == "call" and short(n.get("cn")) in ("reset",) and n["args"] and n.get("recv") is not None:
            i = strip(n["args"][0])
            if i is not None and nodes[i] and nodes[i]["k"] == "new":
                t = bare(f["types"][nodes[n["recv"]]["t"]])
                if is_smart(t):
                    out[i] = (t, len([a for a in n["args"] if a is not None]))
    return out


def raw_new(f):
    own = None
    for i, n in enumerate(f["nodes"]):
        if n and n["k"] == "new" and not n.get("pl"):
            own = smart_use(f) if own is None else own
            if i not in own:
                return True
    return False


def params_used(prog):
    """(function, parameter index) -> 'close' | 'store' : what becomes of a resource passed there"""
    if hasattr(prog, "_c20p"):
        return prog._c20p
    res = {}
    for _ in range(4):
        old = dict(res)
        for k, f in prog.F.items():
            idx = {p["d"]: i for i, p in enumerate(f["params"])}

            def par(i):
                n = f["nodes"][i] if i is not None else None
                while n and n["k"] in ("cast", "paren") and n.get("e") is not None:
                    n = f["nodes"][n["e"]]
                return idx.get(n["d"]) if n and n["k"] == "ref" and n.get("d") in idx else None
            if not idx:
                continue
            for n in f["nodes"]:
                if not n:
                    continue
                if n["k"] == "call":
                    for j, a in enumerate(n["args"]):
                        p = par(a)
                        if p is None:
                            continue
                        if cname(n) in RELEASE and j == 0:
                            res[(k, p)] = "close"
                        for c in prog.targets(f, n):
                            if (c, j) in res:
                                res.setdefault((k, p), res[(c, j)])
                elif n["k"] == "bin" and n.get("op") == "=":
                    p, l = par(n["b"]), f["nodes"][n["a"]]
                    if p is not None and l and (l["k"] == "mem" or l["k"] == "un" or l["k"] == "idx" or
                                                l["k"] == "ref" and l.get("dk") in ("global", "slocal")):
                        res.setdefault((k, p), "store")
            for b in f["blocks"]:
                for e in b["e"]:
                    if isinstance(e, dict) and "init" in e and par(e.get("e")) is not None:
                        res.setdefault((k, par(e["e"])), "store")
        if res == old:
            break
    prog._c20p = res
    return res


class Res(LoopMixin, Rule):
    max_depth = 5
    widen_at = 4
    max_entries = 3
    max_states = 20000
    collapse = True
    in_order = True
    asserts = "assume"
    nonneg = True

    def __init__(self, prog, ctx, root):
        super().__init__(prog)
        self.ctx, self.root = ctx, root
        self.use = params_used(prog)
        self.owned = {}
        self.smart = {}
        self.loops = {}

    def report(self, fr, node, key, what):
        self.ctx.violation("%s: %s" % (fr.fn["qn"], key), fr.where(node), what, fr.chain())

    def inline(self, fr, node, key):
        f = self.prog.F[key]
        if f.get("lambda"):
            return True
        if len(f["nodes"]) > 260:
            return False
        if f.get("ctor"):
            return True
        rel = self.relevant()
        if key in rel and (self.prog.is_helper(key) or f.get("tmpl") or direct(f) or closes(f)):
            return True
        return False

    def relevant(self):
        if not hasattr(self.prog, "_c20r"):
            self.prog._c20r = {k for k, f in self.prog.F.items() if direct(f) or closes(f)}
            for _ in range(3):
                self.prog._c20r |= {k for k in self.prog.F if self.prog.is_helper(k) and
                                    any(c in self.prog._c20r for c in self.prog.callees(k))}
        return self.prog._c20r

    def nonempty(self, st, loc):
        return ('TV', loc) in st.r or any(k[0] == 'TVK' and k[1] == loc for k in st.r)

    def keep_value(self, st, loc, v):
        return ('O', v) in st.r or ('X', v) in st.r or v[0] == 'op' and v[1] in ("begin", "next", "end")

    def keep_cons(self, st, key):
        return ('O', key) in st.r

    # -- acquisition and release
    def on_call(self, ex, fr, st, node, targets, recv, args):
        cn, nid = cname(node), node_id(fr, node)
        vals = [ex.load(fr, st, a[1]) if a is not None and a[0] == 'L' else a for a in args]
        if cn in ACQUIRE:
            s = ('s', fr.id, nid, 0)
            if ('O', s) in st.r and not self.null(ex, st, s):
                self.report(fr, node, "%s again without %s" % (cn, ACQUIRE[cn]),
                            "acquires again here, while what was acquired last time round has not been given back (%s)" %
                            ACQUIRE[cn])
            ex.sym(st, fr, nid)
            st.r[('O', s)] = (ACQUIRE[cn], cn, fr.where(node))
            st.r.pop(('X', s), None)
            self.ctx.count("acquisitions followed")
            return ('val', s)
        if cn in RELEASE and vals:
            self.release(ex, fr, st, node, vals[0], cn)
            return ('val', ex.sym(st, fr, nid))
        if (node.get("cn") or "").startswith("std::thread::") and recv is not None:
            r = self.thread_call(ex, fr, st, node, short(node["cn"]), recv)
            if r is not None:
                return r
        if (node.get("cn") or "").startswith("std::thread::operator=") and recv is not None and recv[0] == 'addr':
            if ('T', recv[1]) in st.r:
                self.report(fr, node, "thread overwritten", "assigns to a thread object that is still running")
            t = self.thread_of(st, args[0])
            if t:
                st.r[('T', recv[1])] = st.r.pop(('T', t))
            return ('val', ('L', recv[1]))
        loc = recv[1] if recv is not None and recv[0] == 'addr' else None
        if loc is not None and (node.get("cn") or "").startswith("std::vector") and \
                short(node["cn"]) in ("emplace_back", "push_back", "emplace", "operator="):
            if THREAD in fr.prep.type(fr.prep.nodes[node["recv"]]):
                t = self.thread_of(st, args[0]) if args else None
                if t:
                    st.r[('TV', loc)] = st.r.pop(('T', t))
                elif args and short(node["cn"]) == "emplace_back" and args[0] is not None:
                    self.started(ex, fr, st, node, args, ('x', nid))
                    st.r[('TV', loc)] = st.r.pop(('T', ('x', nid)))
                    self.ctx.count("threads started")
                return ('val', ex.sym(st, fr, nid))
        if loc is not None and short(node.get("cn")) in ("clear", "pop_back", "resize", "erase") and ('TV', loc) in st.r:
            self.report(fr, node, "threads dropped", "drops threads that have not been joined")
            st.r.pop(('TV', loc), None)
        if loc is not None and short(node.get("cn")) == "clear":
            st.r.pop(('TVK', loc), None)
        if short(cn) in ("make_unique", "make_shared") and any(('O', v) in st.r for v in vals if v is not None):
            return self.construct(ex, fr, st, node, nid, args)
        tg = [k for k in targets or () if not self.inline(fr, node, k)]
        for i, v in enumerate(vals):
            if v is None:
                continue
            if ('X', v) in st.r and not self.null(ex, st, v):
                self.report(fr, node, "used after closing", "uses what was closed at %s" % st.r[('X', v)])
            if ('O', v) in st.r:
                how = {self.use.get((k, i)) for k in tg}
                if "close" in how or "store" in how:
                    st.r.pop(('O', v))
                elif any(self.stores(k) for k in tg):
                    pass
        if not (node.get("cn") or "").startswith("std::thread") and not any(self.inline(fr, node, k) for k in targets or ()):
            r = self.iter_call(ex, fr, st, node, recv, args)
            if r is not None:
                return r
            if targets and not fr.prep.type(node).endswith("*") and recv is None and any(
                    t and t[0] == 'L' and ('T', t[1]) in st.r for t in args):
                for t in args:
                    if t and t[0] == 'L':
                        st.r.pop(('T', t[1]), None)
        return None

    def stores(self, k):
        return False

    def null(self, ex, st, v):
        return ex.truth(st, v) is False

    def construct(self, ex, fr, st, node, nid, args):
        t = bare(fr.prep.type(node))
        made = [q for q in self.prog.R if "<%s>" % q in t or t.endswith("<%s>" % short(q)) or "<%s>" % q.replace("(anonymous namespace)::", "") in t]
        v = ('new', fr.id, nid)
        for q in made:
            for m in self.prog.R[q]["methods"]:
                if m.get("ctor") and m["key"] in self.prog.F and len(self.prog.F[m["key"]]["params"]) == len(args):
                    ex.refresh_new(st, v)
                    outs = ex.invoke(fr, st, nid, node, m["key"], args, v)
                    return ('fork', [(s, v) for s, _ in outs])
        for a in args:
            x = ex.load(fr, st, a[1]) if a is not None and a[0] == 'L' else a
            st.r.pop(('O', x), None)
        return ('val', v)

    def release(self, ex, fr, st, node, v, cn):
        if v is None:
            return
        if ('X', v) in st.r:
            self.report(fr, node, "closed twice", "closes again what was closed at %s" % st.r[('X', v)])
        o = st.r.pop(('O', v), None)
        if o is not None:
            if o[0] != cn:
                self.report(fr, node, "closed the wrong way", "gives back with %s what came from %s" % (cn, o[1]))
            st.r[('X', v)] = fr.where(node)
            self.ctx.count("resources given back")

    def on_new(self, ex, fr, st, node, v):
        if node.get("k") != "new" or node.get("pl"):
            return
        f = fr.fn
        if fr.key not in self.smart:
            self.smart[fr.key] = smart_use(f)
        if node_id(fr, node) in self.smart[fr.key]:
            return
        st.r[('O', v)] = ("delete[]" if node.get("arr") else "delete", "new[]" if node.get("arr") else "new", fr.where(node))
        st.r.pop(('X', v), None)
        self.ctx.count("acquisitions followed")

    def on_del(self, ex, fr, st, node, v):
        self.release(ex, fr, st, node, v, "delete[]" if node.get("arr") else "delete")

    # -- ownership
    def on_write(self, ex, fr, st, node, loc, value):
        if loc[0] == 'f' and value is not None and value[0] == 'c' and any(k[0] == 'OWN' and k[1][1] == loc[1] for k in st.r):
            st.r[('SIB', loc)] = value
        if value is None or ('O', value) not in st.r:
            return
        t = None
        if loc[0] == 'v' or loc[0] == 'tmp':
            if value[0] == 'new' and node is not None and "t" in node:
                t = bare(fr.prep.type(node)) if "t" in node else ""
                if is_smart(t):
                    st.r.pop(('O', value))
            return
        o = st.r.pop(('O', value))
        self.ctx.count("resources handed to an owner")
        if loc[0] == 'f':
            st.r[('OWN', loc)] = o
            for x, v in list(st.env.items()):
                if isinstance(x, tuple) and x[0] == 'f' and x[1] == loc[1] and v[0] == 'c':
                    st.r[('SIB', x)] = v

    def on_adopt(self, st, old, new):
        def sub(v):
            if v == old:
                return new
            return tuple(sub(x) for x in v) if isinstance(v, tuple) else v
        for k in [k for k in st.r if k[0] in ('OWN', 'SIB', 'T', 'TV', 'TVK') and sub(k[1]) != k[1]]:
            st.r[(k[0], sub(k[1])) + k[2:]] = st.r.pop(k)

    def on_assume(self, ex, fr, st, v, truth):
        if ('O', v) in st.r and not truth and st.r[('O', v)][0] != "close":
            del st.r[('O', v)]
            return
        if v[0] == 'op' and len(v) == 4:
            a, b, op = v[2], v[3], v[1]
            if a[0] == 'c' and b[0] != 'c':
                a, b = b, a
                op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
            if ('O', a) in st.r and b[0] == 'c' and isinstance(b[1], int):
                n = b[1]
                bad = {'<': truth and n <= 0, '<=': truth and n < 0, '>=': not truth and n == 0, '>': not truth and n == -1,
                       '==': truth and n < 0, '!=': not truth and n < 0}.get(op, False)
                if bad:
                    del st.r[('O', a)]

    # -- threads
    def thread_of(self, st, x):
        if x is None:
            return None
        if x[0] == 'obj' and ('T', ('tmp', x[1], x[2])) in st.r:
            return ('tmp', x[1], x[2])
        if x[0] == 'L' and ('T', x[1]) in st.r:
            return x[1]
        return None

    def on_ctor(self, ex, fr, st, node, args):
        nid = node_id(fr, node)
        if node.get("cn") == THREAD:
            tmp = ('tmp', fr.id, nid)
            if node.get("cp") == "default" or not args:
                return None
            if node.get("cp") in ("copy", "move"):
                t = self.thread_of(st, args[0])
                if t:
                    st.r[('T', tmp)] = st.r.pop(('T', t))
                return ('obj', fr.id, nid)
            self.started(ex, fr, st, node, args, tmp)
            self.ctx.count("threads started")
            return None
        if is_smart(node.get("cn") or "") or (node.get("cn") or "").startswith(("std::shared_ptr", "std::unique_ptr")):
            for a in args:
                v = ex.load(fr, st, a[1]) if a is not None and a[0] == 'L' else a
                if v is not None and ('O', v) in st.r:
                    o = st.r.pop(('O', v))
                    t = bare(fr.prep.type(node))
                    if v[0] == 'new' and (o[0] == "delete[]") != ("[]>" in t or "[]," in t) and len(args) == 1:
                        self.report(fr, node, "freed the wrong way", "a pointer from %s is owned by %s" % (o[1], t))
            return None
        return None

    def started(self, ex, fr, st, node, args, tmp):
        st.r[('T', tmp)] = (fr.where(node), tuple(self.borrowed(ex, fr, st, a) for a in args if a is not None))

    def borrowed(self, ex, fr, st, a):
        """locals of this frame that the thread refers to"""
        v = ex.load(fr, st, a[1]) if a[0] == 'L' else a
        if v[0] == 'lam':
            for c in v[2]:
                if c[1] and c[0] != "this" and isinstance(c[2], tuple) and c[2][0] == 'v':
                    return str(c[0]).split("@")[0]
        if v[0] == 'addr' and v[1][0] == 'v':
            return desc(v[1])
        return None

    def thread_call(self, ex, fr, st, node, name, recv):
        loc = recv[1] if recv[0] == 'addr' else ('d', recv)
        nid = node_id(fr, node)
        c = elem_of(loc)
        if name in ("join", "detach"):
            t = st.r.pop(('T', loc), None)
            if t is not None:
                self.ctx.count("threads joined or detached")
                st.r[('TJ', loc)] = fr.where(node)
                if name == "detach" and any(t[1]):
                    self.report(fr, node, "detached thread uses a local",
                                "detaches a thread that refers to the local variable %s" % [x for x in t[1] if x][0])
            elif ('TJ', loc) in st.r and c is None:
                self.report(fr, node, "joined twice", "joins or detaches a thread again (first at %s)" % st.r[('TJ', loc)])
            if c is not None:
                if name == "detach" and ('TV', c) in st.r and any(st.r[('TV', c)][1]):
                    self.report(fr, node, "detached thread uses a local",
                                "detaches a thread that refers to the local variable %s" %
                                [x for x in st.r[('TV', c)][1] if x][0])
                self.ctx.count("threads joined or detached")
                self.visited(fr, st, node, c)
                last = ('op', 'back')
                if loc[0] == 'e' and ('TV', c) in st.r and not self.in_loops(fr, node):
                    st.r[('TVK', c)] = 1
            return ('val', ('void',))
        if name == "joinable":
            if c is not None:
                if ('TV', c) in st.r:
                    return ('val', TRUE)
                return ('val', ex.sym(st, fr, nid))
            return ('val', TRUE if ('T', loc) in st.r else NULL)
        return None

    def frames(self, fr, node):
        while fr is not None and node is not None:
            yield fr, node
            node, fr = fr.node, fr.parent

    def in_loops(self, fr, node):
        out = []
        for f, n in self.frames(fr, node):
            i = node_id(f, n) if n in f.prep.nodes else None
            b = f.prep.where.get(i) if hasattr(f.prep.where, "get") else f.prep.where[i]
            for h, body in self.loops_of(f):
                if b in body:
                    out.append((f.id, h))
        return out

    def loops_of(self, fr):
        if fr.key not in self.loops:
            self.loops[fr.key] = natural_loops(fr.fn)
        return self.loops[fr.key]

    def visited(self, fr, st, node, c):
        for l in self.in_loops(fr, node):
            st.r.pop(('ITER', l), None)
            st.r[('JN', l)] = c

    def on_edge(self, ex, fr, st, block, to):
        bid = block if isinstance(block, int) else block["id"]
        for h, body in self.loops_of(fr):
            if h != bid:
                continue
            l = (fr.id, h)
            if to in body:
                if ('ITER', l) in st.r and ('JN', l) in st.r:
                    st.r[('BADL', l)] = 1
                st.r[('ITER', l)] = 1
            else:
                c = st.r.pop(('JN', l), None)
                bad = st.r.pop(('BADL', l), None) or st.r.get(('ITER', l))
                st.r.pop(('ITER', l), None)
                if c is not None and not bad:
                    if st.r.pop(('TV', c), None) is not None:
                        st.r[('TVK', c)] = 1

    def on_dtor(self, ex, fr, st, elem, loc, type):
        t = bare(type)
        if ('T', loc) in st.r:
            o = st.r.pop(('T', loc))
            self.report(fr, elem if "l" in elem else None, "thread neither joined nor detached",
                        "the thread started at %s goes away without having been joined or detached" % o[0])
        if ('TV', loc) in st.r:
            o = st.r.pop(('TV', loc))
            self.report(fr, elem if "l" in elem else None, "threads not all joined",
                        "the threads started at %s go away without all having been joined" % o[0])
        st.r.pop(('TJ', loc), None)
        st.r.pop(('TVK', loc), None)

    def on_decl(self, ex, fr, st, node, var, loc):
        for k in ('T', 'TV', 'TVK', 'TJ'):
            st.r.pop((k, loc), None)

    def on_return(self, ex, fr, st, node, value):
        if fr.depth == 0 and value is not None:
            o = st.r.pop(('O', value), None)
            if o is not None:
                self.ctx.count("resources handed to the caller")
            if value[0] == 'L' and ('T', value[1]) in st.r:
                st.r.pop(('T', value[1]))

    def on_exit(self, ex, fr, st, value):
        for k in [k for k in st.r if k[0] == 'T' and k[1][0] in ('tmp', 'v') and k[1][1] == fr.id]:
            if k[1][0] == 'tmp' or fr.depth == 0:
                o = st.r.pop(k)
                self.ctx.violation("%s: thread neither joined nor detached" % fr.fn["qn"], o[0],
                                   "the thread started here goes away without having been joined or detached", fr.chain())
        if fr.depth:
            return
        if value is not None:
            st.r.pop(('O', value), None)
        self.ctx.count("ways out checked")
        for k in [k for k in st.r if k[0] == 'O']:
            o = st.r[k]
            if self.null(ex, st, k[1]):
                continue
            self.ctx.violation("%s: %s without %s" % (fr.fn["qn"], o[1], o[0]), o[2],
                               "what %s answers here is not given back (%s) on a way out" % (o[1], o[0]), [])
        for k in st.r:
            if k[0] == 'OWN':
                loc, o = k[1], st.r[k]
                sib = tuple(sorted((x[1][2], v) for x, v in st.r.items() if x[0] == 'SIB' and x[1][1] == loc[1]))
                self.owned.setdefault((loc[2], o[0], sib), o)
            if k[0] == 'TV' and k[1][0] == 'f':
                self.owned.setdefault((k[1][2], "join", ()), (0, "std::thread", st.r[k][0]))


class Dtor(Res):
    """a destructor, its field holding the resource"""

    def on_exit(self, ex, fr, st, value):
        if fr.depth:
            return
        for k in [k for k in st.r if k[0] in ('O', 'TV')]:
            self.ctx.violation("%s: %s not given back" % (fr.fn["qn"], short(self.field)), fr.where(),
                               "the destructor leaves %s open (%s)" % (self.field, st.r[k][1] if k[0] == 'O' else "threads"), [])
        self.ctx.count("destructors followed")


def run(ctx):
    prog = ctx.prog()
    params_used(prog)
    rel0 = {k for k, f in prog.F.items() if direct(f) or raw_new(f)}
    roots = set(rel0)
    helpers = {k for k in rel0 if prog.is_helper(k) and direct(prog.F[k])}
    for h in helpers:
        roots |= set(prog.callers().get(h, ()))
    roots = sorted(k for k in roots if not prog.F[k]["file"].startswith(("test/",)) and
                   (not prog.F[k]["file"].startswith("apps/") or "ssr" in prog.F[k]["file"]))

    def follow(c, k):
        rule = Res(prog, c, k)
        ex = Exec(prog, rule)
        ex.start(k)
        c.count("functions followed")
        c.explored(ex)
        return rule.owned
    for k, f in prog.F.items():
        if f["file"].startswith("test/"):
            continue
        for i, (t, n) in smart_use(f).items() if any(x and x["k"] == "new" for x in f["nodes"]) else ():
            nd = f["nodes"][i]
            ctx.count("allocations owned by smart pointers")
            if n == 1 and bool(nd.get("arr")) != ("[]>" in t or "[]," in t):
                ctx.violation("%s: freed the wrong way" % f["qn"], "%s:%d (%s)" % (f["file"], nd["l"], f["qn"]),
                              "%s is owned by %s" % ("new[]" if nd.get("arr") else "new", t), [])
    owned = {}
    for o in ctx.pmap(follow, roots):
        for k, v in o.items():
            owned.setdefault(k, v)
    for (field, fam, sib), o in sorted(owned.items(), key=str):
        cls = field.rsplit("::", 1)[0]
        dt = [k for k, f in prog.F.items() if f.get("dtor") and f.get("cls") == cls]
        ctx.count("owning fields")
        ctx.sample("%s holds what %s answers" % (field, o[1]))
        if not dt:
            ctx.violation("%s: no destructor gives back %s" % (cls, short(field)), o[2],
                          "%s keeps what %s answers in %s, and has no destructor" % (cls, o[1], short(field)), [])
            continue
        rule = Dtor(prog, ctx, dt[0])
        rule.field = field
        st = State()
        loc = ('f', THIS, field)
        if fam == "join":
            st.r[('TV', loc)] = (o[2], ())
        else:
            v = ('s', -5, 0)
            st.env[loc] = v
            st.r[('O', v)] = (fam, o[1], o[2])
            if fam == "close":
                st.cons[('op', '<', v, ('c', 0))] = False
                st.cons[('op', '>=', v, ('c', 0))] = True
            else:
                st.cons[v] = True
            for n, x in sib:
                if n != field:
                    st.env[('f', THIS, n)] = x
        ex = Exec(prog, rule)
        ex.start(dt[0], st)
        ctx.explored(ex)
    ctx.floor("acquisitions followed", 10)
    ctx.floor("threads started", 8)
    ctx.floor("threads joined or detached", 8)
    ctx.floor("owning fields", 3)
    ctx.floor("allocations owned by smart pointers", 40)
