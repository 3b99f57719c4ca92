"""Lock release, double locking and lock order.  Every function that locks, unlocks or guards a mutex is followed
on every path (local helpers as part of their callers): a manually locked mutex must be unlocked before every
return and before anything that may throw out of the function, no held mutex may be locked again (directly or by a
callee on the same object) and none released that is not held.  The order in which locks are acquired while others
are held, along all resolved calls, must be acyclic; no thread is joined and no condition awaited while an
unrelated lock is held."""
from ..common import *
from ..engine import contains
from ..locks import *

ASSUMPTIONS = ["two mutexes are the same when their symbolic access paths are equal",
               "virtual calls reach the override of every class derived from the receiver's static type",
               "library calls do not throw except where listed (string-to-number conversions, at())"]

THROWERS = {"stoi", "stol", "stoll", "stoul", "stoull", "stof", "stod", "stold", "at"}
WAITS = {"std::condition_variable::wait", "std::condition_variable_any::wait", "std::atomic::wait"}
JOINS = {"std::thread::join", "std::jthread::join"}


class Locks(LockRule):
    def __init__(self, prog, ctx, hot, acq, root):
        super().__init__(prog)
        self.ctx, self.hot, self.acq, self.root = ctx, hot, acq, root
        self.cls = prog.F[root].get("cls")
        self.edges = []

    def inline(self, fr, node, key):
        return key in self.hot and self.prog.is_helper(key, fr.fn["file"])

    def rep(self, fr, node, what, path, msg):
        f = fr
        while f.parent is not None and self.prog.F[f.key].get("lambda"):
            f = f.parent
        self.ctx.violation("%s: %s %s" % (fr.fn["qn"], what, pretty(mutex_name(path))), fr.where(node),
                           msg % pretty(mutex_name(path)), fr.chain())

    def classes(self, path):
        """Names the order graph uses for a held lock."""
        nm = mutex_name(path)
        if path[0] == 'f' and path[1] == ('d', ('this',)) and self.cls:
            return [self.acq.qualify(nm, c) for c in self.acq.concrete(self.cls)] if \
                nm.rsplit("::", 1)[0] == self.cls else [self.acq.qualify(nm, self.cls)]
        return [nm]

    def acquired(self, ex, fr, st, node, path):
        self.ctx.count("lock acquisitions")
        if ('H', path) in st.r:
            self.rep(fr, node, "locks again", path, "locks %s, which this operation already holds")
        for h in self.held(st):
            if h != path:
                for a in self.classes(h):
                    for b in self.classes(path):
                        self.edges.append((a, b, fr.where(node)))

    def released(self, ex, fr, st, node, path, how):
        self.ctx.count("lock releases")

    def not_held(self, ex, fr, st, node, path):
        self.rep(fr, node, "unlocks unheld", path, "unlocks %s, which this path does not hold")

    def on_call(self, ex, fr, st, node, targets, recv, args):
        r = self.lock_call(ex, fr, st, node, recv, args)
        if r is not None:
            return r
        held = self.held(st)
        if not held:
            return None
        cn = node.get("cn") or ""
        if cn.startswith("std::") and short(cn) in THROWERS and node.get("tr") is None:
            for h in held:
                if st.r[('H', h)][0] == 'm':
                    self.rep(fr, node, "may throw holding", h, short(cn) + " may throw while %s is locked by hand")
        if cn in JOINS:
            for h in held:
                if set(self.classes(h)) & self.thread_locks(fr.fn["file"]):
                    self.rep(fr, node, "joins holding", h,
                             "waits for a thread to finish while holding %s, which such a thread acquires")
        if cn in WAITS:
            own = set()
            for x in args:
                if x is not None and x[0] == 'L':
                    own |= set(st.r.get(('G', canon(x[1])), ()))
            for h in held:
                if h not in own:
                    self.rep(fr, node, "waits holding", h, "waits while holding %s, which it does not give up")
        if not targets:
            return None
        self.ctx.count("calls made with a lock held")
        self.called(ex, fr, st, node, targets, recv, args, held)
        return None

    def thread_locks(self, file):
        """What the threads started in this file may acquire."""
        memo = self.acq.__dict__.setdefault("threads", {})
        if file not in memo:
            out = set()
            for f in self.prog.F.values():
                if f["file"] == file:
                    for k in thread_entries(self.prog, f):
                        out |= self.acq.get(k, f.get("cls"))
            memo[file] = out
        return memo[file]

    def on_ctor(self, ex, fr, st, node, args):
        if node["cn"] in GUARDS:
            return self.guard_ctor(ex, fr, st, node, args)
        held = self.held(st)
        if held and node.get("c"):
            tg = self.prog.targets(fr.fn, node)
            if tg:
                self.called(ex, fr, st, node, tg, None, args, held)
        return None

    def on_lambda(self, ex, fr, st, node, value):
        pass

    def called(self, ex, fr, st, node, targets, recv, args, held):
        rc = None
        onthis = recv == ('this',) or (recv is not None and recv == fr.this)
        if node.get("recv") is not None:
            rn = fr.prep.nodes[node["recv"]]
            rc = owner_class(self.prog, fr.prep.type(rn)) if rn else None
        if all(self.inline(fr, node, k) for k in targets):
            return      # followed
        call = (node["c"], bool(node.get("virt")), rc, onthis) if node.get("c") else None
        todo = []
        if node["k"] == "ctor":
            todo = [(k, self.prog.F[k].get("cls")) for k in targets]
        elif call is None or self.prog.F[targets[0]].get("lambda"):
            todo = [(k, self.cls) for k in targets]
        elif onthis:
            cl = [self.cls]
            if self.cls:
                cl = self.acq.concrete(self.cls)
            for c in cl:
                for t in self.acq.resolve(fr.key, c, call):
                    ns = self.acq.get(*t)
                    self.edge(fr, node, held, ns, c)
            todo = []
        else:
            todo = self.acq.resolve(fr.key, self.cls, call)
        for t in todo:
            self.edge(fr, node, held, self.acq.get(*t), None)
        # the same object's lock again, in a callee
        for k in targets:
            for p in self.ctx.own.get(k, ()):
                q = self.translate(ex, st, p, recv, args)
                if q is not None and ('H', q) in st.r:
                    self.rep(fr, node, "locks again", q, "calls %s, which locks %%s again" % self.prog.F[k]["qn"])

    def edge(self, fr, node, held, names, cls):
        for h in held:
            if cls is not None and h[0] == 'f' and h[1] == ('d', ('this',)):
                hs = [self.acq.qualify(mutex_name(h), cls)]
            else:
                hs = self.classes(h)
            for a in hs:
                for b in names:
                    if a != b:
                        self.edges.append((a, b, fr.where(node)))

    def translate(self, ex, st, p, recv, args):
        """A callee's lock path in the caller's terms."""
        def sub(v):
            if v == ('this',):
                return recv if recv is not None else ('void',)
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == 'i' and isinstance(v[1], tuple) and v[1][0] == 'P':
                    i = v[1][1]
                    x = args[i] if i < len(args) else None
                    if x is None:
                        return ('void',)
                    return ex.load(None, st, x[1]) if x[0] == 'L' else x
                if v[0] == 'P':
                    i = v[1]
                    x = args[i] if i < len(args) else None
                    return x[1] if x is not None and x[0] == 'L' else ('void',)
                if v[0] == 'd' and isinstance(v[1], tuple):
                    t = sub(v[1])
                    return t[1] if t and t[0] == 'addr' else ('d', t)
                return tuple(sub(x) if isinstance(x, tuple) else x for x in v)
            return v
        return canon(sub(p))

    def on_throw(self, ex, fr, st, node):
        for h in self.held(st):
            if st.r[('H', h)][0] == 'm':
                self.rep(fr, node, "throws holding", h, "throws while %s is locked by hand")

    def on_exit(self, ex, fr, st, value):
        if fr.depth:
            return
        self.ctx.count("returns checked")
        for h in self.held(st):
            how, line = st.r[('H', h)]
            self.rep(fr, None, "leaks", h, "returns on some path with %%s still locked (locked at line %d)" % line)


class Own(LockRule):
    """Collects the locks a function acquires, in terms of its own inputs."""
    def __init__(self, prog, hot, root):
        super().__init__(prog)
        self.hot = hot
        self.paths = set()
        self.pidx = {p["d"]: i for i, p in enumerate(prog.F[root]["params"])}

    def inline(self, fr, node, key):
        return key in self.hot and self.prog.is_helper(key, fr.fn["file"])

    def acquired(self, ex, fr, st, node, path):
        p = self.param(path)
        if p is not None:
            self.paths.add(p)

    def param(self, v):
        ok = [True]

        def sub(x):
            if isinstance(x, tuple) and x:
                if x[0] == 'v' and len(x) == 3:
                    if x[1] == 0 and x[2] in self.pidx:
                        return ('P', self.pidx[x[2]])
                    ok[0] = False
                    return x
                if x[0] in ('s', 'new', 'tmp'):
                    ok[0] = False
                return tuple(sub(y) if isinstance(y, tuple) else y for y in x)
            return x
        w = sub(v)
        return w if ok[0] else None


def own_sets(ctx, prog, hot):
    """key -> lock paths acquired on the function's this and parameters, including by calls on this and by
    handing a parameter on."""
    def one(c, k):
        r = Own(prog, hot, k)
        Exec(prog, r).start(k)
        return k, frozenset(r.paths)
    own = dict(ctx.pmap(one, sorted(hot)))
    own = {k: set(v) for k, v in own.items()}
    callers = prog.callers()
    work = [k for k in own if own[k]]
    acq = Acquires(prog)
    while work:
        k = work.pop()
        for c in callers.get(k, ()):
            f = prog.F[c]
            nodes = f["nodes"]
            pidx = {p["d"]: i for i, p in enumerate(f["params"])}
            add = set()
            for n in nodes:
                if not n or n["k"] not in ("call",) or k not in prog.targets(f, n):
                    continue
                onthis = n.get("recv") is not None and acq.is_this(nodes, n["recv"])

                def sub(v):
                    if v == ('this',):
                        if onthis:
                            return v
                        raise KeyError
                    if isinstance(v, tuple) and v and v[0] == 'P':
                        a = n["args"][v[1]] if v[1] < len(n["args"]) else None
                        m = nodes[a] if a is not None else None
                        while m and m["k"] in ("cast", "ctor"):
                            if m["k"] == "ctor":
                                if m.get("cp") != "copy":
                                    raise KeyError
                                m = nodes[m["args"][0]]
                            else:
                                m = nodes[m["e"]]
                        if m and m["k"] == "ref" and m["d"] in pidx:
                            return ('P', pidx[m["d"]])
                        if m and m["k"] == "mem" and acq.is_this(nodes, m["b"]):
                            return ('f', ('d', ('this',)), m["f"])
                        raise KeyError
                    if isinstance(v, tuple):
                        return tuple(sub(x) if isinstance(x, tuple) else x for x in v)
                    return v
                for p in own[k]:
                    try:
                        add.add(sub(p))
                    except KeyError:
                        pass
            if not add <= own.get(c, set()):
                own.setdefault(c, set()).update(add)
                work.append(c)
    return own


def cycles(edges):
    """Strongly connected components with more than one lock."""
    g = {}
    for a, b, _ in edges:
        if a != b:
            g.setdefault(a, set()).add(b)
            g.setdefault(b, set())
    idx, low, on, stack, out = {}, {}, set(), [], []

    def visit(v):
        idx[v] = low[v] = len(idx)
        stack.append(v)
        on.add(v)
        for w in g[v]:
            if w not in idx:
                visit(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            c = []
            while True:
                w = stack.pop()
                on.discard(w)
                c.append(w)
                if w == v:
                    break
            if len(c) > 1:
                out.append(sorted(c))
    for v in sorted(g):
        if v not in idx:
            visit(v)
    return out


def run(ctx):
    prog = ctx.prog()
    hot = hot_closure(prog, locky(prog))
    callers = prog.callers()
    acq = Acquires(prog)
    ctx.own = own_sets(ctx, prog, hot)
    entries = set()
    for f in prog.F.values():
        entries |= thread_entries(prog, f)
    # helpers, and lambdas that no thread is started with, are followed where they are called
    roots = [k for k in sorted(hot)
             if k in entries or not (prog.is_helper(k) and any(c in hot for c in callers.get(k, ())))]
    for k in roots:
        ctx.sample("followed on every path: " + prog.F[k]["qn"])

    def one(c, k):
        c.own = ctx.own
        rule = Locks(prog, c, hot, acq, k)
        ex = Exec(prog, rule)
        ex.start(k)
        c.count("operations that lock")
        c.explored(ex)
        return rule.edges
    edges = {}
    for es in ctx.pmap(one, roots):
        for a, b, w in es:
            if a != b:
                edges.setdefault((a, b), w)
    ctx.count("ordered lock pairs", len(edges))
    for (a, b), w in sorted(edges.items()):
        ctx.sample("%s before %s at %s" % (pretty(a), pretty(b), w))
    for c in cycles([(a, b, w) for (a, b), w in edges.items()]):
        ws = sorted("%s before %s at %s" % (pretty(a), pretty(b), w)
                    for (a, b), w in edges.items() if a in c and b in c)
        ctx.violation("lock order: " + ", ".join(pretty(x) for x in c), ws[0].split(" at ")[1],
                      "these locks are acquired in different orders: " + "; ".join(ws), ws)
    ctx.floor("operations that lock", 40)
    ctx.floor("lock acquisitions", 80)
