"""Transactions are opened, made ready and closed in order.  (1) Every object whose transaction an operation opens is
followed, also into the container it is kept in and into the threads that use it: on every path out of the operation the
transaction has been committed or aborted, and a commit follows a ready that is known to have succeeded (directly, or in
each worker thread that did not raise the failure flag tested before the commit).  (2) Every class that implements
transactions by opening its members' transactions closes them: a refused open aborts the members already opened, a ready
vote needs every member's, commit commits and abort aborts every member.  (3) The protocol itself: an open is attempted
only when none is open and a ready only inside one, and the votes are kept and returned as given."""
from ..common import *
from ..locks import bare, thread_entries
from .C01_publish import node_id
from ..loops import LoopMixin, elem_value_of, elem_of, natural_loops

ASSUMPTIONS = ["a loop over the objects in a container runs for each of them",
               "a thread's failure flag is raised before the thread ends"]

ACTS = ("transaction", "ready", "commit", "abort")
EXEMPT_FILES = {"apps/dynamic-test.cc"}         # a stress test that asserts its way through


def protocol(prog):
    """classes that define the protocol: plain operations over virtual steps"""
    if getattr(prog, "_protocol", None) is None:
        prog._protocol = {}
        for q, r in prog.R.items():
            ms = {}
            for m in r["methods"]:
                ms.setdefault(m["n"], m)
            if all(a in ms and not ms[a].get("virtual") and a + "_" in ms and ms[a + "_"].get("virtual") for a in ACTS):
                prog._protocol[q] = {a: ms[a] for a in ACTS}
    return prog._protocol


def act_of(prog, node):
    cn = node.get("cn") or ""
    q, _, n = cn.rpartition("::")
    return n if n in ACTS and q in protocol(prog) else None


def step_of(prog, node):
    n = short(node.get("cn") or "")
    return n[:-1] if n.endswith("_") and n[:-1] in ACTS else None


def acting(prog):
    if getattr(prog, "_acting", None) is None:
        prog._acting = prog.closure_pred(lambda f: any(n and n["k"] == "call" and act_of(prog, n) for n in f["nodes"]))
    return prog._acting


def mentions(v, x):
    return v == x or isinstance(v, tuple) and any(mentions(y, x) for y in v)


class Tx(LoopMixin, Rule):
    max_depth = 6
    widen_at = 24
    max_entries = 3
    max_states = 40000
    collapse = False
    asserts = "assume"
    in_order = True

    def __init__(self, prog, ctx, root, mode, closers, workers=None):
        super().__init__(prog)
        self.ctx, self.root, self.mode, self.closers = ctx, root, mode, closers
        self.workers = workers or {}
        self.exits = []
        self.closes = set()
        self.steps = 0

    def nonempty(self, st, loc):
        return ('tx', ('cont', loc)) in st.r

    def inline(self, fr, node, key):
        f = self.prog.F[key]
        if f["qn"].rpartition("::")[0] in protocol(self.prog):
            return False
        if f.get("lambda"):
            return True
        if key in acting(self.prog) and self.prog.is_helper(key, self.prog.F[self.root]["file"]):
            return True
        return False

    # -- which object
    def obj(self, ex, fr, st, v):
        if v is None:
            return None
        if v[0] == 'L':
            v = ex.load(fr, st, v[1])
        if v[0] == 'addr' and v[1][0] == 'd':
            v = v[1][1]
        c = elem_value_of(v)
        if c is not None:
            return ('cont', self.cont(ex, fr, st, c))
        return v

    def cont(self, ex, fr, st, loc):
        for _ in range(4):
            v = st.env.get(loc)
            if v is not None and v[0] == 'ref':
                loc = v[1]
            elif v is not None and v[0] == 'i' and v[1][0] in ('v', 'f', 'd') and loc[0] == 'v':
                loc = v[1]
            else:
                break
        return loc

    def keep_cons(self, st, key):
        return any(k[0] in ('tx', 'rd') and isinstance(v, tuple) and v == key for k, v in st.r.items()) or \
            any(v == key and loc[0] == 'v' and self.prog.is_bool_local(loc[2]) for loc, v in st.env.items())

    def keep_value(self, st, loc, v):
        if self.mode == "step" and loc[0] == 'f' and loc[1] == ('d', ('this',)) and v[0] == 'c':
            return True
        return loc[0] == 'v' and (loc[2] in objects(self.prog) or v[0] == 'op' and v[1] in ("begin", "next") or v[0] == 'c' and self.prog.is_bool_local(loc[2]) or any(k[0] == 'tx' and k[1] == v for k in st.r))

    def keep_local(self, st, loc):
        return False

    # -- calls
    def on_call(self, ex, fr, st, node, targets, recv, args):
        cn = node.get("cn") or ""
        act = act_of(self.prog, node)
        if act is not None:
            self.steps += 1
            o = self.obj(ex, fr, st, recv)
            return self.act(ex, fr, st, node, act, o)
        if cn.startswith("std::") and "atomic" in cn and recv is not None and recv[0] == 'addr':
            n, loc = short(cn), recv[1]
            vs = [ex.load(fr, st, a[1]) if a is not None and a[0] == 'L' else a for a in args or ()]
            if n == "load" or n.startswith("operator ") or n == "operator bool":
                return ('val', ex.load(fr, st, loc))
            if n in ("store", "exchange", "operator="):
                old = ex.load(fr, st, loc)
                if vs and vs[0] is not None:
                    ex.write(fr, st, dict(node, _id=node.get("_id", -1)), loc, vs[0])
                return ('val', old if n == "exchange" else vs[0] if vs else ('void',))
            return None
        if targets and len(targets) == 1 and recv is not None and not args:
            fd = accessor(self.prog, targets[0])
            if fd:
                loc = ('f', recv[1] if recv[0] == 'addr' else ('d', recv), fd)
                return ('val', ex.read(st, loc))
        r = self.iter_call(ex, fr, st, node, recv, args)
        if r is not None:
            return r
        if cn.startswith("std::") and recv is not None and recv[0] == 'addr' and \
                short(cn) in ("push_back", "emplace_back", "insert", "emplace", "operator=", "push_front", "assign"):
            for a in args or ():
                o = self.obj(ex, fr, st, a)
                if ('tx', o) in st.r and o[0] != 'cont':
                    c = ('cont', self.cont(ex, fr, st, recv[1])) if short(cn) != "operator=" else None
                    if c is None:
                        continue
                    s = st.r.pop(('tx', o))
                    st.r.pop(('rd', o), None)
                    st.r[('tx', c)] = s
            return None
        if targets and not any(self.inline(fr, node, k) for k in targets):
            for i, a in enumerate(args or ()):
                if any((k, i) in self.closers for k in targets):
                    self.close(ex, fr, st, node, self.obj_arg(ex, fr, st, a), None)
        return None

    def obj_arg(self, ex, fr, st, a):
        """an argument that is an object or a container of objects"""
        o = self.obj(ex, fr, st, a)
        if ('tx', o) in st.r:
            return o
        for loc in ((a[1],) if a is not None and a[0] in ('L', 'addr') else ()) + \
                ((o[1],) if o is not None and o[0] in ('i', 'addr') and isinstance(o[1], tuple) else ()):
            c = ('cont', self.cont(ex, fr, st, loc))
            if ('tx', c) in st.r:
                return c
        return o

    def act(self, ex, fr, st, node, act, o):
        if o is None:
            return None
        if act == "transaction":
            s = ex.sym(st, fr, node.get("_id", 0))
            if s == o:
                s = s[:3] + ('t',)
            yes, no = st.copy(), st.copy()
            yes.r[('tx', o)] = fr.where(node)
            yes.r.pop(('rd', o), None)
            if self.mode == "step":
                yes.r.pop(('cl', o), None)
            return ('fork', [(yes, TRUE), (no, NULL)])
        if act == "ready":
            yes, no = st.copy(), st.copy()
            yes.r[('rd', o)] = 'yes'
            no.r[('rd', o)] = 'no'
            return ('fork', [(yes, TRUE), (no, NULL)])
        self.close(ex, fr, st, node, o, act)
        return ('val', ('void',))

    def close(self, ex, fr, st, node, o, act):
        if o is None:
            return
        if ('tx', o) not in st.r:
            v = o[1] if o[0] == 'cont' else o
            self.closes.add(v)
        if act == "commit" and self.mode != "step" and not self.readied(ex, fr, st, o):
            if ('tx', o) in st.r or st.r.get(('rd', o)) == 'no':
                self.ctx.violation("%s: commit without a successful ready" % fr.fn["qn"], fr.where(node),
                                   "commits a transaction that is not known to have become ready", fr.chain())
        if act is None and ('tx', o) in st.r and not self.readied(ex, fr, st, o):
            self.ctx.violation("%s: commit without a successful ready" % fr.fn["qn"], fr.where(node),
                               "hands transactions that are not known to have become ready to be committed", fr.chain())
        st.r.pop(('tx', o), None)
        st.r.pop(('rd', o), None)
        st.r[('cl', o)] = act or 'commit'

    def readied(self, ex, fr, st, o):
        r = st.r.get(('rd', o))
        if r == 'yes':
            return True
        if r == 'no':
            return False
        for names, flags in self.workers.values():
            if o[0] == 'cont' and o[1][0] == 'v' and o[1][2] in names:
                for g in flags:
                    for loc in ({k for k in st.env if k[0] == 'v' and k[2] == g} | {('v', fr.id, g)}):
                        if ex.truth(st, ex.read(st, loc)) is False:
                            return True
        return False

    # -- loops
    def on_edge(self, ex, fr, st, block, to):
        info = loop_info(self.prog, fr.fn, self.closers).get(block["id"])
        if not info:
            return
        body, refs, acts = info
        if to in body:
            return
        conts = {k[1] for k in st.r if k[0] == 'tx' and k[1][0] == 'cont'}
        if not conts:
            return
        for d in refs:
            loc = ('v', fr.id, d)
            if fr.cap and d in fr.cap:
                loc = fr.cap[d]
            v = st.env.get(loc)
            locs = {loc, self.cont(ex, fr, st, loc)}
            if v is not None and v[0] == 'op' and v[1] in ("begin", "next"):
                locs.add(v[2][1])
            for c in conts:
                if c[1] in locs:
                    if 'commit' in acts or 'abort' in acts:
                        st.r.pop(('tx', c), None)
                        st.r.pop(('rd', c), None)
                        self.ctx.count("loops that close")
                    elif 'ready' in acts and ('rd', c) not in st.r:
                        st.r[('rd', c)] = 'yes'

    def elem_fact(self, k):
        return False

    def on_lambda(self, ex, fr, st, node, value):
        if value[1] not in self.workers:
            return
        for c in value[2]:
            if c[0] != "this" and c[1] and c[2] is not None and isinstance(c[2], tuple) and c[2][0] == 'v' and \
                    any(c[2][2] in flags for _, flags in self.workers.values()):
                st.env[c[2]] = ('s', fr.id, node_id(fr, node), c[2][2])

    # -- the rest
    def on_write(self, ex, fr, st, node, loc, value):
        if self.mode == "worker" and loc[0] == 'v':
            if value == TRUE:
                st.r[('up', loc[2])] = 1
            else:
                st.r.pop(('up', loc[2]), None)

    def on_assume(self, ex, fr, st, v, truth):
        if self.mode == "worker" and truth:
            for loc in ({v[1]} if v[0] == 'i' else set()) | {k for k, x in st.env.items() if x == v}:
                if loc[0] == 'v':
                    st.r[('up', loc[2])] = 1
        if self.mode == "step" and v[0] == 'i' and v[1][0] == 'f':
            st.r[('as', v[1][2])] = truth

    def on_refresh(self, st, s):
        for k in [k for k in st.r if k[0] in ('tx', 'rd', 'cl') and mentions(k[1], s)]:
            if k[0] == 'tx':
                self.ctx.violation("%s: transaction lost" % self.prog.F[self.root]["qn"], st.r[k],
                                   "opens a transaction that a later round of the loop forgets without closing it")
            del st.r[k]

    def on_return(self, ex, fr, st, node, value):
        if not fr.depth and value is not None:
            for k in [k for k in st.r if k[0] == 'tx' and mentions(value, k[1])]:
                del st.r[k]

    def on_exit(self, ex, fr, st, value):
        if fr.depth:
            return
        t = ex.truth(st, value) if value is not None and value[0] != 'void' else None
        self.exits.append((t, {k: v for k, v in st.r.items()}, st, value))


def loop_info(prog, fn, closers):
    memo = fn.get("_loops09")
    if memo is None:
        memo = fn["_loops09"] = {}
        nodes = fn["nodes"]
        blocks = {b["id"]: b for b in fn["blocks"]}
        from ..engine import _children
        for h, body in natural_loops(fn):
            refs, acts = set(), set()
            todo, seen = [], set()
            for b in body:
                for e in blocks[b]["e"]:
                    if isinstance(e, int):
                        todo.append(e)
                t = blocks[b].get("t")
                if t and isinstance(t.get("c"), int):
                    todo.append(t["c"])
            while todo:
                i = todo.pop()
                if i in seen or not isinstance(i, int) or not nodes[i]:
                    continue
                seen.add(i)
                n = nodes[i]
                if n["k"] == "ref":
                    refs.add(n["d"])
                if n["k"] == "decl":
                    todo += [v["init"] for v in n["vars"] if isinstance(v.get("init"), int)]
                if n["k"] == "call":
                    a = act_of(prog, n)
                    if a:
                        acts.add(a)
                    else:
                        for k in prog.targets(fn, n):
                            acts |= direct_acts(prog, k)
                todo += list(_children(n))
            if acts:
                memo[h] = (body, refs, acts)
    return memo


def direct_acts(prog, key, depth=3):
    memo = prog.__dict__.setdefault("_dacts", {})
    if key in memo:
        return memo[key]
    memo[key] = set()
    f = prog.F[key]
    if f["qn"].rpartition("::")[0] in protocol(prog) or not depth or key not in acting(prog):
        return memo[key]
    out = set()
    for n in f["nodes"]:
        if n and n["k"] == "call":
            a = act_of(prog, n)
            if a:
                out.add(a)
            elif depth and n.get("c"):
                for k in prog.targets(f, n):
                    if prog.F[k].get("lambda") or prog.is_helper(k):
                        out |= direct_acts(prog, k, depth - 1)
    memo[key] = out
    return out


def derived(prog, q, seen=()):
    if q in protocol(prog):
        return True
    r = prog.R.get(q)
    return bool(r) and q not in seen and any(derived(prog, b if isinstance(b, str) else b.get("q") or b.get("n"), seen + (q,))
                                             for b in r.get("bases") or ())


def objects(prog):
    """locals that hold an object with transactions"""
    if getattr(prog, "_txobjects", None) is None:
        names = {q.rsplit("::", 1)[-1] for q in prog.R if derived(prog, q)}
        out = set()
        for f in prog.F.values():
            for n in f["nodes"]:
                if n and n["k"] == "decl":
                    for v in n["vars"]:
                        t = bare(f["types"][v["t"]])
                        if t.endswith("*") or "_ptr<" in t.split("<")[0] + "<":
                            if t.count("<") <= 1 and t.rstrip("*&> ").rsplit("::", 1)[-1].rsplit("<", 1)[-1].strip() in names:
                                out.add(v["d"])
        prog._txobjects = out
    return prog._txobjects


def accessor(prog, key):
    """the member an operation does nothing but return"""
    f = prog.F[key]
    if f.get("virtual") or len(f["nodes"]) > 8:
        return None
    ms = [n for n in f["nodes"] if n and n["k"] == "mem"]
    if len(ms) == 1 and f["nodes"][ms[0]["b"]]["k"] == "this" and \
            all(n["k"] in ("this", "mem", "ctor", "ret", "cast") for n in f["nodes"] if n):
        return ms[0]["f"]
    return None


class Quiet:
    def count(self, *a): pass

    def violation(self, *a): pass


def worker_summary(prog, key, closers):
    """containers whose elements a thread makes ready, and the flags it raises whenever it does not"""
    r = Tx(prog, Quiet(), key, "worker", closers)
    ex = Exec(prog, r)
    ex.start(key, State())
    own = {p["d"] for p in prog.F[key]["params"]}
    names, flags = set(), None
    for t, facts, st, value in r.exits:
        ready = {k[1][1] for k, v in facts.items() if k[0] == 'rd' and v == 'yes' and k[1][0] == 'cont'}
        names |= {loc[2] for loc in ready if loc[0] == 'v'}
        if ready:
            continue
        up = {k[1] for k in facts if k[0] == 'up'} - own
        flags = up if flags is None else flags & up
    return names, flags or set()


def follow(ctx, prog, key, mode, closers, workers=None):
    r = Tx(prog, ctx, key, mode, closers, workers)
    ex = Exec(prog, r)
    ex.start(key, State())
    ctx.explored(ex)
    return r


def member(st, key, o):
    """the member of the object itself that o is"""
    if o[0] == 'i' and o[1][0] == 'f':
        return o[1][2]
    for loc, v in st.env.items():
        if loc[0] == 'f' and v == o:
            return loc[2]
    return None


def operations(ctx, prog, closers):
    acting_set = acting(prog)
    roots = []
    for k, f in sorted(prog.F.items()):
        if k not in acting_set or f["file"] in EXEMPT_FILES or f["qn"].rpartition("::")[0] in protocol(prog):
            continue
        if step_of(prog, {"cn": f["qn"]}) and f.get("cls"):
            continue
        if not direct_acts(prog, k):
            continue
        roots.append(k)
    called = {}
    for k in roots:
        if prog.is_helper(k) and not prog.F[k].get("lambda"):
            called[k] = bool(prog.callers().get(k))
    threads = {}
    for f in prog.F.values():
        for t in thread_entries(prog, f):
            threads.setdefault(t, []).append(f)

    def one(c, k):
        f = prog.F[k]
        workers = {t: worker_summary(prog, t, closers) for t in thread_entries(prog, f) if t in acting_set}
        quiet = called.get(k) or f.get("lambda") and k not in threads
        r = follow(c if not quiet else Quiet() if False else c, prog, k, "op", closers, workers)
        c.count("operations followed")
        c.count("protocol steps followed", r.steps)
        if quiet:
            return
        c.count("exits", len(r.exits))
        contract = {}
        for t, facts, st, value in r.exits:
            for o in {x[1] for x in facts if x[0] in ('tx', 'cl')}:
                given = o[0] == 'i' or o[0] == 'cont' and o[1][0] not in ('v',)
                if t is not False and given:
                    contract.setdefault(o, set()).add(('tx', o) in facts)
        for t, facts, st, value in r.exits:
            for x in facts:
                if x[0] != 'tx':
                    continue
                o = x[1]
                if contract.get(o) == {True} and t is not False:
                    continue
                if member(st, k, o) and contract.get(member(st, k, o)) == {True}:
                    continue
                c.violation("%s: transaction left open" % f["qn"], facts[x],
                            "opens a transaction and %s without committing or aborting it" %
                            ("reports failure" if t is False else "returns"))
    ctx.count("operations that take part in transactions", len(roots))
    ctx.pmap(one, roots)


def steps(ctx, prog, closers):
    """classes whose steps pass the transaction on to members"""
    def final(q, name, seen=()):
        r = prog.R.get(q)
        if r is None or q in seen:
            return None
        for m in r["methods"]:
            if m["n"] == name and m.get("key") in prog.F:
                return m["key"]
        for b in r.get("bases") or ():
            k = final(b if isinstance(b, str) else b.get("q") or b.get("n"), name, seen + (q,))
            if k:
                return k
        return None

    sets = {}
    for q in sorted(prog.R):
        if derived(prog, q) and q not in protocol(prog):
            ks = tuple(final(q, a + "_") for a in ACTS)
            if ks[0] and any(ks[1:]):
                sets.setdefault(ks, q)
    memo = {}

    def run1(c, k):
        if k is None or prog.F[k]["qn"].rpartition("::")[0] in protocol(prog):
            return []
        r = follow(c, prog, k, "step", closers)
        out = []
        for t, facts, st, value in r.exits:
            g = {}
            for x, v in facts.items():
                if x[0] in ('tx', 'rd', 'cl'):
                    m = member(st, k, x[1])
                    g[x[0], m or '?'] = v
                elif x[0] == 'as':
                    g[x] = v
            for loc, v in st.env.items():
                if loc[0] == 'f' and loc[1] == ('d', ('this',)) and v[0] == 'c':
                    g['at', loc[2]] = v != NULL
            if t is None and value is not None and value[0] != 'void':
                ex = Exec(prog, r)
                t = 'unknown'
            null = {loc[2] for loc in {x[1] for x in st.cons if x[0] == 'i' and x[1][0] == 'f'} if
                    Exec(prog, r).truth(st, ('i', loc)) is False}
            out.append((t, g, null))
        return out
    keys = sorted({k for ks in sets for k in ks if k})
    memo = dict(zip(keys, ctx.pmap(run1, keys)))
    for ks, q in sorted(sets.items(), key=lambda x: x[1]):
        opened, after = set(), {}
        kinds = {fd["q"] if "q" in fd else c + "::" + fd["n"]: bare(fd["t"]) for c in {q} | set(prog.superclasses(q)) if c in prog.R
                 for fd in prog.R[c]["fields"]}

        def idle(g):
            """what was tested cannot be so while a transaction is open"""
            for x, truth in g.items():
                if x[0] == 'as':
                    if kinds.get(x[1]) in ("bool", "_Bool"):
                        if after.get(x[1]) is (not truth) or truth and after.get(x[1]) is None:
                            return True
                    elif not truth:
                        return True
            return False
        where = lambda k: "%s:%d (%s)" % (prog.F[k]["file"], prog.F[k]["line"], prog.F[k]["qn"])
        for t, g, null in memo.get(ks[0]) or ():
            op = {m for (a, m) in g if a == 'tx'}
            if t is False:
                for m in op:
                    ctx.violation("%s: refused open leaves %s open" % (prog.F[ks[0]]["qn"], m), where(ks[0]),
                                  "refuses to open a transaction but leaves that of its member %s open" % m)
            else:
                opened |= op
                for x, v in [(x, v) for x, v in g.items() if x[0] == 'as'] + [(x, v) for x, v in g.items() if x[0] == 'at']:
                    after[x[1]] = v if after.get(x[1], v) == v else None
        if not opened:
            continue
        ctx.count("classes that pass transactions on")
        ctx.sample("%s passes transactions on to %s" % (q, ", ".join(sorted(map(str, opened)))))
        flags = {fd["n"]: fd for c in [q] for fd in (prog.R[q]["fields"])}
        for a, k in zip(ACTS[1:], ks[1:]):
            if k is None:
                continue
            for t, g, null in memo.get(k) or ():
                if a == "ready" and t is False:
                    continue
                for m in sorted(map(str, opened)):
                    ctx.count("member obligations")
                    ok = g.get(('rd', m)) == 'yes' if a == "ready" else g.get(('cl', m)) == a
                    if ok or m in null or a != "ready" and idle(g) and not any(x[0] == 'cl' for x in g):
                        continue
                    ctx.violation("%s: %s not passed on" % (prog.F[k]["qn"], a), where(k),
                                  {"ready": "votes ready on a path on which its member %s has not",
                                   "commit": "does not commit its member %s on every path",
                                   "abort": "does not abort its member %s on every path"}[a] % m)


class Proto(Rule):
    max_depth = 3
    asserts = "assume"
    collapse = False

    def __init__(self, prog, ctx, root):
        super().__init__(prog)
        self.ctx, self.root, self.exits, self.calls = ctx, root, [], []

    def inline(self, fr, node, key):
        return self.prog.is_helper(key) and not self.prog.F[key].get("virtual")

    def keep_cons(self, st, key):
        return True

    def on_call(self, ex, fr, st, node, targets, recv, args):
        a = step_of(self.prog, node)
        if a and node.get("virt"):
            st.r[('step', a)] = tuple(sorted((k[1][2], ex.truth(st, ex.read(st, k[1]))) for k in
                                             [('f', loc) for loc in self.fields(st)] if True and
                                             ex.truth(st, ex.read(st, k[1])) is not None))
            s = ex.sym(st, fr, node.get("_id", 0))
            st.r['res'] = s
            return ('val', s)
        return None

    def fields(self, st):
        return {k for k in st.env if k[0] == 'f'} | {k[1] for k in st.cons if k[0] == 'i' and k[1][0] == 'f'}

    def on_exit(self, ex, fr, st, value):
        if not fr.depth:
            fs = {loc[2]: ex.read(st, loc) for loc in self.fields(st)}
            self.exits.append((value, ex.truth(st, value) if value and value[0] != 'void' else None,
                               {n: (v, ex.truth(st, v)) for n, v in fs.items()}, dict(st.r)))


def automaton(ctx, prog):
    """the protocol class itself"""
    for q, ms in sorted(protocol(prog).items()):
        ex = {}
        for a in ACTS:
            k = ms[a].get("key")
            if k not in prog.F:
                ctx.errors.append("no body for %s::%s" % (q, a))
                return
            r = Proto(prog, ctx, k)
            Exec(prog, r).start(k, State())
            ex[a] = (k, r.exits)
            ctx.count("protocol exits", len(r.exits))

        def bad(a, key, text):
            f = prog.F[ex[a][0]]
            ctx.violation("%s: %s" % (f["qn"], key), "%s:%d (%s)" % (f["file"], f["line"], f["qn"]), text)

        # the field that says a transaction is open: false whenever an open is attempted, true whenever a ready is
        started = None
        for v, t, fs, r in ex["transaction"][1]:
            if ('step', 'transaction') in r:
                c = {n for n, b in r['step', 'transaction'] if b is False}
                started = c if started is None else started & c
        ready = None
        for v, t, fs, r in ex["ready"][1]:
            if ('step', 'ready') in r:
                c = {n for n, b in r['step', 'ready'] if b is True}
                ready = c if ready is None else ready & c
        if not started:
            bad("transaction", "open not refused", "attempts to open a transaction without having tested that none is open")
            continue
        if not ready:
            bad("ready", "ready not refused", "asks for a vote without having tested that a transaction is open")
            continue
        both = started & ready
        if not both:
            bad("ready", "different states", "tests for an open transaction differ between opening and voting")
            continue
        keep = set(both)
        for v, t, fs, r in ex["transaction"][1]:
            res = r.get('res')
            if ('step', 'transaction') in r:
                both &= {n for n in both if n in fs and (fs[n][0] == res or fs[n][1] is not None and fs[n][1] == t)}
                if v != res and not (t is not None and any(fs.get(n, (0, 0))[1] == t for n in keep)):
                    bad("transaction", "result lost", "does not return whether the transaction was opened")
            elif t is not False:
                bad("transaction", "second open accepted", "reports success without opening a transaction")
        if not both:
            bad("transaction", "state not kept", "does not remember whether the transaction was opened")
        votes = None
        for v, t, fs, r in ex["ready"][1]:
            if ('step', 'ready') in r:
                res = r['res']
                if v != res:
                    bad("ready", "vote lost", "does not return the vote it was given")
                got = {n for n, x in fs.items() if x[0] == res}
                votes = got if votes is None else votes & got
        for v, t, fs, r in ex["ready"][1]:
            if ('step', 'ready') not in r and t is not False:
                if not (v and v[0] == 'i' and v[1][0] == 'f' and v[1][2] in (votes or ())):
                    bad("ready", "vote made up", "reports ready without having asked for a vote or kept one")
        for v, t, fs, r in ex["transaction"][1]:
            if ('step', 'transaction') in r and votes and t is not False:
                if not any(n in fs and fs[n][1] is False for n in votes):
                    bad("transaction", "old vote kept", "opens a transaction without clearing the last vote")
        for a in ("commit", "abort"):
            for v, t, fs, r in ex[a][1]:
                if not any(n in fs and fs[n][1] is False for n in both or keep):
                    bad(a, "still open", "ends a transaction but leaves it marked open")
                if a == "commit" and ('step', 'commit') not in r:
                    bad(a, "commit skipped", "ends a transaction without committing it")
                if a == "abort" and ('step', 'abort') not in r and not any(n in fs for n in keep):
                    bad(a, "abort skipped", "ends a transaction without aborting it")


def run(ctx):
    prog = ctx.prog()
    ctx.count("protocol classes", len(protocol(prog)))
    automaton(ctx, prog)
    # operations that close a transaction they did not open
    closers = set()
    cand = sorted(k for k in acting(prog) if {"commit", "abort"} & direct_acts(prog, k) and not prog.F[k].get("lambda"))

    def learn(c, k):
        r = Tx(prog, Quiet(), k, "learn", set())
        Exec(prog, r).start(k, State())
        out = set()
        for i, p in enumerate(prog.F[k]["params"]):
            if any(mentions(v, ('v', 0, p["d"])) for v in r.closes):
                out.add((k, i))
        return out
    for s in ctx.pmap(learn, cand):
        closers |= s
    ctx.count("operations that close what they are given", len(closers))
    operations(ctx, prog, closers)
    steps(ctx, prog, closers)
    ctx.floor("operations followed", 10)
    ctx.floor("classes that pass transactions on", 4)
    ctx.floor("protocol classes", 1)
