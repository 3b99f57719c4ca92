"""Interprocedural, path-sensitive dataflow engine over the extracted CFGs.

A finite-state abstract interpretation: values are symbolic access paths
(no solver, no concrete execution), states carry truth facts about those
values, and each rule adds its own typestate.  Helpers are inlined along the
resolved call graph, so a rule sees the same events whether the code is
written in one function or in several.
"""
import sys
from heapq import heappop, heappush
from collections import defaultdict

sys.setrecursionlimit(20000)

NULL = ('c', 0)
EMPTY = ("str", "")
TRUE = ('c', 1)


class Program:
    def __init__(self, data):
        self.data = data
        self.F = data["functions"]
        self.R = data["records"]
        self.config = data["config"]
        self.by_qn = defaultdict(list)
        self.by_name = defaultdict(list)
        self.overriders = defaultdict(set)
        self.derived = defaultdict(set)
        for k, f in self.F.items():
            self.by_qn[f["qn"]].append(k)
            self.by_name[f["name"]].append(k)
            f["_key"] = k
        self.method_decl = {}
        for qn, r in self.R.items():
            for b in r["bases"]:
                self.derived[b].add(qn)
            for m in r["methods"]:
                self.method_decl[m["key"]] = (qn, m)
                for o in m["overrides"]:
                    self.overriders[o].add(m["key"])
        self._closure = {}
        self._prep = {}
        self._callers = None
        self._mods = None
        self._callees = {}

    # -- classes -----------------------------------------------------------
    def subclasses(self, qn):
        out, todo = set(), [qn]
        while todo:
            c = todo.pop()
            if c in out:
                continue
            out.add(c)
            todo.extend(self.derived.get(c, ()))
        return out

    def superclasses(self, qn):
        out, todo = [], [qn]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            r = self.R.get(c)
            if r:
                todo.extend(r["bases"])
        return out

    def all_fields(self, qn):
        res = []
        for c in self.superclasses(qn):
            r = self.R.get(c)
            if r:
                res.extend(r["fields"])
        return res

    # -- call resolution ---------------------------------------------------
    def is_helper(self, key, file=None):
        """A part of its callers rather than an interface: internal linkage,
        private member, or lambda (in `file` when given)."""
        f = self.F[key]
        if file is not None and f["file"] != file and f["file"].rsplit(".", 1)[0] != file.rsplit(".", 1)[0]:
            return False
        if f.get("lambda") or f.get("anon") or f.get("static_fn"):
            return True
        if f.get("cls"):
            return f.get("access") in ("private", "protected") and not f.get("virtual")
        return "." in key.split("@")[0] or "@aN@" in key   # a file in its symbol: internal linkage

    def is_static(self, key):
        """a static member"""
        if not hasattr(self, "_statics"):
            self._statics = {m["key"] for r in self.R.values() for m in r["methods"] if m.get("static")}
        return key in self._statics

    def is_bool_local(self, d):
        if not hasattr(self, "_bools"):
            self._bools = set()
            for f in self.F.values():
                for p in f["params"]:
                    if f["types"][p["t"]] == "bool":
                        self._bools.add(p["d"])
                for n in f["nodes"]:
                    if n and n["k"] == "decl":
                        for v in n["vars"]:
                            if f["types"][v["t"]] == "bool":
                                self._bools.add(v["d"])
        return d in self._bools

    def small_helper(self, key, file, size=80):
        return len(self.F[key]["nodes"]) <= size and self.is_helper(key, file)

    def override_closure(self, key):
        if key in self._closure:
            return self._closure[key]
        out, todo = set(), [key]
        while todo:
            k = todo.pop()
            if k in out:
                continue
            out.add(k)
            todo.extend(self.overriders.get(k, ()))
        self._closure[key] = out
        return out

    def lookup(self, key, file=None):
        if file is not None:
            k = key + "@" + file
            if k in self.F:
                return k
        return key if key in self.F else None

    def targets(self, fn, node):
        """Keys of the defined functions a call node may reach."""
        key = node.get("c")
        if not key:
            return []
        if node.get("virt"):
            return sorted(k for k in self.override_closure(key) if k in self.F)
        k = self.lookup(key, fn["file"])
        return [k] if k else []

    def callees(self, key):
        """Defined functions called (or whose lambda is created) in `key`."""
        if key in self._callees:
            return self._callees[key]
        fn = self.F[key]
        out = set()
        for n in fn["nodes"]:
            if n["k"] in ("call", "ctor"):
                out.update(self.targets(fn, n))
            elif n["k"] == "lambda":
                if n["fn"] in self.F:
                    out.add(n["fn"])
            elif n["k"] == "ref" and n.get("dk") == "func":
                k = self.lookup(n["d"], fn["file"])
                if k:
                    out.add(k)
        self._callees[key] = out
        return out

    def callers(self):
        if self._callers is None:
            c = defaultdict(set)
            for k in self.F:
                for t in self.callees(k):
                    c[t].add(k)
            self._callers = c
        return self._callers

    def reach(self, key, stop=None):
        out, todo = set(), [key]
        while todo:
            k = todo.pop()
            if k in out:
                continue
            out.add(k)
            if stop and k != key and stop(k):
                continue
            todo.extend(self.callees(k))
        return out

    def closure_pred(self, pred):
        """Functions that satisfy pred or transitively call one that does."""
        base = {k for k, f in self.F.items() if pred(f)}
        callers = self.callers()
        out, todo = set(), list(base)
        while todo:
            k = todo.pop()
            if k in out:
                continue
            out.add(k)
            todo.extend(callers.get(k, ()))
        return out

    def mods(self):
        """field names each function may write, transitively."""
        if self._mods is not None:
            return self._mods
        direct = {}
        for k, f in self.F.items():
            s = set()
            for n in f["nodes"]:
                if n["k"] == "mem" and n.get("acc") in ("W", "RW", "ADDR", "REF", "CALLM", "DECAY"):
                    s.add(n["f"])
            for b in f.get("blocks", ()):
                for e in b["e"]:
                    if isinstance(e, dict) and "init" in e:
                        pass
            direct[k] = s
        callers = self.callers()
        res = {k: set(v) for k, v in direct.items()}
        work = list(self.F)
        inq = set(work)
        while work:
            k = work.pop()
            inq.discard(k)
            s = res[k]
            for c in callers.get(k, ()):
                if not s <= res[c]:
                    res[c] |= s
                    if c not in inq:
                        inq.add(c)
                        work.append(c)
        self._mods = res
        return res

    # -- per function preparation -------------------------------------------
    def prep(self, key):
        p = self._prep.get(key)
        if p is None:
            p = self._prep[key] = Prep(self.F[key])
        return p


def _children(n):
    k = n["k"]
    out = []
    for f in ("b", "e", "a", "c", "i", "recv", "init", "size", "fe"):
        v = n.get(f)
        if isinstance(v, int) and not isinstance(v, bool):
            if f == "c" and k in ("call", "ctor"):
                continue
            if f == "init" and k == "decl":
                continue
            out.append(v)
    for f in ("args", "ch", "pl"):
        v = n.get(f)
        if v:
            out.extend(x for x in v if isinstance(x, int))
    if k == "decl":
        out.extend(v["init"] for v in n["vars"] if isinstance(v.get("init"), int))
    if k == "lambda":
        out.extend(c["init"] for c in n["caps"] if isinstance(c.get("init"), int))
    return out


class Prep:
    def __init__(self, fn):
        self.fn = fn
        self.nodes = fn["nodes"]
        self.blocks = {b["id"]: b for b in fn.get("blocks", ())}
        self.entry = fn.get("entry")
        self.exit = fn.get("exit")
        self.types = fn["types"]
        self.where = {}
        for b in self.blocks.values():
            for e in b["e"]:
                if isinstance(e, int):
                    self.where[e] = b["id"]
        # consumers in another block
        self.cross = set()
        for nid, n in enumerate(self.nodes):
            if n is None:
                continue
            for c in _children(n):
                # through orphan nodes (default args...), be conservative
                if c in self.where and self.where.get(nid) != self.where[c]:
                    self.cross.add(c)
        for b in self.blocks.values():
            t = b.get("t")
            if t and t.get("c") is not None and self.where.get(t["c"]) != b["id"]:
                self.cross.add(t["c"])
            for e in b["e"]:
                if isinstance(e, dict) and e.get("e") is not None:
                    if self.where.get(e["e"]) not in (None, b["id"]):
                        self.cross.add(e["e"])
        # who consumes a short-circuit operand
        self.bparent = {}
        for nid, n in enumerate(self.nodes):
            if n is None:
                continue
            if n["k"] == "bin" and n["op"] in ("&&", "||"):
                self.bparent[n["a"]] = (nid, "a")
                self.bparent[n["b"]] = (nid, "b")
            elif n["k"] == "un" and n["op"] == "!" or n["k"] == "cast":
                self.bparent[n["e"]] = (nid, n.get("op") or "cast")
        self.handlers = {}
        for b in self.blocks.values():
            lab = b.get("lab")
            if lab and lab.get("k") == "CXXCatchStmt" and "try" in lab:
                self.handlers.setdefault(lab["try"], []).append(b["id"])
        self._liveness()

    def _uses(self, nid):
        n = self.nodes[nid]
        if n["k"] == "ref" and n.get("dk") in ("local", "param"):
            return n["d"]
        return None

    def _liveness(self):
        nodes = self.nodes
        self.pinned = set()   # address taken / captured / reference-bound
        for n in nodes:
            if n is None:
                continue
            if n["k"] == "ref" and n.get("dk") in ("local", "param"):
                if n.get("acc") in ("ADDR", "REF", "CAPTURE", "DECAY"):
                    self.pinned.add(n["d"])
            if n["k"] == "lambda":
                for c in n["caps"]:
                    self.pinned.add(c["d"])
        use, kill = {}, {}
        # temps crossing blocks: live from definition to last consumer
        consumers = defaultdict(set)
        parent = {}
        for nid, n in enumerate(nodes):
            if n is not None:
                for c in _children(n):
                    parent[c] = nid
        self.parent = parent
        for nid, n in enumerate(nodes):
            if n is None:
                continue
            for c in _children(n):
                if c in self.cross:
                    b = self.where.get(nid)
                    if b is not None:
                        consumers[b].add(('t', c))
                    elif n["k"] == "bin" and n["op"] in ("&&", "||"):
                        # a branch condition; part of an enclosing value?
                        x = nid
                        while x is not None and x not in self.where:
                            pp = parent.get(x)
                            x = pp if pp is not None and nodes[pp]["k"] in ("bin", "un", "cast") else None
                        if x is not None:
                            consumers[self.where[x]].add(('t', c))
                    else:
                        self.pinned.add(('t', c))
        for bid, b in self.blocks.items():
            u, k = set(), set()
            for e in b["e"]:
                if isinstance(e, dict):
                    if "dt" in e:
                        u.add(e["dt"])
                    continue
                n = nodes[e]
                if n["k"] == "ref" and n.get("dk") in ("local", "param"):
                    if n.get("acc") == "W" and n["d"] not in k and n["d"] not in u and not n.get("isref"):
                        # assignment target; treat as kill only if scalar write
                        k.add(n["d"])
                    elif n["d"] not in k:
                        u.add(n["d"])
                elif n["k"] == "decl":
                    for v in n["vars"]:
                        if v["d"] not in u:
                            k.add(v["d"])
            for t in consumers.get(bid, ()):
                if self.where.get(t[1]) != bid:
                    u.add(t)
            t = b.get("t")
            if t and t.get("c") in self.cross and self.where.get(t["c"]) != bid:
                u.add(('t', t["c"]))
            for e in b["e"]:
                if isinstance(e, int) and e in self.cross:
                    k.add(('t', e))
            use[bid], kill[bid] = u, k
        live_in = {b: set() for b in self.blocks}
        live_out = {b: set() for b in self.blocks}
        changed = True
        preds = defaultdict(list)
        for bid, b in self.blocks.items():
            for s in b["s"]:
                if s is not None:
                    preds[s].append(bid)
            # exceptional edges
        order = sorted(self.blocks)
        while changed:
            changed = False
            for bid in order:
                b = self.blocks[bid]
                out = set()
                for s in b["s"]:
                    if s is not None:
                        out |= live_in[s]
                for hs in self.handlers.values():
                    for h in hs:
                        out |= live_in[h]
                inn = use[bid] | (out - kill[bid])
                if out != live_out[bid] or inn != live_in[bid]:
                    live_out[bid], live_in[bid] = out, inn
                    changed = True
        self.live_in = live_in

    def type(self, n):
        return self.types[n["t"]] if "t" in n else "?"


class State:
    __slots__ = ("env", "cons", "r")

    def __init__(self, env=None, cons=None, r=None):
        self.env = env if env is not None else {}
        self.cons = cons if cons is not None else {}
        self.r = r if r is not None else {}

    def copy(self):
        return State(dict(self.env), dict(self.cons), dict(self.r))

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.cons.items()),
                frozenset(self.r.items()))


def depth(v):
    if isinstance(v, tuple):
        return 1 + max((depth(x) for x in v if isinstance(x, tuple)), default=0)
    return 0


MAXDEPTH = 12


def contains(v, x):
    if v == x:
        return True
    if isinstance(v, tuple):
        for y in v:
            if isinstance(y, tuple) and contains(y, x):
                return True
    return False


class Budget(Exception):
    pass


class Frame:
    __slots__ = ("fn", "key", "prep", "id", "this", "stack", "cap", "depth", "parent", "node")

    def __init__(self, fn, prep, fid, this, stack, cap, depth, parent=None, node=None):
        self.fn, self.prep, self.id, self.this = fn, prep, fid, this
        self.key = fn["_key"]
        self.stack, self.cap, self.depth = stack, cap, depth
        self.parent = parent
        self.node = node

    def where(self, n=None):
        line = n["l"] if n else self.fn["line"]
        return "%s:%s (%s)" % (self.fn["file"], line, self.fn["qn"])

    def chain(self):
        out = []
        f = self
        while f.parent is not None:
            out.append("%s:%s (%s)" % (f.parent.fn["file"],
                                       f.node["l"] if f.node else "?", f.parent.fn["qn"]))
            f = f.parent
        return out


SMARTPTR = ("std::shared_ptr<", "std::unique_ptr<", "std::__shared_ptr<",
            "std::__shared_ptr_access<", "std::weak_ptr<")


def is_smart(t):
    t = t.replace("const ", "").strip()
    return t.startswith(SMARTPTR)


def is_iter(t):
    t = t.replace("const ", "").strip().rstrip("&").strip()
    return t.startswith(("std::", "__gnu_cxx::")) and "iterator" in t.split("<")[0]


def filled(v):
    """A text known to hold at least one character."""
    if v[0] == 'str':
        return v[1] != ""
    return v[0] == 'op' and v[1] == 'cat' and any(filled(x) for x in v[2:4])


def is_string(t):
    t = t.replace("const ", "").strip().rstrip("&").strip()
    return t in ("std::string", "std::basic_string<char>", "std::__cxx11::basic_string<char>") or \
        t.startswith("std::basic_string<char,") and not t.endswith("*")


def is_ptr_type(t):
    t = t.strip()
    return is_smart(t) or t.endswith("*") or t.endswith("*const") or t.endswith("* const")


class Rule:
    """Base class: override what a rule needs."""
    max_depth = 6
    max_term = 6             # deeper values become symbols
    in_order = False         # settle each block before those that follow it
    max_states = 4000        # per function execution
    max_entries = 12         # entry states per inlined call before facts are dropped
    widen_at = 24            # states per block before facts are dropped
    asserts = "assume"       # or "ignore": an assertion proves nothing
    collapse = False         # join the exits of an inlined call that differ only in values

    def __init__(self, prog):
        self.prog = prog

    def inline(self, fr, node, key):
        return False

    def on_call(self, ex, fr, st, node, targets, recv, args):
        """Before a call.  Return None, or ('val', value) to define the
        result without inlining, or ('fork', [(state, value), ...])."""
        return None

    def after_call(self, ex, fr, st, node, targets, recv, args, value):
        pass

    def on_mem(self, ex, fr, st, node, loc, acc):
        pass

    def on_var(self, ex, fr, st, node, loc, acc):
        pass

    def on_write(self, ex, fr, st, node, loc, value):
        pass

    def on_deref(self, ex, fr, st, node, value):
        pass

    def on_assume(self, ex, fr, st, value, truth):
        pass

    def on_edge(self, ex, fr, st, block, to):
        """Leaving `block` for block `to` at a two-way branch."""
        pass

    def on_ctor(self, ex, fr, st, node, args):
        return None

    def on_new(self, ex, fr, st, node, value):
        pass

    def on_del(self, ex, fr, st, node, value):
        pass

    def on_decl(self, ex, fr, st, node, var, loc):
        pass

    def on_dtor(self, ex, fr, st, elem, loc, type):
        pass

    def on_return(self, ex, fr, st, node, value):
        pass

    def on_exit(self, ex, fr, st, value):
        """Leaving the frame (root or inlined)."""
        pass

    def on_lambda(self, ex, fr, st, node, value):
        pass

    def keep_cons(self, st, key):
        return False

    def keep_value(self, st, loc, value):
        return False


class Exec:
    def __init__(self, prog, rule):
        self.p = prog
        self.rule = rule
        self.steps = 0
        self.memo = {}
        self.entered = defaultdict(int)
        self.fids = {}
        self.truncated = []
        self.mods = prog.mods()

    # -- identifiers -------------------------------------------------------
    def fid(self, stack):
        i = self.fids.get(stack)
        if i is None:
            i = self.fids[stack] = len(self.fids)
        return i

    def sym(self, st, fr, nid, tag=0):
        s = ('s', fr.id, nid, tag)
        self.refresh(st, s)
        return s

    def refresh(self, st, s):
        fresh = getattr(self.rule, "on_refresh", None)
        if fresh:
            fresh(st, s)
        if st.cons:
            dead = [k for k in st.cons if contains(k, s)]
            for k in dead:
                del st.cons[k]

    # -- memory --------------------------------------------------------------
    def read(self, st, loc):
        v = st.env.get(loc)
        if v is not None:
            return v
        if loc[0] == 'f':
            h = st.env.get(('hv', loc[2]))
            if h is not None:
                return ('i', loc, h)
        return ('i', loc)

    def write(self, fr, st, node, loc, value):
        if loc is None:
            return
        if depth(value) > MAXDEPTH:
            value = ('s', fr.id, node.get("_id", -1), 'deep')
        # forget facts about sub-locations of loc
        if loc[0] != 'v' or True:
            dead = [k for k in st.env if k is not loc and isinstance(k, tuple) and len(k) > 1 and
                    k[0] in ('f', 'e') and self._under(k, loc)]
            for k in dead:
                del st.env[k]
        st.env[loc] = value
        self.rule.on_write(self, fr, st, node, loc, value)

    @staticmethod
    def _under(k, loc):
        while isinstance(k, tuple) and k and k[0] in ('f', 'e'):
            k = k[1]
            if k == loc:
                return True
        return False

    def havoc_loc(self, fr, st, nid, loc, tag='h'):
        if loc is None:
            return
        s = ('s', fr.id, nid, tag)
        self.refresh(st, s)
        self.write(fr, st, fr.prep.nodes[nid] if nid >= 0 else {"l": 0}, loc, s)

    def havoc_fields(self, fr, st, nid, fields):
        if not fields:
            return
        dead = [k for k in st.env if k[0] == 'f' and k[2] in fields]
        for k in dead:
            del st.env[k]
        stamp = (fr.id, nid)
        fields = fields & self.mentioned(st)
        for f in fields:
            st.env[('hv', f)] = stamp
        if st.cons:
            def stale(k):
                if isinstance(k, tuple):
                    if len(k) == 3 and k[0] == 'i' and isinstance(k[1], tuple) and k[1][0] == 'f' \
                            and k[1][2] in fields and k[2] == stamp:
                        return True
                    return any(stale(x) for x in k if isinstance(x, tuple))
                return False
            dead = [k for k in st.cons if stale(k)]
            for k in dead:
                del st.cons[k]

    def mentioned(self, st):
        out = set()

        def walk(v):
            if v and v[0] == 'f' and len(v) == 3:
                out.add(v[2])
            for x in v:
                if isinstance(x, tuple):
                    walk(x)
                elif isinstance(x, frozenset):
                    walk(tuple(x))
        for k, v in st.env.items():
            if k[0] != 'hv':
                walk(v)
                if k[0] in ('f', 'e', 'd'):
                    walk(k)
        for k in st.cons:
            walk(k)
        for k, v in st.r.items():
            if isinstance(k, tuple):
                walk(k)
            if isinstance(v, (tuple, frozenset)):
                walk(tuple(v))
        return out

    # -- values ----------------------------------------------------------------
    def deref(self, v):
        if v[0] == 'addr':
            return v[1]
        if depth(v) > MAXDEPTH:
            return ('d', ('s', -1, -1, 'deep'))
        return ('d', v)

    def addr(self, loc):
        if loc[0] == 'd':
            return loc[1]
        return ('addr', loc)

    def truth(self, st, v):
        """True/False/None."""
        k = v[0]
        if k == 'c':
            return bool(v[1])
        if k in ('addr', 'new', 'lam', 'str', 'fnp'):
            return True
        if k == 'not':
            t = self.truth(st, v[1])
            return None if t is None else not t
        c = st.cons.get(v)
        if c is not None:
            return c
        if k == 'op':
            if v[1] == '==':
                return self.equal(st, v[2], v[3])
            if v[1] in ('<', '>', '<=', '>='):
                a, b = v[2], v[3]
                if a[0] == 'c' and b[0] == 'c' and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
                    return {'<': a[1] < b[1], '>': a[1] > b[1], '<=': a[1] <= b[1], '>=': a[1] >= b[1]}[v[1]]
                if getattr(self.rule, "nonneg", False):
                    x = a if v[1] == '>' and b == NULL else b if v[1] == '<' and a == NULL else None
                    if x is not None and st.cons.get(x) is not None:
                        return st.cons[x]
                # unsigned comparisons against zero known from truthiness
                neg = {'<': '>=', '>=': '<', '>': '<=', '<=': '>'}[v[1]]
                c = st.cons.get(('op', neg, a, b))
                if c is not None:
                    return not c
        return None

    def equal(self, st, a, b):
        if a == b:
            return True
        if a[0] == 'str' or b[0] == 'str':
            if a[0] == b[0]:
                return False
            x, y = (a, b) if b == EMPTY else (b, a)
            if y == EMPTY and filled(x):
                return False
        ca, cb = a[0] == 'c', b[0] == 'c'
        if ca and cb:
            return a[1] == b[1]
        if ca:
            a, b, ca, cb = b, a, cb, ca
        if cb:
            e = st.cons.get(('eq', a))
            if e is not None:
                return e == b[1]
            t = self.truth(st, a) if a[0] != 'op' or a[1] != '==' else None
            if t is not None:
                if b[1] == 0:
                    return not t
                if not t:
                    return False
                if a[0] in ('addr', 'new', 'lam'):
                    return False
        c = st.cons.get(('op', '==', a, b))
        if c is None:
            c = st.cons.get(('op', '==', b, a))
        return c

    def assume(self, fr, st, v, truth):
        """Adds the fact; returns False when infeasible."""
        t = self.truth(st, v)
        if t is not None:
            if t != truth:
                return False
            self.rule.on_assume(self, fr, st, v, truth)
            return True
        if v[0] == 'not':
            return self.assume(fr, st, v[1], not truth)
        if v[0] == 'and':
            if truth:
                return self.assume(fr, st, v[1], True) and self.assume(fr, st, v[2], True)
        if v[0] == 'op' and v[1] == '==':
            a, b = v[2], v[3]
            if a[0] == 'c':
                a, b = b, a
            if b[0] == 'c' and b[1] == 0 and a[0] != 'c':
                return self.assume(fr, st, a, not truth)
            if b[0] == 'c' and truth:
                st.cons[('eq', a)] = b[1]
                if b[1]:
                    st.cons[a] = True
        st.cons[v] = truth
        self.rule.on_assume(self, fr, st, v, truth)
        return True

    # -- node evaluation -------------------------------------------------------
    def val(self, fr, st, vals, nid):
        """rvalue of a node."""
        x = self.get(fr, st, vals, nid)
        if x is not None and x[0] == 'L':
            return self.load(fr, st, x[1])
        return x if x is not None else ('s', fr.id, -1, 'none')

    def load(self, fr, st, loc):
        v = self.read(st, loc)
        return v

    def loc(self, fr, st, vals, nid):
        """lvalue location of a node, or None."""
        x = self.get(fr, st, vals, nid)
        if x is not None and x[0] == 'L':
            return x[1]
        return None

    def get(self, fr, st, vals, nid):
        if nid is None:
            return None
        x = vals.get(nid)
        if x is not None:
            return x
        x = st.env.get(('t', fr.id, nid))
        if x is not None:
            return x
        if nid in fr.prep.where:
            # evaluated on another path (or already consumed): unknown
            return ('s', fr.id, nid, 'lost')
        outs = self.eval(fr, st, vals, nid)
        # orphan nodes never fork in practice; take the first outcome
        if len(outs) >= 1:
            return vals.get(nid)
        return None

    def setv(self, fr, st, vals, nid, x):
        vals[nid] = x
        if nid in fr.prep.cross:
            st.env[('t', fr.id, nid)] = x

    def var_loc(self, fr, st, n):
        d = n["d"]
        dk = n.get("dk")
        if dk in ("global", "slocal"):
            return ('g', d)
        if n.get("cap") and fr.cap is not None:
            c = fr.cap.get(d)
            if c is not None:
                return c
        if fr.cap is not None and d in fr.cap:
            return fr.cap[d]
        return ('v', fr.id, d)

    def eval(self, fr, st, vals, nid):
        """Evaluates one node; returns list of (state, vals) continuations
        (the first is the given state mutated, unless a call forked)."""
        n = fr.prep.nodes[nid]
        k = n["k"]
        if k == "ref":
            dk = n.get("dk")
            if dk == "enum":
                vals[nid] = ('c', n["v"])
                return [(st, vals)]
            if dk == "func":
                vals[nid] = ('fnp', n["d"])
                return [(st, vals)]
            loc = self.var_loc(fr, st, n)
            if dk == "global" and n.get("const") and "v" in n:
                self.setv(fr, st, vals, nid, ('c', int(n["v"])))
                return [(st, vals)]
            if n.get("isref"):
                v = st.env.get(loc)
                if v is not None and v[0] == 'ref':
                    loc = v[1]
                else:
                    loc = ('d', ('i', loc)) if v is None else ('d', v)
            self.rule.on_var(self, fr, st, n, loc, n.get("acc", "R"))
            self.setv(fr, st, vals, nid, ('L', loc))
            return [(st, vals)]
        if k == "this":
            self.setv(fr, st, vals, nid, fr.this)
            return [(st, vals)]
        if k == "mem":
            if n.get("ar"):
                p = self.val(fr, st, vals, n["b"])
                self.rule.on_deref(self, fr, st, n, p)
                base = self.deref(p)
            else:
                base = self.loc(fr, st, vals, n["b"])
                if base is None:
                    base = ('d', self.val(fr, st, vals, n["b"]))
            loc = ('f', base, n["f"])
            if depth(loc) > MAXDEPTH:
                loc = ('f', ('d', ('s', -1, -1, 'deep')), n["f"])
            if n.get("isref"):
                v = self.read(st, loc)
                loc = v[1] if v[0] == 'ref' else ('d', v)
            self.rule.on_mem(self, fr, st, n, loc, n.get("acc", "R"))
            self.setv(fr, st, vals, nid, ('L', loc))
            return [(st, vals)]
        if k == "lit":
            lk = n["lk"]
            if lk == "str":
                v = ('str', n["v"])
            elif lk == "float":
                v = ('c', float(n["v"]))
            else:
                v = ('c', int(n["v"]))
            self.setv(fr, st, vals, nid, v)
            return [(st, vals)]
        if k == "sizeof":
            self.setv(fr, st, vals, nid, ('c', int(n["v"])) if "v" in n else ('s', fr.id, nid, 0))
            return [(st, vals)]
        if k in ("cast", "un"):
            pre = st.env.pop(('sc', fr.id, nid), None)
            if pre is not None:
                self.setv(fr, st, vals, nid, pre)
                return [(st, vals)]
        if k == "cast":
            x = self.get(fr, st, vals, n["e"])
            if n["ck"] == "dynamic":
                v = self.val(fr, st, vals, n["e"])
                s = self.sym(st, fr, nid)
                if self.truth(st, v) is False:
                    s = NULL
                x = s
            elif x is None:
                x = ('s', fr.id, nid, 0)
            elif x[0] == 'L' and not n.get("lv"):
                x = self.load(fr, st, x[1])
            self.setv(fr, st, vals, nid, x)
            return [(st, vals)]
        if k == "bin":
            return self.eval_bin(fr, st, vals, nid, n)
        if k == "un":
            return self.eval_un(fr, st, vals, nid, n)
        if k == "idx":
            b = self.get(fr, st, vals, n["b"])
            i = self.val(fr, st, vals, n["i"])
            if b is not None and b[0] == 'L' and "[" in fr.prep.type(fr.prep.nodes[n["b"]]):
                base = b[1]
            else:
                pv = self.val(fr, st, vals, n["b"])
                self.rule.on_deref(self, fr, st, n, pv)
                base = self.deref(pv)
            loc = ('e', base, i)
            if depth(loc) > MAXDEPTH:
                loc = ('e', ('d', ('s', -1, -1, 'deep')), ('s', -1, -1, 'deep'))
            self.setv(fr, st, vals, nid, ('L', loc))
            return [(st, vals)]
        if k == "cond":
            sel = st.env.pop(('sel', fr.id, nid), None)
            if sel is None:
                x = self.sym(st, fr, nid)
            else:
                x = self.get(fr, st, vals, n["a"] if sel[1] else n["b"])
                if x is None:
                    x = self.sym(st, fr, nid)
                elif x[0] == 'L' and not n.get("lv"):
                    x = self.load(fr, st, x[1])
            self.setv(fr, st, vals, nid, x)
            return [(st, vals)]
        if k == "call":
            return self.eval_call(fr, st, vals, nid, n)
        if k == "ctor":
            return self.eval_ctor(fr, st, vals, nid, n)
        if k == "new":
            v = ('new', fr.id, nid)
            self.refresh_new(st, v)
            if n.get("pl"):
                v0 = self.val(fr, st, vals, n["pl"][0])
                v = self.sym(st, fr, nid) if "nothrow" in fr.prep.type(fr.prep.nodes[n["pl"][0]]) else v0
            self.rule.on_new(self, fr, st, n, v)
            if n.get("init") is not None and v[0] == 'new':
                x = self.get(fr, st, vals, n["init"])
                # fields written while constructing move to the object
                self.adopt(fr, st, ('tmp', fr.id, n["init"]), ('d', v))
            self.setv(fr, st, vals, nid, v)
            return [(st, vals)]
        if k == "del":
            v = self.val(fr, st, vals, n["e"])
            self.rule.on_del(self, fr, st, n, v)
            return [(st, vals)]
        if k == "decl":
            for var in n["vars"]:
                self.eval_decl(fr, st, vals, n, var)
            return [(st, vals)]
        if k == "ret":
            v = None
            if n.get("e") is not None:
                x = self.get(fr, st, vals, n["e"])
                if x is not None and x[0] == 'L':
                    if "&" in fr.fn["types"][fr.fn["ret"]]:
                        v = x
                    else:
                        v = self.load(fr, st, x[1])
                else:
                    v = x
            self.rule.on_return(self, fr, st, n, v)
            st.env[('ret', fr.id)] = v if v is not None else ('void',)
            return [(st, vals)]
        if k == "lambda":
            caps = []
            for c in n["caps"]:
                if c["d"] == "this":
                    caps.append(("this", 1, fr.this))
                elif c.get("init") is not None:
                    caps.append((c["d"], 0, self.val(fr, st, vals, c["init"])))
                else:
                    if fr.cap is not None and c["d"] in fr.cap:
                        loc = fr.cap[c["d"]]
                    else:
                        loc = ('v', fr.id, c["d"])
                    v = st.env.get(loc)
                    if v is not None and v[0] == 'ref':
                        loc = v[1]
                    if c["ref"]:
                        caps.append((c["d"], 1, loc))
                    else:
                        caps.append((c["d"], 0, self.read(st, loc)))
            v = ('lam', n["fn"], tuple(caps), fr.this)
            self.rule.on_lambda(self, fr, st, n, v)
            self.setv(fr, st, vals, nid, v)
            return [(st, vals)]
        if k == "init":
            args = [self.val(fr, st, vals, a) for a in n["args"] if a is not None]
            v = args[0] if len(args) == 1 else self.sym(st, fr, nid)
            if len(args) == 0:
                v = ('c', 0) if not self.is_record(fr, n) else self.sym(st, fr, nid)
            self.setv(fr, st, vals, nid, v)
            return [(st, vals)]
        if k == "throw":
            st.env[('throw',)] = ('c', 1)
            return [(st, vals)]
        if k == "method":
            vals[nid] = ('s', fr.id, nid, 'm')
            return [(st, vals)]
        self.setv(fr, st, vals, nid, self.sym(st, fr, nid))
        return [(st, vals)]

    def is_record(self, fr, n):
        t = fr.prep.type(n)
        return not (is_ptr_type(t) or t in ("bool", "int", "long", "unsigned long", "double", "float", "char"))

    def refresh_new(self, st, v):
        fresh = getattr(self.rule, "on_refresh", None)
        if fresh:
            fresh(st, v)
        dead = [k for k in st.env if isinstance(k, tuple) and contains(k, ('d', v))]
        for k in dead:
            del st.env[k]
        dead = [k for k in st.cons if contains(k, v)]
        for k in dead:
            del st.cons[k]

    def adopt(self, fr, st, old, new):
        moved = [(k, v) for k, v in st.env.items() if contains(k, old)]
        for k, v in moved:
            del st.env[k]
            st.env[self.subst(k, old, new)] = v
        ad = getattr(self.rule, "on_adopt", None)
        if ad:
            ad(st, old, new)

    def subst(self, v, old, new):
        if v == old:
            return new
        if isinstance(v, tuple):
            return tuple(self.subst(x, old, new) for x in v)
        return v

    def eval_decl(self, fr, st, vals, n, var):
        loc = ('g', var["d"]) if var.get("static") else ('v', fr.id, var["d"])
        if var.get("static"):
            return
        # fresh variable: drop sub-locations
        dead = [k for k in st.env if isinstance(k, tuple) and k[0] in ('f', 'e') and self._under(k, loc)]
        for k in dead:
            del st.env[k]
        st.env.pop(loc, None)
        iloc = ('i', loc)
        if st.cons:
            dead = [k for k in st.cons if contains(k, loc)]
            for k in dead:
                del st.cons[k]
        self.rule.on_decl(self, fr, st, n, var, loc)
        init = var.get("init")
        if init is None:
            return
        x = self.get(fr, st, vals, init)
        if var.get("isref"):
            if x is not None and x[0] == 'L':
                st.env[loc] = ('ref', x[1])
            else:
                # reference bound to a temporary
                t = ('tmp', fr.id, init)
                if x is not None and t != x:
                    st.env[t] = x
                st.env[loc] = ('ref', t)
            return
        if x is None:
            return
        initn = fr.prep.nodes[init]
        if initn["k"] == "ctor" and x[0] == 'obj':
            self.adopt(fr, st, ('tmp', fr.id, init), loc)
            return
        v = self.load(fr, st, x[1]) if x[0] == 'L' else x
        self.write(fr, st, dict(n, _id=init), loc, v)

    def eval_bin(self, fr, st, vals, nid, n):
        op = n["op"]
        if op in ("&&", "||"):
            pre = st.env.pop(('sc', fr.id, nid), None)
            if pre is not None:
                v = pre
            else:
                v = self.val(fr, st, vals, n["b"])
            self.setv(fr, st, vals, nid, v)
            return [(st, vals)]
        if op == "=":
            loc = self.loc(fr, st, vals, n["a"])
            v = self.val(fr, st, vals, n["b"])
            self.write(fr, st, dict(n, _id=nid), loc, v)
            self.setv(fr, st, vals, nid, ('L', loc) if loc is not None else v)
            return [(st, vals)]
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            loc = self.loc(fr, st, vals, n["a"])
            old = self.val(fr, st, vals, n["a"])
            rhs = self.val(fr, st, vals, n["b"])
            if op == "|=" and (self.truth(st, rhs) is True or self.truth(st, old) is True):
                v = TRUE
            elif op == "&=" and (self.truth(st, rhs) is False or self.truth(st, old) is False):
                v = NULL
            elif op == "&=" and self.truth(st, old) is True:
                v = rhs
            elif op == "|=" and self.truth(st, old) is False:
                v = rhs
            else:
                v = self.sym(st, fr, nid)
            self.write(fr, st, dict(n, _id=nid), loc, v)
            self.setv(fr, st, vals, nid, ('L', loc) if loc is not None else v)
            return [(st, vals)]
        if op == ",":
            x = self.get(fr, st, vals, n["b"])
            self.setv(fr, st, vals, nid, x if x is not None else ('void',))
            return [(st, vals)]
        a = self.val(fr, st, vals, n["a"])
        b = self.val(fr, st, vals, n["b"])
        self.setv(fr, st, vals, nid, self.mkop(st, fr, nid, op, a, b))
        return [(st, vals)]

    def mkop(self, st, fr, nid, op, a, b):
        if op == "==":
            if b[0] == 'c' and b[1] == 0 and a[0] != 'c':
                return ('not', a) if True else None
            if a[0] == 'c' and a[1] == 0 and b[0] != 'c':
                return ('not', b)
            if a[0] == 'c' and b[0] == 'c':
                return ('c', int(a[1] == b[1]))
            v = ('op', '==', a, b)
        elif op == "!=":
            if b[0] == 'c' and b[1] == 0:
                return a if a[0] != 'c' else ('c', int(a[1] != 0))
            if a[0] == 'c' and a[1] == 0:
                return b
            if a[0] == 'c' and b[0] == 'c':
                return ('c', int(a[1] != b[1]))
            v = ('not', ('op', '==', a, b))
        else:
            v = ('op', op, a, b)
            if op in ("+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^") and a[0] == 'c' and b[0] == 'c' \
                    and isinstance(a[1], int) and isinstance(b[1], int):
                try:
                    r = {"+": a[1] + b[1], "-": a[1] - b[1], "*": a[1] * b[1],
                         "/": int(a[1] / b[1]) if b[1] else 0, "%": a[1] % b[1] if b[1] else 0,
                         "<<": a[1] << b[1] if 0 <= b[1] < 64 else 0, ">>": a[1] >> b[1] if b[1] >= 0 else 0,
                         "&": a[1] & b[1], "|": a[1] | b[1], "^": a[1] ^ b[1]}[op]
                    return ('c', r)
                except Exception:
                    pass
        if depth(v) > self.rule.max_term:
            return self.sym(st, fr, nid)
        return v

    def fold(self, st, fr, nid, op, *args):
        """A pure library function: equal arguments, equal result."""
        v = ('op', op) + (args if len(args) > 1 else args + (NULL,))
        if any(a[0] in ('obj', 'void', 'L') for a in args) or depth(v) > self.rule.max_term:
            return self.sym(st, fr, nid)
        return v

    def eval_un(self, fr, st, vals, nid, n):
        op = n["op"]
        if op == "*":
            p = self.val(fr, st, vals, n["e"])
            self.rule.on_deref(self, fr, st, n, p)
            self.setv(fr, st, vals, nid, ('L', self.deref(p)))
        elif op == "&":
            l = self.loc(fr, st, vals, n["e"])
            self.setv(fr, st, vals, nid, self.addr(l) if l is not None else self.sym(st, fr, nid))
        elif op == "!":
            v = self.val(fr, st, vals, n["e"])
            if v[0] == 'not':
                r = v[1]
            elif v[0] == 'c':
                r = ('c', int(not v[1]))
            else:
                r = ('not', v)
            self.setv(fr, st, vals, nid, r)
        elif op in ("++", "--", "post++", "post--"):
            l = self.loc(fr, st, vals, n["e"])
            old = self.val(fr, st, vals, n["e"])
            # the previous value stays usable as a distinct symbol
            new = ('s', fr.id, nid, 'inc')
            if contains(old, new):
                old = ('s', fr.id, nid, 'old')
                self.refresh(st, old)
            self.refresh(st, new)
            self.write(fr, st, dict(n, _id=nid), l, new)
            if op.startswith("post"):
                self.setv(fr, st, vals, nid, old)
            else:
                self.setv(fr, st, vals, nid, ('L', l) if l is not None else new)
        elif op == "-":
            v = self.val(fr, st, vals, n["e"])
            self.setv(fr, st, vals, nid, ('c', -v[1]) if v[0] == 'c' and isinstance(v[1], (int, float))
                      else ('op', 'neg', v, NULL) if depth(v) < 6 else self.sym(st, fr, nid))
        else:
            v = self.val(fr, st, vals, n["e"])
            self.setv(fr, st, vals, nid, v if op == "+" else self.sym(st, fr, nid))
        return [(st, vals)]

    # -- calls ---------------------------------------------------------------
    def eval_ctor(self, fr, st, vals, nid, n):
        cn = n["cn"]
        argx = [self.get(fr, st, vals, a) for a in n["args"]]
        args = [(self.load(fr, st, x[1]) if x is not None and x[0] == 'L' else (x or ('void',))) for x in argx]
        tmp = ('tmp', fr.id, nid)
        n2 = n
        r = self.rule.on_ctor(self, fr, st, n, argx)
        if r is not None:
            self.setv(fr, st, vals, nid, r)
            return [(st, vals)]
        if cn in ("std::shared_ptr", "std::unique_ptr") or cn.startswith("std::__shared_ptr"):
            v = args[0] if args else NULL
            self.setv(fr, st, vals, nid, v)
            return [(st, vals)]
        if cn.startswith("std::basic_string") and args and n.get("cp") not in ("copy", "move") \
                and is_string(fr.prep.type(n)):
            real = [a for a, i in zip(args, n["args"]) if i is not None and
                    "allocator" not in fr.prep.type(fr.prep.nodes[i])]
            if len(real) == 1 and real[0][0] not in ('obj', 'void'):
                self.setv(fr, st, vals, nid, real[0])
                return [(st, vals)]
            if not real:
                self.setv(fr, st, vals, nid, EMPTY)
                return [(st, vals)]
        if cn == "std::atomic" or cn == "std::function":
            self.setv(fr, st, vals, nid, args[0] if args else self.sym(st, fr, nid))
            return [(st, vals)]
        if len(args) == 1 and is_iter(cn) and args[0][0] not in ('obj', 'void'):
            self.setv(fr, st, vals, nid, args[0])
            return [(st, vals)]
        if n.get("cp") in ("copy", "move") and args:
            # copying an object: value identity is enough
            self.setv(fr, st, vals, nid, args[0])
            return [(st, vals)]
        tg = self.p.targets(fr.fn, n)
        if tg and self.rule.inline(fr, n, tg[0]) and fr.depth < self.rule.max_depth \
                and tg[0] not in fr.stack[1:]:
            outs = self.invoke(fr, st, nid, n, tg[0], argx, ('addr', tmp))
            res = []
            for s2, _ in outs:
                v2 = dict(vals)
                self.setv(fr, s2, v2, nid, ('obj', fr.id, nid))
                res.append((s2, v2))
            return res
        for k in tg:
            self.havoc_fields(fr, st, nid, self.mods.get(k, ()))
        if cn not in ("std::thread", "std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock"):
            self.havoc_args(fr, st, vals, nid, n, argx)
        self.setv(fr, st, vals, nid, ('obj', fr.id, nid))
        return [(st, vals)]

    def havoc_args(self, fr, st, vals, nid, n, argx, skip=()):
        pm = n.get("pm") or []
        for i, x in enumerate(argx):
            if x is None or i in skip:
                continue
            m = pm[i] if i < len(pm) else "R"
            if m == "REF" and x[0] == 'L':
                self.havoc_loc(fr, st, nid, x[1], ('a', i))
            elif x[0] == 'addr':
                self.havoc_loc(fr, st, nid, x[1], ('a', i))
            elif x[0] == 'L' and m in ("R", "CREF"):
                v = st.env.get(x[1])
                if v is not None and v[0] == 'addr':
                    self.havoc_loc(fr, st, nid, v[1], ('a', i))

    def recv_value(self, fr, st, vals, n):
        """(pointer-value of the receiver object, loc or None)"""
        r = n.get("recv")
        if r is None:
            return None
        x = self.get(fr, st, vals, r)
        if x is None:
            return ('s', fr.id, r, 'r')
        if n.get("ar"):
            return self.load(fr, st, x[1]) if x[0] == 'L' else x
        if x[0] == 'L':
            return self.addr(x[1])
        if x[0] == 'obj':
            return ('addr', ('tmp', fr.id, r))
        if x[0] == 'addr':
            return x
        if x[0] == 'i':
            st.env[('tmp', fr.id, r)] = x
        return ('addr', ('tmp', fr.id, r))

    def eval_call(self, fr, st, vals, nid, n):
        cn = n.get("cn") or ""
        op = n.get("op")
        argx = [self.get(fr, st, vals, a) for a in n["args"]]

        def av(i):
            x = argx[i]
            if x is None:
                return ('void',)
            return self.load(fr, st, x[1]) if x[0] == 'L' else x
        recv = self.recv_value(fr, st, vals, n)
        name = cn.rsplit("::", 1)[-1]

        # calls through lambdas / function values
        target = None
        lamv = None
        if op == "()" and n.get("recv") is not None:
            rv = self.val(fr, st, vals, n["recv"])
            if rv[0] == 'lam':
                lamv = rv
            elif rv[0] == 'fnp':
                target = [rv[1]]
        if n.get("c") is None and n.get("fe") is not None:
            rv = self.val(fr, st, vals, n["fe"])
            if rv[0] == 'lam':
                lamv = rv
            elif rv[0] == 'fnp':
                target = [rv[1]]
        if lamv is not None:
            target = [lamv[1]]
        if target is None:
            target = self.p.targets(fr.fn, n)
        else:
            target = [t for t in target if t in self.p.F]

        if n.get("ar") and recv is not None:
            self.rule.on_deref(self, fr, st, n, recv)

        r = self.rule.on_call(self, fr, st, n, target, recv, argx)
        if r is not None:
            if r[0] == 'val':
                self.setv(fr, st, vals, nid, r[1])
                self.rule.after_call(self, fr, st, n, target, recv, argx, r[1])
                return [(st, vals)]
            if r[0] == 'fork':
                res = []
                for s2, v in r[1]:
                    v2 = dict(vals)
                    self.setv(fr, s2, v2, nid, v)
                    self.rule.after_call(self, fr, s2, n, target, recv, argx, v)
                    res.append((s2, v2))
                return res

        # modelled library functions
        v = self.builtin(fr, st, vals, nid, n, cn, name, op, recv, argx, av)
        if v is not None:
            self.setv(fr, st, vals, nid, v)
            self.rule.after_call(self, fr, st, n, target, recv, argx, v)
            return [(st, vals)]

        if n.get("noret"):
            st.env[('noret',)] = ('c', 1)
            return [(st, vals)]

        inl = [k for k in target if self.rule.inline(fr, n, k)
               and k not in fr.stack[1:]] if fr.depth < self.rule.max_depth else []
        if inl:
            res = []
            rest = [k for k in target if k not in inl]
            if len(target) > 1 or rest:
                pass
            for k in inl:
                s1 = st.copy() if len(inl) > 1 or rest else st
                outs = self.invoke(fr, s1, nid, n, k, argx, recv, lamv)
                for s2, v in outs:
                    v2 = dict(vals)
                    self.setv(fr, s2, v2, nid, v)
                    self.rule.after_call(self, fr, s2, n, [k], recv, argx, v)
                    res.append((s2, v2))
            if rest:
                self.opaque(fr, st, vals, nid, n, rest, recv, argx)
                v = vals[nid]
                self.rule.after_call(self, fr, st, n, rest, recv, argx, v)
                res.append((st, vals))
            return res
        self.opaque(fr, st, vals, nid, n, target, recv, argx)
        self.rule.after_call(self, fr, st, n, target, recv, argx, vals[nid])
        return [(st, vals)]

    def opaque(self, fr, st, vals, nid, n, target, recv, argx):
        fields = set()
        for k in target:
            fields |= self.mods.get(k, set())
        self.havoc_fields(fr, st, nid, fields)
        self.havoc_args(fr, st, vals, nid, n, argx)
        if not target and recv is not None and not n.get("cm") and recv[0] == 'addr':
            # library object mutated: its value changes
            loc = recv[1]
            if st.env.get(loc) is not None and st.env[loc][0] != 'ref':
                self.havoc_loc(fr, st, nid, loc, 'r')
        s = self.sym(st, fr, nid)
        if n.get("lv"):
            self.setv(fr, st, vals, nid, ('L', ('d', s)))
        else:
            self.setv(fr, st, vals, nid, s)

    def builtin(self, fr, st, vals, nid, n, cn, name, op, recv, argx, av):
        rtype = None
        if n.get("recv") is not None:
            rtype = fr.prep.type(fr.prep.nodes[n["recv"]])
        if cn.startswith("std::"):
            if rtype is not None and is_smart(rtype) and recv is not None:
                rl = recv[1] if recv[0] == 'addr' else self.deref(recv)
                if op in ("->",) or name == "get":
                    v = self.load(fr, st, rl)
                    if op == "->":
                        pass
                    return v
                if op == "*":
                    v = self.load(fr, st, rl)
                    self.rule.on_deref(self, fr, st, n, v)
                    return ('L', self.deref(v))
                if name == "operator bool":
                    return self.load(fr, st, rl)
                if op == "=":
                    v = av(0)
                    self.write(fr, st, dict(n, _id=nid), rl, v)
                    return ('L', rl)
                if op == "[]":
                    v = self.load(fr, st, rl)
                    self.rule.on_deref(self, fr, st, n, v)
                    return ('L', ('e', self.deref(v), av(0)))
                if name == "reset":
                    self.write(fr, st, dict(n, _id=nid), rl, av(0) if argx else NULL)
                    return ('void',)
                if name == "release":
                    v = self.load(fr, st, rl)
                    self.write(fr, st, dict(n, _id=nid), rl, NULL)
                    return v
                if name == "lock":
                    return self.sym(st, fr, nid)
            if rtype is not None and recv is not None and is_iter(rtype):
                rl = recv[1] if recv[0] == 'addr' else self.deref(recv)
                if op == "=":
                    self.write(fr, st, dict(n, _id=nid), rl, av(0))
                    return ('L', rl)
                if op in ("->", "*"):
                    v = self.load(fr, st, rl)
                    if op == "->":
                        return v
                    self.rule.on_deref(self, fr, st, n, v)
                    return ('L', self.deref(v))
                if op in ("++", "--", "+=", "-="):
                    old = self.load(fr, st, rl)
                    self.write(fr, st, dict(n, _id=nid), rl, self.sym(st, fr, nid))
                    return ('L', rl) if n.get("lv") else old
            if rtype is not None and recv is not None and is_string(rtype):
                if name in ("c_str", "data", "str"):
                    return self.fold(st, fr, nid, 'cstr', self.val(fr, st, vals, n["recv"]))
                if name in ("empty", "size", "length") and not argx:
                    v = self.val(fr, st, vals, n["recv"])
                    if v[0] not in ('obj', 'void') and depth(v) + 1 <= self.rule.max_term:
                        if name == "empty":
                            return self.mkop(st, fr, nid, "==", v, EMPTY)
                        e = self.equal(st, v, EMPTY)
                        if e is True:
                            return NULL
                        s = self.sym(st, fr, nid)
                        if e is False:
                            st.cons[s] = True
                        return s
                if name == "clear" and not argx:
                    self.write(fr, st, dict(n, _id=nid), recv[1] if recv[0] == 'addr' else self.deref(recv), EMPTY)
                    return ('void',)
                if op == "=" and len(argx) == 1:
                    rl = recv[1] if recv[0] == 'addr' else self.deref(recv)
                    v = av(0)
                    if v[0] in ('obj', 'void'):
                        v = self.sym(st, fr, nid)
                    self.write(fr, st, dict(n, _id=nid), rl, v)
                    return ('L', rl)
            if op == "+" and len(argx) == 2 and is_string(fr.prep.type(n)):
                return self.fold(st, fr, nid, 'cat', av(0), av(1))
            if op == "|" and len(argx) == 2 and av(0)[0] == 'c' and av(1)[0] == 'c':
                return ('c', int(av(0)[1]) | int(av(1)[1]))
            if op == "==" and len(argx) == 2:
                return self.mkop(st, fr, nid, "==", av(0), av(1))
            if op == "!=" and len(argx) == 2:
                return self.mkop(st, fr, nid, "!=", av(0), av(1))
            if name == "move" and len(argx) == 1 or name == "forward":
                return argx[0]
            if name in ("make_shared", "make_unique"):
                v = ('new', fr.id, nid)
                self.refresh_new(st, v)
                self.rule.on_new(self, fr, st, n, v)
                return v
            if name in ("static_pointer_cast", "const_pointer_cast"):
                return av(0)
            if name == "dynamic_pointer_cast":
                if self.truth(st, av(0)) is False:
                    return NULL
                return self.sym(st, fr, nid)
            if name == "swap" and len(argx) == 2 and argx[0] and argx[1] and argx[0][0] == 'L' and argx[1][0] == 'L':
                a, b = av(0), av(1)
                self.write(fr, st, dict(n, _id=nid), argx[0][1], b)
                self.write(fr, st, dict(n, _id=nid), argx[1][1], a)
                return ('void',)
            if op == "[]" and recv is not None and argx:
                base = recv[1] if recv[0] == 'addr' else self.deref(recv)
                loc = ('e', base, av(0))
                if depth(loc) > MAXDEPTH:
                    return ('L', ('d', self.sym(st, fr, nid)))
                return ('L', loc)
            if rtype and ("std::atomic" in rtype):
                rl = recv[1] if recv[0] == 'addr' else self.deref(recv)
                if name in ("load",) or name.startswith("operator ") and not argx:
                    return self.load(fr, st, rl)
                if name == "store" or op == "=":
                    self.write(fr, st, dict(n, _id=nid), rl, av(0))
                    return ('void',)
        return None

    def invoke(self, fr, st, nid, n, key, argx, recv, lamv=None):
        """Inlines `key`; returns [(state, value)]."""
        fn = self.p.F[key]
        prep = self.p.prep(key)
        stack = fr.stack + (nid, key)
        fid = self.fid(stack)
        cap = None
        this = recv if recv is not None else ('this', key)
        if lamv is not None:
            cap = {}
            this = lamv[3]
            for c in lamv[2]:
                if c[0] == "this":
                    continue
                if c[1]:
                    cap[c[0]] = c[2]
                else:
                    l = ('v', fid, 'cap:' + c[0])
                    st.env[l] = c[2]
                    cap[c[0]] = l
        elif fn.get("lambda"):
            this = fr.this
        # drop any stale frame data
        self.drop_frame(st, fid, keep=cap)
        if cap:
            for c in lamv[2]:
                if c[0] != "this" and not c[1]:
                    st.env[cap[c[0]]] = c[2]
        nf = Frame(fn, prep, fid, this, stack, cap, fr.depth + 1, fr, n)
        for i, p in enumerate(fn["params"]):
            loc = ('v', fid, p["d"])
            if i < len(argx) and argx[i] is not None:
                x = argx[i]
                if p["m"] != "R":
                    if x[0] == 'L':
                        st.env[loc] = ('ref', x[1])
                    elif x[0] == 'obj':
                        st.env[loc] = ('ref', ('tmp', fr.id, x[2]))
                    else:
                        t = ('tmp', fid, i)
                        st.env[t] = x
                        st.env[loc] = ('ref', t)
                else:
                    st.env[loc] = self.load(fr, st, x[1]) if x[0] == 'L' else x
        outs = self.run(nf, st)
        res = []
        for s2, v in outs:
            res.append((s2, v))
        return res

    def widen(self, fr, st, level):
        """Forgets facts the rule did not ask to keep (sound: only adds paths)."""
        keep = self.rule.keep_cons
        if level == 1:
            dead = [k for k in st.cons if k[0] in ('op', 'eq', 'i') and not keep(st, k)]
        else:
            dead = [k for k in st.cons if not keep(st, k)]
        for k in dead:
            st.cons.pop(k, None)
        if level >= 2:
            for k in list(st.env):
                v = st.env.get(k)
                if v is None:
                    continue
                if k[0] == 'v' and k[1] == fr.id:
                    if v[0] in ('ref', 'lam', 'fnp', 'i', 'addr', 'new'):
                        continue
                    if level == 2 and v[0] not in ('op', 'c'):
                        continue
                    if self.rule.keep_value(st, k, v):
                        continue
                    st.env[k] = ('s', fr.id, -7, k[2])
                elif level == 4 and k[0] in ('f', 'e', 'tmp') and not self.rule.keep_value(st, k, v):
                    del st.env[k]
                elif level == 3 and k[0] in ('f', 'e') and v[0] not in ('i', 'addr', 'new', 'lam') \
                        and not self.rule.keep_value(st, k, v):
                    # contents of an object: unknown from here on
                    st.env[k] = ('s', -1, -8, k)
            if level == 3:
                es = [k for k in st.env if k[0] == 'e']
                if len(es) > 8:
                    for k in es:
                        if not self.rule.keep_value(st, k, st.env[k]):
                            del st.env[k]

    def merge_into(self, joined, fr, bid, st):
        """One state per block and rule state: facts the paths disagree on
        are forgotten.  Returns the grown state, or None if nothing is new."""
        kv = self.rule.keep_value
        fixed = []
        for k, v in st.env.items():
            if v[0] in ('ref', 'lam', 'fnp') or k[0] in ('sc', 'sel') or kv(st, k, v):
                fixed.append((k, v))
        kc = self.rule.keep_cons
        fc = [(k, v) for k, v in st.cons.items() if kc(st, k)]
        key = (bid, frozenset(st.r.items()), frozenset(fixed), frozenset(fc))
        old = joined.get(key)
        if old is None:
            joined[key] = st.copy()
            return st
        env, dropped = {}, set()
        same = True
        for k, v in old.env.items():
            w = st.env.get(k)
            if w == v:
                env[k] = v
            else:
                u = ('s', -1, -8, k)
                env[k] = u
                if v != u:
                    same = False
                dropped.add(u)
        for k in st.env:
            if k not in old.env:
                env[k] = u = ('s', -1, -8, k)
                dropped.add(u)
                same = False
        cons = {}
        for k, v in old.cons.items():
            if st.cons.get(k) == v:
                if dropped:
                    at = set()
                    self._atoms(k, at)
                    if at & dropped and not kc(st, k):
                        same = False
                        continue
                cons[k] = v
            else:
                same = False
        if same:
            return None
        n = State(env, cons, dict(st.r))
        joined[key] = n
        return n.copy()

    def drop_frame(self, st, fid, keep=None):
        dead = [k for k in st.env if k[0] in ('v', 't', 'sel', 'sc', 'ret') and k[1] == fid]
        for k in dead:
            del st.env[k]
        dead = [k for k in st.env if k[0] in ('f', 'e') and self._rooted(k, fid)]
        for k in dead:
            del st.env[k]

    @staticmethod
    def _rooted(k, fid):
        while k[0] in ('f', 'e'):
            k = k[1]
        return k[0] == 'v' and k[1] == fid

    # -- function execution ------------------------------------------------------
    def run(self, fr, st0):
        """Explores a function from st0; returns [(exit state, value)]."""
        prep = fr.prep
        mk = None
        if fr.depth > 0:
            mk = (fr.id, st0.key())
            m = self.memo.get(mk)
            if m is not None:
                return [(s.copy(), v) for s, v in m]
            self.entered[fr.id] += 1
            if self.entered[fr.id] > self.rule.max_entries:
                up = fr.parent
                while up is not None:
                    self.widen(up, st0, 3)
                    up = up.parent
                mk = (fr.id, st0.key())
                m = self.memo.get(mk)
                if m is not None:
                    return [(s.copy(), v) for s, v in m]
        exits = {}
        seen = set()
        # blocks are numbered downwards from the entry: a loop is settled before what follows it
        rank = self.rule.in_order
        work = [(0, 0, prep.entry, st0)]
        order = 0
        count = 0
        limit = self.rule.max_states
        per = defaultdict(int)
        joined = {}
        W = self.rule.widen_at
        while work:
            _, _, bid, st = heappop(work)
            self.gc(fr, st, bid)
            if per[bid] > W:
                self.widen(fr, st, 1 if per[bid] <= 2 * W else 2 if per[bid] <= 3 * W else 3)
            per[bid] += 1
            if per[bid] > 5 * W:
                st = self.merge_into(joined, fr, bid, st)
                if st is None:
                    continue
            else:
                key = (bid, st.key())
                if key in seen:
                    continue
                seen.add(key)
            count += 1
            self.steps += 1
            if count > limit:
                self.truncated.append(fr.key)
                break
            if bid == prep.exit:
                v = st.env.get(('ret', fr.id), ('void',))
                self.finish(fr, st, v, exits)
                continue
            for b, s in self.block(fr, st, prep.blocks[bid]):
                order -= 1
                heappush(work, (-b if rank else 0, order, b, s))
        res = list(exits.values())
        if self.rule.collapse and fr.depth and len(res) > 1:
            res = self.join_exits(fr, res)
        if mk is not None:
            self.memo[mk] = [(s.copy(), v) for s, v in res]
        return res

    def join_exits(self, fr, res):
        """One exit per rule state: facts the paths disagree on are forgotten."""
        groups = {}
        for s, v in res:
            k = frozenset(s.r.items())
            if k not in groups:
                groups[k] = (s, v)
                continue
            o, ov = groups[k]
            env = {}
            for x in set(o.env) | set(s.env):
                a, b = o.env.get(x), s.env.get(x)
                env[x] = a if a == b else ('s', -1, -8, x)
            cons = {x: t for x, t in o.cons.items() if s.cons.get(x) == t}
            groups[k] = (State(env, cons, dict(s.r)), v if v == ov else ('s', fr.id, -9, 'ret'))
        return list(groups.values())

    def finish(self, fr, st, v, exits):
        self.rule.on_exit(self, fr, st, v)
        s2 = st
        self.drop_frame(s2, fr.id)
        k = (s2.key(), v)
        if k not in exits:
            exits[k] = (s2, v)

    def gc(self, fr, st, bid):
        live = fr.prep.live_in.get(bid, ())
        pinned = fr.prep.pinned
        fid = fr.id
        dead = []
        for k in st.env:
            if k[0] == 'v' and k[1] == fid:
                if k[2] not in live and k[2] not in pinned and not (isinstance(k[2], str) and k[2].startswith("cap:")):
                    dead.append(k)
            elif k[0] == 't' and k[1] == fid:
                if ('t', k[2]) not in live and ('t', k[2]) not in pinned:
                    dead.append(k)
            elif k[0] == 'tmp' and k[1] == fid:
                pass
        kl = getattr(self.rule, "keep_local", None)
        for k in dead:
            if kl and kl(st, k):
                continue
            del st.env[k]
        hv = [k for k in st.env if k[0] == 'hv']
        if hv:
            m = self.mentioned(st)
            for k in hv:
                if k[1] not in m:
                    del st.env[k]
        # constraints on symbols nothing refers to any more
        if st.cons:
            roots = set()
            for v in st.env.values():
                self._atoms(v, roots)
            for v in st.r.values():
                self._atoms(v, roots)
            for k in st.r:
                self._atoms(k, roots)
            deadc = []
            for k in st.cons:
                at = set()
                self._atoms(k, at)
                syms = [a for a in at if a[0] == 's']
                if syms and any(a not in roots for a in syms) and not self.rule.keep_cons(st, k):
                    deadc.append(k)
                    continue
                # facts on initial values of dead locals of this frame
                for a in at:
                    if a[0] == 'v' and a[1] == fid and a[2] not in live and a[2] not in pinned \
                            and not self.rule.keep_cons(st, k) and a not in roots:
                        deadc.append(k)
                        break
            for k in deadc:
                del st.cons[k]

    def _atoms(self, v, out):
        if isinstance(v, tuple) and v:
            if v[0] == 's' or (v[0] == 'v' and len(v) == 3):
                out.add(v)
                return
            for x in v:
                if isinstance(x, tuple):
                    self._atoms(x, out)
        elif isinstance(v, frozenset):
            for x in v:
                self._atoms(x, out)

    def block(self, fr, st, b):
        """Executes one block; returns successor (block, state) list."""
        states = [(st, {})]
        extra = []
        prep = fr.prep
        for e in b["e"]:
            nxt = []
            for s, vals in states:
                if isinstance(e, int):
                    n = prep.nodes[e]
                    if n.get("tr") is not None and n["k"] in ("call", "ctor"):
                        for h in prep.handlers.get(n["tr"], ()):
                            extra.append((h, s.copy()))
                    for s2, v2 in self.eval(fr, s, vals, e):
                        if s2.env.pop(('noret',), None) is not None:
                            continue
                        if s2.env.pop(('throw',), None) is not None:
                            tr = n.get("tr")
                            if tr is not None:
                                for h in prep.handlers.get(tr, ()):
                                    extra.append((h, s2))
                            else:
                                th = getattr(self.rule, "on_throw", None)
                                if th:
                                    th(self, fr, s2, n)
                            continue
                        nxt.append((s2, v2))
                else:
                    self.elem(fr, s, vals, e)
                    nxt.append((s, vals))
            states = nxt
            if len(states) > 1:
                # collapse duplicates after forks
                uniq = {}
                for s, v in states:
                    kk = (s.key(), frozenset(v.items()))
                    uniq.setdefault(kk, (s, v))
                states = list(uniq.values())
        out = list(extra)
        succs = b["s"]
        t = b.get("t")
        if b.get("noret"):
            return out
        for s, vals in states:
            if t is None or len([x for x in succs if x is not None]) <= 1 and (t is None or t.get("k") not in ("&&", "||", "ConditionalOperator")):
                for x in succs:
                    if x is not None:
                        out.append((x, s))
                        break
                continue
            kind = t["k"]
            if kind == "CXXTryStmt":
                continue
            if kind == "SwitchStmt":
                cv = self.val(fr, s, vals, t.get("c")) if t.get("c") is not None else ('s', fr.id, -2, 0)
                self.switch(fr, s, cv, b, out)
                continue
            if kind in ("GotoStmt", "IndirectGotoStmt"):
                for x in succs:
                    if x is not None:
                        out.append((x, s))
                continue
            if t.get("c") is None:
                for x in succs:
                    if x is not None:
                        out.append((x, s.copy()))
                continue
            cv = self.val(fr, s, vals, t["c"])
            tn = t.get("n")
            asrt = t.get("as") and self.rule.asserts == "ignore" and kind == "ConditionalOperator"
            for i, truth in ((0, True), (1, False)):
                if i >= len(succs) or succs[i] is None:
                    continue
                if asrt:
                    if not truth:
                        continue
                    s2 = s.copy()
                else:
                    s2 = s.copy()
                    if not self.assume(fr, s2, cv, truth):
                        continue
                if kind in ("&&", "||") and tn is not None:
                    if truth == (kind == "||"):
                        self.short_circuit(fr, s2, tn, truth)
                    else:
                        s2.env.pop(('sc', fr.id, tn), None)
                elif kind in ("ConditionalOperator", "BinaryConditionalOperator") and tn in fr.prep.where:
                    s2.env[('sel', fr.id, tn)] = ('c', 1 if truth else 0)
                self.rule.on_edge(self, fr, s2, b, succs[i])
                out.append((succs[i], s2))
        return out

    def short_circuit(self, fr, st, nid, truth):
        """The operator `nid` is decided by its left operand; so may be the
        expressions around it, which are evaluated later as elements."""
        prep = fr.prep
        while True:
            if nid in prep.where:
                st.env[('sc', fr.id, nid)] = TRUE if truth else NULL
                return
            p = prep.bparent.get(nid)
            if p is None:
                return
            pid, role = p
            pn = prep.nodes[pid]
            if role == "!":
                truth = not truth
            elif role == "a":
                if truth != (pn["op"] == "||"):
                    return
            nid = pid

    def switch(self, fr, st, cv, b, out):
        prep = fr.prep
        cases = []
        default = None
        for x in b["s"]:
            if x is None:
                continue
            lab = prep.blocks[x].get("lab")
            if lab and lab["k"] == "CaseStmt" and lab.get("v"):
                cases.append((x, int(lab["v"][0])))
            else:
                default = x
        for x, v in cases:
            s2 = st.copy()
            if self.assume(fr, s2, self.mkop(s2, fr, -3, "==", cv, ('c', v)), True):
                out.append((x, s2))
        if default is not None:
            s2 = st.copy()
            ok = True
            for x, v in cases:
                if not self.assume(fr, s2, self.mkop(s2, fr, -3, "==", cv, ('c', v)), False):
                    ok = False
                    break
            if ok:
                out.append((default, s2))

    def elem(self, fr, st, vals, e):
        if "dt" in e:
            loc = ('v', fr.id, e["dt"])
            self.rule.on_dtor(self, fr, st, e, loc, fr.fn["types"][e["t"]])
        elif "init" in e:
            base = self.deref(fr.this)
            loc = ('f', base, e["init"])
            if e.get("e") is not None:
                x = self.get(fr, st, vals, e["e"])
                en = fr.prep.nodes[e["e"]]
                if x is not None:
                    if x[0] == 'obj':
                        self.adopt(fr, st, ('tmp', fr.id, e["e"]), loc)
                        self.rule.on_write(self, fr, st, en, loc, x)
                    else:
                        v = self.load(fr, st, x[1]) if x[0] == 'L' else x
                        self.write(fr, st, dict(en, _id=e["e"]), loc, v)
        elif "initbase" in e:
            if e.get("e") is not None and fr.this is not None:
                self.adopt(fr, st, ('tmp', fr.id, e["e"]), self.deref(fr.this))

    # -- entry -----------------------------------------------------------------
    def start(self, key, st=None, this=None):
        fn = self.p.F[key]
        prep = self.p.prep(key)
        fid = self.fid((None, key))
        fr = Frame(fn, prep, fid, this or ('this',), (None, key), None, 0)
        if st is None:
            st = State()
        if fn.get("lambda"):
            fr.cap = None
        return self.run(fr, st)
