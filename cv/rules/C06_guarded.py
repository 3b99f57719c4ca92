"""Lockset analysis.  A guarded-by table pairs each datum that threads share with the mutex declared beside it.  Every
function that touches such a datum is followed on every path (local helpers and local lambdas as part of their
callers, thread bodies on their own) with the set of mutexes held; each read, write, library call on, iterator into
or pointer through the datum must happen while the guard of the same object is held, unless the object is still
private to the function that made it.  Operations whose contract is to run under a lock are checked at their call
sites.  Locals that thread bodies capture by reference must be atomic, unmodified, private by index, or consistently
locked, in the thread bodies and in the parent until it has joined them."""
from ..common import *
from ..engine import contains, _children
from ..locks import *
from .C01_publish import node_id

ASSUMPTIONS = ["the table in this rule is complete: it was made by reading every class that owns a mutex, and the "
               "rule fails when a class with a mutex member is missing from it",
               "an object is private until it is stored outside the function that made it or passed to something "
               "that starts a thread"]

NS = "cottontail::"
AN = NS + "(anonymous namespace)::"
# class -> (lock field, guarded fields, fields whose pointee is guarded, fields guarded for writing only)
TABLE = {
    NS + "Fluffle": ("lock", "merge workers address sequence merging warrens hazel_merges parameters cache working",
                     "parameters", ""),
    NS + "Bigwig": ("warrens_lock_", "warrens_valid_ warrens_ cache_", "", ""),
    NS + "SimpleIdx": ("cache_lock_", "pst_map_ pst_ cache_ counts_ stamp_ ages_ large_total_", "", ""),
    NS + "SimpleTxt": ("mutex_", "computed_tokens_ computed_tokens_valid_ memo_offset_ memo_skip_ memo_end_ "
                       "memo_valid_", "io_", ""),
    NS + "SimpleAnnotator": ("lock_", "failed_ adding_ isready_ added_files_ added_ workers_", "added_", ""),
    NS + "SimpleAppender": ("lock_", "failed_ adding_ offset_ address_ txt_ io_", "io_", ""),
    NS + "Committable": ("lock_", "started_ readied_ vote_", "", ""),
    AN + "HazelFile": ("mutex_", "in_", "", ""),
    AN + "HazelTxt": ("hopper_lock_", "", "hopper_", ""),
    NS + "FiverTxt": ("mutex_", "count_ range_valid_ range_p_ range_q_", "hopper_", ""),
    NS + "OwslaCache": ("lock_", "postings_", "", ""),
    NS + "ReadGate": ("mutex_", "available_", "", ""),
    NS + "CacheGate": ("mutex_", "open_", "", ""),
    NS + "Working": ("lock_", "load_ temp_counter_", "", ""),
    NS + "Porter": ("lock_", "b k k0 j", "", ""),
}
# reads by the only thread that writes (the owner of the view) need no lock
OWNER_READS = {NS + "Bigwig": ("start_", "end_")}
# classes with a mutex that guards something other than a field of their own
OTHER = {NS + "meadowlark::Forager": "contract of forage_",
         NS + "Utf8Tokenizer": "static tables", NS + "SafeMap": "template, below",
         AN + "HazelTxt": "cache_write_lock_ guards the entries' bytes"}
# operations that must be entered with a lock held: overrides of -> lock (class, field)
CONTRACT = {NS + "meadowlark::Forager::forage_": (NS + "meadowlark::Forager", "mutex_"),
            NS + "Committable::transaction_": (NS + "Committable", "lock_"),
            NS + "Committable::ready_": (NS + "Committable", "lock_"),
            NS + "Committable::commit_": (NS + "Committable", "lock_"),
            NS + "Committable::abort_": (NS + "Committable", "lock_")}
# calls through a pointer field to an object in the shared list
SHARED_CALLS = {NS + "Bigwig::fiver_": (("commit", "abort", "start", "end", "relocate", "set_sequence", "discard"),
                                        NS + "Bigwig::fluffle_", NS + "Fluffle::lock")}


class Guards:
    def __init__(self, prog):
        self.f, self.content, self.classes = {}, {}, {}
        for c, (lock, fields, content, _) in TABLE.items():
            self.classes[c] = lock
            decl = {x["n"]: x["t"] for x in prog.R[c]["fields"]} if c in prog.R else {}
            for x in fields.split():
                if x in decl and lock in decl and not decl[x].startswith("std::atomic"):
                    self.f[c + "::" + x] = c + "::" + lock
            for x in content.split():
                self.content[c + "::" + x] = c + "::" + lock
        for q in prog.R:
            if q.startswith(NS + "SafeMap"):
                self.f[q + "::m_"] = q + "::mu_"
        self.bytes = AN + "HazelTextCacheEntry::bytes"
        self.byteslock = AN + "HazelTxt::cache_write_lock_"
        self.gates = {NS + "CacheGate::open_"}
        self.flags = self.gates | {AN + "HazelTextCacheEntry::present"}
        self.statics = {}
        for k, f in prog.F.items():
            if f.get("cls") == NS + "Utf8Tokenizer":
                for n in f["nodes"]:
                    if n and n["k"] == "ref" and n.get("dk") == "global" and n["d"].startswith(
                            (NS + "Utf8Tokenizer::actions_", NS + "Utf8Tokenizer::folds_")):
                        self.statics[n["d"]] = NS + "Utf8Tokenizer::lock_"

    def fields(self):
        return set(self.f) | set(self.content) | {self.bytes} | self.flags


def fresh(v):
    """The object was made in this operation: its path starts at new or at a local."""
    while isinstance(v, tuple) and v:
        if v[0] == 'new':
            return True
        if v[0] in ('v', 'tmp'):
            return True
        if v[0] in ('f', 'e', 'd', 'addr') and isinstance(v[1], tuple):
            v = v[1]
            continue
        return False
    return False


def origin(v):
    while isinstance(v, tuple) and v and v[0] in ('f', 'e', 'd', 'addr', 'i') and isinstance(v[1], tuple):
        v = v[1]
    return v


class Guarded(LockRule):
    max_depth = 6
    widen_at = 2
    max_entries = 2
    collapse = True

    def __init__(self, prog, ctx, hot, g, starts, root):
        super().__init__(prog)
        self.ctx, self.hot, self.g, self.starts, self.root = ctx, hot, g, starts, root
        self.into, self.made, self.loads = {}, set(), {}    # by the site that made them
        f = prog.F[root]
        self.cls, self.rootname = f.get("cls"), f["name"]
        self.special = f.get("ctor") or f.get("dtor") or self.cls and (
            f["name"].startswith("~") or f["name"] == self.cls.rsplit("::", 1)[-1])

    def inline(self, fr, node, key):
        f = self.prog.F[key]
        if key not in self.hot:
            return False
        return self.prog.is_helper(key, fr.fn["file"]) or bool(f.get("lambda")) or \
            f.get("file", "").endswith(".h") and not f.get("virtual") and f.get("cls") == fr.fn.get("cls")

    # -- where a datum may be touched -----------------------------------------
    def held_named(self, st, path, name):
        if ('H', canon(path)) in st.r:
            return True
        return any(mutex_name(p) == name for p in self.held(st))

    def private(self, st, base):
        base = canon(base)
        if self.special and (base == ('d', ('this',)) or base == ('this',)):
            return True
        o = origin(base)
        if o is None:
            return False
        if o in self.made:
            return ('X', o) not in st.r
        return o[0] in ('v', 'tmp') and fresh(base)

    def need(self, ex, fr, st, node, base, field, lock, acc, what=None):
        self.ctx.count("guarded accesses checked")
        if self.held_named(st, ('f', base, lock), lock):
            return
        if self.private(st, base):
            return
        c = field.rsplit("::", 1)[0]
        if c in OWNER_READS and acc not in ("W", "RW", "CALLM") and self.top(fr) in OWNER_READS[c]:
            return
        verb = {"W": "writes", "RW": "writes"}.get(acc, "uses" if acc in ("CALLM", "REF", "ADDR") else "reads")
        self.ctx.violation("%s: %s %s" % (fr.fn["qn"], verb, pretty(field)), fr.where(node),
                           "%s %s%s without holding %s" % (verb, what or "", pretty(field), pretty(lock)), fr.chain())

    def top(self, fr):
        while fr.parent is not None:
            fr = fr.parent
        return fr.fn["name"]

    def check_loc(self, ex, fr, st, node, loc, acc, inner=False):
        """loc or what contains it is a guarded field."""
        x, first = loc, True
        while isinstance(x, tuple) and x and x[0] in ('f', 'e'):
            if x[0] == 'f':
                lk = self.g.f.get(x[2])
                if lk is not None and (first or inner):
                    self.need(ex, fr, st, node, x[1], x[2], lk, acc)
                    return
                if x[2] == self.g.bytes:
                    self.once(fr, st, node, x, acc)
                    return
            first = False
            x = x[1]
            inner = True

    # -- data published once through an atomic flag ------------------------------
    def once(self, fr, st, node, loc, acc):
        self.ctx.count("guarded accesses checked")
        if self.private(st, loc[1]):
            return
        locked = any(mutex_name(p) == self.g.byteslock for p in self.held(st))
        w = acc in ("W", "RW", "REF", "ADDR")
        msg = None
        if w and not locked:
            msg = "writes %s without holding " + pretty(self.g.byteslock)
        elif w and ('S', canon(loc[1])) in st.r:
            msg = "changes %s after announcing it as present"
        elif not w and not locked and ('P', canon(loc[1])) not in st.r:
            msg = "reads %s before an acquiring load has seen it present"
        if msg:
            self.ctx.violation("%s: %s %s" % (fr.fn["qn"], "writes" if w else "reads", pretty(loc[2])), fr.where(node),
                               msg % pretty(loc[2]), fr.chain())

    def flag_call(self, ex, fr, st, node, recv, args):
        name = short(node.get("cn"))
        if recv is None or recv[0] != 'addr' or recv[1][0] != 'f' or recv[1][2] not in self.g.flags:
            return None
        loc = recv[1]

        def order(i):
            x = args[i] if i < len(args) else None
            if x is not None and x[0] == 'L':
                x = ex.load(fr, st, x[1])
            return x[1] if x is not None and x[0] == 'c' and not isinstance(x[1], bool) else 5
        self.ctx.count("publication flag operations checked")
        locked = any(mutex_name(p) == self.g.byteslock for p in self.held(st))
        if name in ("store", "operator=", "exchange") or name.startswith("compare_exchange"):
            o = order({"store": 1, "exchange": 1}.get(name, 2))
            if name == "operator=":
                o = 5
            if o in (0, 1, 2):
                self.ctx.violation("%s: weak store of %s" % (fr.fn["qn"], pretty(loc[2])), fr.where(node),
                                   "announces data through %s without release ordering" % pretty(loc[2]), fr.chain())
            st.r[('S', canon(loc[1]))] = 1
        elif name in ("load", "wait") or name.startswith("operator "):
            o = order({"load": 0, "wait": 1}.get(name, 9))
            if o in (0, 1, 3) and not locked:
                if loc[2] in self.g.gates:
                    self.ctx.violation("%s: weak load of %s" % (fr.fn["qn"], pretty(loc[2])), fr.where(node),
                                       "consults %s without acquire ordering" % pretty(loc[2]), fr.chain())
                return ('val', ex.sym(st, fr, node_id(fr, node)))
            if name != "wait":
                v = ex.sym(st, fr, node_id(fr, node))
                self.loads[v] = canon(loc[1])
                return ('val', v)
        return None

    def on_assume(self, ex, fr, st, v, truth):
        if truth and v in self.loads:
            st.r[('P', self.loads[v])] = 1

    def on_exit(self, ex, fr, st, value):
        if fr.depth:
            for k in [k for k in st.r if k[0] == 'S']:
                del st.r[k]

    def on_mem(self, ex, fr, st, node, loc, acc):
        if node.get("isref"):
            return
        if loc[0] == 'f' and node["f"] == loc[2]:
            if loc[2] in self.g.f:
                if acc == "DECAY":
                    acc = "R"
                if acc in ("REF", "CREF") and self.bound(fr, node):
                    return      # judged where the reference is used
                self.need(ex, fr, st, node, loc[1], loc[2], self.g.f[loc[2]], acc)
            else:
                self.check_loc(ex, fr, st, node, loc, acc, True)

    def bound(self, fr, node):
        """The node initialises a reference variable."""
        p = fr.prep
        if not hasattr(p, "_bound"):
            p._bound = set()
            for n in p.nodes:
                if n and n["k"] == "decl":
                    for v in n["vars"]:
                        t = fr.fn["types"][v["t"]] if isinstance(v.get("t"), int) else ""
                        if t.strip().endswith("&") and isinstance(v.get("init"), int):
                            p._bound.add(v["init"])
        return node_id(fr, node) in p._bound

    def on_var(self, ex, fr, st, node, loc, acc):
        if loc[0] == 'g':
            lk = self.g.statics.get(loc[1])
            if lk and (acc in ("W", "RW", "CALLM") or self.special):
                self.ctx.count("guarded accesses checked")
                if not any(mutex_name(p).startswith(lk) for p in self.held(st)):
                    self.ctx.violation("%s: %s" % (fr.fn["qn"], pretty(loc[1])), fr.where(node),
                                       "accesses %s without holding %s" % (pretty(loc[1]), pretty(lk)), fr.chain())
            return
        if node.get("isref"):
            self.check_loc(ex, fr, st, node, loc, acc, True)

    def on_deref(self, ex, fr, st, node, value):
        v = canon(value)
        t = self.into.get(v)
        if t is not None:
            base, field = t
            self.need(ex, fr, st, node, base, field, self.g.f[field], "R", "an element of ")
        if v and v[0] == 'addr':
            self.check_loc(ex, fr, st, node, v[1], "R", True)
        if v and v[0] == 'i' and v[1][0] == 'f' and v[1][2] in self.g.content:
            self.need(ex, fr, st, node, v[1][1], v[1][2], self.g.content[v[1][2]], "R", "what is behind ")

    # -- calls -------------------------------------------------------------------
    def on_call(self, ex, fr, st, node, targets, recv, args):
        r = self.lock_call(ex, fr, st, node, recv, args)
        if r is not None:
            return r
        cn = node.get("cn") or ""
        if cn.startswith("std::") and node.get("recv") is not None:
            r = self.flag_call(ex, fr, st, node, recv, args)
            if r is not None:
                return r
        self.contract(ex, fr, st, node, targets, recv)
        if recv is not None and node.get("recv") is not None:
            rv = canon(recv)
            sc = self.shared_call(fr, rv)
            if sc and short(cn) in sc[0] and not cn.startswith("std::"):
                self.ctx.count("calls on shared shards checked")
                base = rv[1][1]
                if not any(mutex_name(p) == sc[2] for p in self.held(st)) and not self.private(st, base):
                    self.ctx.violation("%s: %s without %s" % (fr.fn["qn"], short(cn), pretty(sc[2])), fr.where(node),
                                       "calls %s on a shard in the shared list without holding %s"
                                       % (short(cn), pretty(sc[2])), fr.chain())
        if targets and any(k in self.starts for k in targets):
            for x in list(args) + [recv]:
                self.escape(ex, st, x)
        return None

    def shared_call(self, fr, rv):
        if rv and rv[0] == 'i' and rv[1][0] == 'f' and rv[1][2] in SHARED_CALLS:
            return SHARED_CALLS[rv[1][2]]
        return None

    def escape(self, ex, st, x):
        if x is None:
            return
        if x[0] == 'L':
            x = ex.load(None, st, x[1])
        o = origin(canon(x))
        if o in self.made:
            st.r[('X', o)] = 1

    def on_write(self, ex, fr, st, node, loc, value):
        v = canon(value)
        # iterators and pointers copied keep their tag
        o = origin(v)
        if o is not None and o[0] == 'new' and loc[0] in ('f', 'e') and not fresh(canon(loc)):
            self.escape(ex, st, v)

    def on_new(self, ex, fr, st, node, value):
        t = fr.prep.type(node)
        if value[0] == 'new' and any(c in t for c in TABLE):
            self.made.add(value)

    def keep_value(self, st, loc, value):
        return value in self.made or value in self.into

    def contract(self, ex, fr, st, node, targets, recv):
        for k in targets or ():
            c = self.contract_of(k)
            if c is None:
                continue
            lock = c[0] + "::" + c[1]
            self.ctx.count("calls under contract checked")
            if any(mutex_name(p) == lock for p in self.held(st)):
                continue
            self.ctx.violation("%s: calls %s unlocked" % (fr.fn["qn"], short(self.prog.F[k]["qn"])), fr.where(node),
                               "calls %s, which must run under %s, without holding it"
                               % (pretty(self.prog.F[k]["qn"]), pretty(lock)), fr.chain())
            return

    def contract_of(self, k):
        memo = self.g.__dict__.setdefault("contracts", {})
        if not memo:
            for q, lock in CONTRACT.items():
                for kk in self.prog.by_qn.get(q, []) + [m["key"] for r in self.prog.R.values() for m in r["methods"]
                                                        if m["qn"] == q]:
                    for o in self.prog.override_closure(kk):
                        memo[o] = lock
            memo[None] = None
        return memo.get(k)

    # names of library calls that give a way into a container
    INTO = {"find", "begin", "end", "cbegin", "cend", "rbegin", "lower_bound", "upper_bound", "front", "back", "at",
            "data", "emplace", "insert", "try_emplace"}

    def after_call(self, ex, fr, st, node, targets, recv, args, value):
        cn = node.get("cn") or ""
        if cn.startswith("std::") and recv is not None and recv[0] == 'addr' and short(cn) in self.INTO:
            loc = recv[1]
            while isinstance(loc, tuple) and loc and loc[0] == 'e':
                loc = loc[1]
            if loc[0] == 'f' and loc[2] in self.g.f and value is not None:
                v = value[1] if value[0] == 'L' else value
                v = v[1] if v[0] == 'd' else v
                if v[0] in ('s', 'i'):
                    self.into[canon(v)] = (loc[1], loc[2])
        if targets and value is not None and value[0] == 's' and all(
                self.prog.F[k]["name"] == "make" and self.prog.F[k].get("cls") in TABLE for k in targets):
            self.made.add(canon(value))
        # lambdas handed to library algorithms run here
        if cn.startswith("std::") and not targets and short(cn) not in ("thread", "emplace_back", "push_back", "async",
                                                                       "emplace", "move", "forward", "wait"):
            for x in args:
                self.run_lambda(ex, fr, st, node, x)
        if cn.startswith("std::") and short(cn) == "wait":
            for x in args:
                self.run_lambda(ex, fr, st, node, x)

    def run_lambda(self, ex, fr, st, node, x):
        if x is None:
            return
        if x[0] == 'L':
            x = ex.load(fr, st, x[1])
        if x[0] == 'lam' and x[1] in self.hot and fr.depth < self.max_depth and x[1] not in fr.stack:
            f = self.prog.F[x[1]]
            s2 = st.copy()
            args = [('s', fr.id, node_id(fr, node), 'arg%d' % i) for i, _ in enumerate(f["params"])]
            ex.invoke(fr, s2, node_id(fr, node), node, x[1], args, None, x)

    def on_ctor(self, ex, fr, st, node, args):
        if node["cn"] in GUARDS:
            return self.guard_ctor(ex, fr, st, node, args)
        if node["cn"] in ("std::thread", "std::jthread"):
            for x in args:
                self.escape(ex, st, x)
                if x is not None and x[0] == 'lam':
                    for c in x[2]:
                        self.escape(ex, st, c[2] if not c[1] else ('L', c[2]))
        return None


def mutex_owners(prog):
    out = {}
    for q, r in prog.R.items():
        for f in r["fields"]:
            if is_mutex(f["t"]):
                out.setdefault(q, []).append(f["n"])
    return out


# -- locals shared with threads -------------------------------------------------
EXEMPT = ("std::atomic", "std::mutex", "std::condition_variable", "std::once_flag", "std::counting_semaphore",
          "std::recursive_mutex", "std::shared_mutex")


def index_of(prep):
    """node id of a container -> node id of the index applied to it."""
    if not hasattr(prep, "_indexed"):
        d = prep._indexed = {}
        for n in prep.nodes:
            if not n:
                continue
            if n["k"] == "idx":
                d[n["b"]] = n["i"]
            elif n["k"] == "call" and n.get("op") == "[]" and n.get("recv") is not None and n["args"]:
                d[n["recv"]] = n["args"][0]
    return prep._indexed


class Shared(LockRule):
    """Follows a function that starts threads, and the thread bodies where they are started."""
    max_depth = 4
    widen_at = 0
    max_entries = 2
    collapse = True

    def __init__(self, prog, ctx, entries, vars):
        super().__init__(prog)
        self.ctx, self.entries, self.vars = ctx, entries, vars
        self.seen = {}

    def inline(self, fr, node, key):
        return bool(self.prog.F[key].get("lambda"))

    def note(self, fr, st, node, d, w):
        thread = None
        f = fr
        while f is not None:
            if f.key in self.entries:
                thread = f.key
            f = f.parent
        held = frozenset(mutex_name(p) for p in self.held(st))
        nid = None if fr.depth else node_id(fr, node)
        top = fr
        while thread is None and top.parent is not None:
            nid, top = node_id(top.parent, top.node), top.parent
        k = (d, thread, fr.where(node), w, nid)
        self.seen[k] = self.seen[k] & held if k in self.seen else held

    def on_var(self, ex, fr, st, node, loc, acc):
        d = node["d"]
        if d not in self.vars or node.get("dk") not in ("local", "param") or acc == "CAPTURE":
            return
        w = acc in ("W", "RW", "CALLM", "ADDR", "REF")
        if w:
            p = fr.prep
            nid = node_id(fr, node)
            i = index_of(p).get(nid)
            t = self.vars[d]
            if i is not None and acc != "W" and "vector<bool" not in t and ("vector<" in t or "[" in t or "array<" in t):
                n = p.nodes[i]
                while n and n["k"] == "cast":
                    n = p.nodes[n["e"]]
                if n and (n["k"] == "ref" and n["d"] not in self.vars or n["k"] == "lit"):
                    w = False       # an element of its own
        self.note(fr, st, node, d, w)

    def on_call(self, ex, fr, st, node, targets, recv, args):
        r = self.lock_call(ex, fr, st, node, recv, args)
        if r is not None:
            return r
        # what a captured pointer leads to, handed on
        for a in node["args"]:
            n = fr.prep.nodes[a] if a is not None else None
            while n and n["k"] == "cast":
                n = fr.prep.nodes[n["e"]]
            if n and n["k"] == "ref" and n["d"] in self.vars:
                t = self.vars[n["d"]].strip()
                if t.endswith("*") and not t.startswith("const") and "basic_string" in t:
                    self.note(fr, st, node, "*" + n["d"], True)
        return None

    def on_ctor(self, ex, fr, st, node, args):
        if node["cn"] in GUARDS:
            return self.guard_ctor(ex, fr, st, node, args)
        if node["cn"] in ("std::thread", "std::jthread"):
            self.spawn(ex, fr, st, node, args)
        return None

    def after_call(self, ex, fr, st, node, targets, recv, args, value):
        cn = node.get("cn") or ""
        if cn == "std::async" or short(cn) in ("emplace_back",) and cn.startswith("std::"):
            self.spawn(ex, fr, st, node, args)

    def spawn(self, ex, fr, st, node, args):
        for x in args:
            if x is not None and x[0] == 'L':
                x = ex.load(fr, st, x[1])
            if x is not None and x[0] == 'lam' and x[1] in self.entries and x[1] not in fr.stack:
                f = self.prog.F[x[1]]
                s2 = st.copy()
                for k in [k for k in s2.r if k[0] in 'HG']:
                    del s2.r[k]
                vals = [('s', fr.id, node_id(fr, node), 'arg%d' % i) for i, _ in enumerate(f["params"])]
                ex.invoke(fr, s2, node_id(fr, node), node, x[1], vals, None, x)
                self.ctx.count("thread bodies followed")


def concurrent_blocks(prog, f, entries):
    """(node ids that run while a thread may be running, creation in a loop?) of a spawner, from its CFG."""
    nodes = f["nodes"]
    blocks = {b["id"]: b for b in f["blocks"]}
    def elems(b):
        out, todo = set(), [e for e in b["e"] if isinstance(e, int)]
        for e in b["e"]:
            if isinstance(e, dict) and isinstance(e.get("e"), int):
                todo.append(e["e"])
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            if nodes[x]:
                todo.extend(_children(nodes[x]))
        return out
    el = {i: elems(b) for i, b in blocks.items()}
    succ = {i: [s for s in b["s"] if s is not None and s in blocks] for i, b in blocks.items()}
    spawn, join = set(), set()
    containers = set()
    for i, ns in el.items():
        for x in ns:
            n = nodes[x]
            if not n:
                continue
            if n["k"] == "ctor" and n["cn"] in ("std::thread", "std::jthread") and n.get("cp") not in ("move", "copy",
                                                                                                    "default") or \
                    n["k"] == "call" and n.get("cn") == "std::async" or n["k"] == "call" and short(n.get("cn")) == \
                    "emplace_back" and n.get("recv") is not None and nodes[n["recv"]] and "t" in nodes[n["recv"]] and \
                    "std::thread" in f["types"][nodes[n["recv"]]["t"]]:
                spawn.add(i)
            if n["k"] == "call" and (n.get("cn") or "") in ("std::thread::join", "std::jthread::join",
                                                           "std::future::get", "std::future::wait"):
                join.add(i)
            if n["k"] == "call" and n.get("c") and not (n.get("cn") or "").startswith("std::"):
                for a in n["args"]:
                    m = nodes[a] if a is not None else None
                    if m and "t" in m and "std::thread" in f["types"][m["t"]]:
                        join.add(i)
    def reach(src):
        out, todo = set(), list(src)
        while todo:
            x = todo.pop()
            for s in succ[x]:
                if s not in out:
                    out.add(s)
                    todo.append(s)
        return out
    fwd = {i: reach([i]) for i in blocks}
    loops = {i for i in spawn if i in fwd[i]}
    barrier = set(join)
    for j in join:
        if j in fwd[j]:
            barrier |= {i for i in blocks if j in fwd[i] and i in fwd[j] and
                        not (i in spawn)} if not any(s in fwd[j] and j in fwd[s] for s in spawn) else set()
    out, todo = set(), []
    for i in spawn:
        todo.extend(s for s in succ[i] if s not in barrier)
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        todo.extend(s for s in succ[x] if s not in barrier)
    ids = set()
    for i in out:
        ids |= el[i]
    return ids, bool(loops) or len(spawn) > 1


def shared_locals(ctx, prog, k):
    f = prog.F[k]
    entries = {e for e in thread_entries(prog, f) if prog.F[e].get("lambda")}
    if not entries:
        return
    vars = {}
    todo, seen = list(entries), set()
    while todo:
        e = todo.pop()
        if e in seen:
            continue
        seen.add(e)
        for host in [f] + [prog.F[x] for x in seen]:
            for n in host["nodes"]:
                if n and n["k"] == "lambda" and n["fn"] == e:
                    for c in n["caps"]:
                        if c["ref"] and c["d"] != "this":
                            vars[c["d"]] = None
    types = {}
    hosts = [f] + [prog.F[n["fn"]] for n in f["nodes"] if n and n["k"] == "lambda" and n["fn"] in prog.F]
    for h in hosts:
        for p in h["params"]:
            types[p["d"]] = h["types"][p["t"]]
        for n in h["nodes"]:
            if n and n["k"] == "decl":
                for v in n["vars"]:
                    types[v["d"]] = h["types"][v["t"]]
    vars = {d: types.get(d, "") for d in vars}
    vars = {d: t for d, t in vars.items() if not bare(t).startswith(EXEMPT) and "lambda" not in t
            and not (t.startswith("const ") and not t.rstrip("&").strip().endswith("*"))}
    ctx.count("functions that start threads")
    if not vars:
        return
    rule = Shared(prog, ctx, entries, vars)
    ex = Exec(prog, rule)
    ex.start(k)
    ctx.explored(ex)
    during, many = concurrent_blocks(prog, f, entries)
    by = {}
    for (d, thread, where, w, nid), held in rule.seen.items():
        if thread is None and nid not in during:
            continue
        by.setdefault(d, []).append((thread, where, w, held))
    for d, accs in sorted(by.items()):
        ctx.count("shared locals checked")
        inth = [a for a in accs if a[0] is not None]
        if not inth or not any(a[2] for a in accs):
            continue
        if not many and len({a[0] for a in accs}) < 2:
            continue
        common = None
        for a in accs:
            common = a[3] if common is None else common & a[3]
        if common:
            continue
        if all(a[2] is False for a in inth) and all(a[0] is not None for a in accs):
            continue
        allh = [m for a in accs for m in a[3]]
        best = max(set(allh), key=allh.count) if allh else None
        bad = [a for a in accs if best is None or best not in a[3]]
        bad.sort(key=lambda a: (not a[2], a[1]))
        name = d.split("@")[0]
        ctx.violation("%s: %s shared with threads" % (f["qn"], name), bad[0][1],
                      "%s is %s here without %s while threads that share it run"
                      % (name, "written" if bad[0][2] else "read", pretty(best) if best else "any common lock"),
                      sorted({a[1] for a in accs})[:6])


def run(ctx):
    prog = ctx.prog()
    g = Guards(prog)
    own = mutex_owners(prog)
    for q, names in sorted(own.items()):
        if q.startswith(NS) and q not in TABLE and q not in OTHER and not q.startswith(NS + "SafeMap"):
            if prog.R[q]["fields"] and "lambda" not in q:
                ctx.violation("%s: unlisted mutex" % q, q, "%s has a mutex (%s) that the guarded-by table does not "
                              "know" % (pretty(q), ", ".join(names)))
    for c, lock in g.classes.items():
        if c in own:
            ctx.count("classes with guarded data")
    fields = g.fields()

    def direct(f):
        for n in f["nodes"]:
            if not n:
                continue
            if n["k"] == "mem" and n["f"] in fields:
                return True
            if n["k"] == "ref" and n.get("dk") == "global" and n["d"] in g.statics:
                return True
        return False
    dset = {k for k, f in prog.F.items() if direct(f)}
    rule0 = Guarded(prog, ctx, set(), g, set(), next(iter(prog.F)))
    for k, f in prog.F.items():
        for n in f["nodes"]:
            if n and n["k"] == "call" and n.get("c"):
                if any(rule0.contract_of(t) for t in prog.targets(f, n)):
                    dset.add(k)
                r = n.get("recv")
                if r is not None and f["nodes"][r] and f["nodes"][r]["k"] in ("mem",) and \
                        f["nodes"][r]["f"] in SHARED_CALLS:
                    dset.add(k)
            elif n and n["k"] == "mem" and n["f"] in SHARED_CALLS:
                dset.add(k)
    starters = prog.closure_pred(lambda f: bool(thread_entries(prog, f)))
    entries = set()
    for f in prog.F.values():
        entries |= thread_entries(prog, f)
    hot = hot_closure(prog, dset | (locky(prog) & {k for k in prog.F if prog.is_helper(k)}))
    callers = prog.callers()
    roots = []
    for k in sorted(hot):
        f = prog.F[k]
        if k in entries:
            roots.append(k)
        elif f.get("lambda"):
            if not any(c in hot for c in callers.get(k, ())):
                roots.append(k)
        elif not (prog.is_helper(k) and any(c in hot for c in callers.get(k, ()))):
            roots.append(k)
    if os_debug():
        print("\n".join(prog.F[k]["qn"] for k in roots))

    def one(c, k):
        rule = Guarded(prog, c, hot, g, starters, k)
        ex = Exec(prog, rule)
        st = State()
        lk = rule.contract_of(k)
        if lk:
            st.r[('H', ('f', ('d', ('this',)), lk[0] + "::" + lk[1]))] = ('c', 0)
        ex.start(k, st)
        c.count("operations analysed")
        c.sample("analysed: " + prog.F[k]["qn"])
        c.explored(ex)
    ctx.pmap(one, roots)
    ctx.pmap(lambda c, k: shared_locals(c, prog, k),
             [k for k, f in sorted(prog.F.items()) if thread_entries(prog, f) and
              (not f["file"].startswith("apps/") or f["file"] == "apps/ssr-server.cc")])
    ctx.floor("operations analysed", 40)
    ctx.floor("guarded accesses checked", 150)


def os_debug():
    import os
    return os.environ.get("CV_DEBUG")
