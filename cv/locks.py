"""Mutexes: which are held where.  Shared by the concurrency rules.

A mutex is identified by the symbolic path of the object (stamps of unknown
writes removed, so a path names the same mutex before and after a call)."""
from .common import *

MUTEX = ("std::mutex", "std::recursive_mutex", "std::timed_mutex", "std::shared_mutex")
GUARDS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")


def bare(t):
    return t.replace("const ", "").replace("volatile ", "").strip().rstrip("&").strip()


def is_mutex(t):
    return bare(t) in MUTEX


def is_guard(t):
    return bare(t).startswith(GUARDS)


def canon(v):
    """A path without havoc stamps."""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == 'i' and isinstance(v[1], tuple):
            return ('i', canon(v[1]))
        return tuple(canon(x) if isinstance(x, tuple) else x for x in v)
    return v


def mutex_name(path):
    """The declaration the mutex belongs to."""
    while path:
        if path[0] == 'f':
            return path[2]
        if path[0] == 'v':
            return "local " + str(path[2])
        if path[0] == 'g':
            return str(path[1])
        if path[0] in ('d', 'e', 'i', 'addr') and isinstance(path[1], tuple):
            path = path[1]
            continue
        return str(path[0])
    return "?"


def pretty(name):
    return name.replace("cottontail::", "").split("@")[0].replace("local ", "")


def owner_class(prog, t):
    """The class a receiver type denotes, through pointers."""
    t = bare(t)
    for s in ("std::shared_ptr<", "std::unique_ptr<", "std::__shared_ptr_access<", "std::__shared_ptr<"):
        if t.startswith(s):
            t = t[len(s):]
            d = 0
            for i, c in enumerate(t):
                if c == '<':
                    d += 1
                elif c == '>' and d:
                    d -= 1
                elif c in ',>' and d == 0:
                    t = t[:i]
                    break
            t = bare(t)
    t = t.rstrip("*").strip()
    t = bare(t)
    return t if t in prog.R else None


def locky(prog):
    """Functions with a direct lock or guard operation."""
    if hasattr(prog, "_locky"):
        return prog._locky
    out = set()
    for k, f in prog.F.items():
        for n in f["nodes"]:
            if not n:
                continue
            if n["k"] == "call" and (n.get("cn") or "").rsplit("::", 1)[0] in MUTEX or \
                    n["k"] == "ctor" and n["cn"] in GUARDS:
                out.add(k)
                break
    prog._locky = out
    return out


def thread_entries(prog, f):
    """Functions and lambdas that f hands to a thread."""
    from .engine import _children
    nodes, out = f["nodes"], set()
    byvar = {}
    for n in nodes:
        if n and n["k"] == "decl":
            for v in n["vars"]:
                if isinstance(v.get("init"), int):
                    byvar[v["d"]] = v["init"]
    for n in nodes:
        isthread = n and (n["k"] == "ctor" and n["cn"] in ("std::thread", "std::jthread") or
                          n["k"] == "call" and n.get("cn") in ("std::async",)
                          or n["k"] == "call" and short(n.get("cn")) in ("emplace_back", "push_back", "emplace")
                          and n.get("recv") is not None and nodes[n["recv"]] and "t" in nodes[n["recv"]]
                          and "std::thread" in f["types"][nodes[n["recv"]]["t"]])
        if not isthread:
            continue
        st, seen = [a for a in n["args"] if a is not None], set()
        while st:
            x = st.pop()
            m = nodes[x]
            if not m or x in seen:
                continue
            seen.add(x)
            if m["k"] == "lambda":
                out.add(m["fn"])
            elif m["k"] == "ref" and m.get("dk") == "func":
                k = prog.lookup(m["d"], f["file"])
                if k:
                    out.add(k)
            elif m["k"] == "ref" and m["d"] in byvar:
                st.append(byvar[m["d"]])
            else:
                st.extend(_children(m))
    return {k for k in out if k in prog.F}


def hot_closure(prog, direct):
    """direct plus, upwards, the callers of those that are helpers."""
    hot, todo = set(direct), list(direct)
    callers = prog.callers()
    while todo:
        k = todo.pop()
        if not prog.is_helper(k):
            continue
        for c in callers.get(k, ()):
            if c not in hot and prog.is_helper(k, prog.F[c]["file"]):
                hot.add(c)
                todo.append(c)
    return hot


class LockRule(Rule):
    """r[('H', path)] = (how, line): held; r[('G', loc)] = paths of a guard."""
    asserts = "ignore"
    max_depth = 5
    max_states = 20000
    widen_at = 6

    # what rules override ------------------------------------------------------
    def acquired(self, ex, fr, st, node, path):
        pass

    def released(self, ex, fr, st, node, path, how):
        pass

    def not_held(self, ex, fr, st, node, path):
        pass

    # ------------------------------------------------------------------------
    def held(self, st):
        return [k[1] for k in st.r if k[0] == 'H']

    def holds(self, st, path):
        return ('H', canon(path)) in st.r

    def lock(self, ex, fr, st, node, path, how):
        path = canon(path)
        self.acquired(ex, fr, st, node, path)
        st.r[('H', path)] = (how, node["l"])

    def unlock(self, ex, fr, st, node, path, how):
        path = canon(path)
        if ('H', path) not in st.r:
            same = [p for p in self.held(st) if mutex_name(p) == mutex_name(path)]
            if same:
                path = same[0]
            else:
                self.not_held(ex, fr, st, node, path)
                return
        del st.r[('H', path)]
        self.released(ex, fr, st, node, path, how)

    def is_lock_call(self, node):
        cn = node.get("cn") or ""
        return cn.rsplit("::", 1)[0] in MUTEX + GUARDS

    def lock_call(self, ex, fr, st, node, recv, args):
        """Handles a mutex or guard operation; True when it was one."""
        cn = node.get("cn") or ""
        if node["k"] != "call" or not cn.startswith("std::") or recv is None:
            return None
        cls, _, name = cn.rpartition("::")
        loc = recv[1] if recv[0] == 'addr' else ('d', recv)
        if cls in MUTEX:
            if name in ("lock", "lock_shared"):
                self.lock(ex, fr, st, node, loc, 'm')
                return ('val', ('void',))
            if name in ("unlock", "unlock_shared"):
                self.unlock(ex, fr, st, node, loc, 'm')
                return ('val', ('void',))
            if name in ("try_lock", "try_lock_for", "try_lock_until"):
                s2 = st.copy()
                self.lock(ex, fr, st, node, loc, 'm')
                return ('fork', [(st, TRUE), (s2, NULL)])
        if cls in GUARDS:
            g = st.r.get(('G', canon(loc)))
            if g is None:
                return None
            if name == "lock":
                for p in g:
                    self.lock(ex, fr, st, node, p, 'g')
                return ('val', ('void',))
            if name == "unlock":
                for p in g:
                    self.unlock(ex, fr, st, node, p, 'g')
                return ('val', ('void',))
            if name == "release":
                del st.r[('G', canon(loc))]
        return None

    def guard_ctor(self, ex, fr, st, node, args):
        if node["cn"] not in GUARDS:
            return None
        from .rules.C01_publish import node_id
        paths, mode = [], ""
        for i, x in enumerate(args):
            t = fr.prep.type(fr.prep.nodes[node["args"][i]]) if node["args"][i] is not None else ""
            for tag in ("defer_lock", "adopt_lock", "try_to_lock"):
                if tag in t:
                    mode = tag
        for i, x in enumerate(args):
            if x is not None and node["args"][i] is not None:
                t = fr.prep.type(fr.prep.nodes[node["args"][i]])
                if is_mutex(t):
                    paths.append(canon(x[1] if x[0] == 'L' else ('d', x)))
                elif is_guard(t) and x[0] == 'L' and ('G', canon(x[1])) in st.r:
                    # moved
                    st.r[('G', ('tmp', fr.id, node_id(fr, node)))] = st.r.pop(('G', canon(x[1])))
                    return None
        if paths:
            tmp = ('tmp', fr.id, node_id(fr, node))
            if mode in ("", "try_to_lock"):
                for p in paths:
                    self.lock(ex, fr, st, node, p, 'g')
            elif mode == "adopt_lock":
                for p in paths:
                    if ('H', p) in st.r:
                        st.r[('H', p)] = ('g', st.r[('H', p)][1])
            st.r[('G', tmp)] = tuple(paths)
        return None

    def on_ctor(self, ex, fr, st, node, args):
        self.guard_ctor(ex, fr, st, node, args)
        return None

    def on_call(self, ex, fr, st, node, targets, recv, args):
        return self.lock_call(ex, fr, st, node, recv, args)

    def on_adopt(self, st, old, new):
        for k in [k for k in st.r if k[0] == 'G' and k[1] == old]:
            st.r[('G', new)] = st.r.pop(k)

    def on_dtor(self, ex, fr, st, elem, loc, type):
        g = st.r.pop(('G', loc), None)
        if g:
            node = {"l": elem.get("l", fr.fn["line"]), "k": "dtor"}
            for p in g:
                if ('H', p) in st.r and st.r[('H', p)][0] == 'g':
                    self.unlock(ex, fr, st, node, p, 'g')

    def keep_value(self, st, loc, value):
        return False

    def keep_local(self, st, k):
        return False


# -- what a call may lock ------------------------------------------------------
class Acquires:
    """May-acquire sets per (function, class of `this`)."""

    def __init__(self, prog):
        self.prog = prog
        self.calls = {}
        self.sets = {}
        self.vt = {}
        self.deps = {}

    def concrete(self, cls):
        out = []
        for c in self.prog.subclasses(cls):
            r = self.prog.R.get(c)
            if r:
                out.append(c)
        return out

    def dispatch(self, key, cls):
        """The override of method `key` in class `cls`."""
        p = (key, cls)
        if p in self.vt:
            return self.vt[p]
        cand = self.prog.override_closure(key)
        res = None
        for c in self.prog.superclasses(cls):
            r = self.prog.R.get(c)
            if not r:
                continue
            for m in r["methods"]:
                if m["key"] in cand:
                    res = m["key"]
                    break
            if res:
                break
        self.vt[p] = res if res in self.prog.F else None
        return self.vt[p]

    def direct(self, key):
        """(acquired names on this?, calls) of one function, syntactically."""
        if key in self.calls:
            return self.calls[key]
        prog = self.prog
        f = prog.F[key]
        nodes, ty = f["nodes"], f["types"]
        locks, calls = set(), []
        threads = thread_entries(prog, f)
        # lambdas kept in variables and started later are treated as called
        for n in nodes:
            if not n:
                continue
            if n["k"] == "call":
                cn = n.get("cn") or ""
                if cn.rsplit("::", 1)[0] in MUTEX and cn.rsplit("::", 1)[1] in ("lock", "try_lock", "lock_shared") \
                        and n.get("recv") is not None:
                    locks.add((self.name(nodes, n["recv"]), self.on_this(nodes, n["recv"])))
                elif n.get("c"):
                    rc, this = None, False
                    if n.get("recv") is not None:
                        r = nodes[n["recv"]]
                        rc = owner_class(prog, ty[r["t"]]) if r and "t" in r else None
                        this = r is not None and r["k"] == "this" or self.is_this(nodes, n["recv"])
                    calls.append((n["c"], bool(n.get("virt")), rc, this))
            elif n["k"] == "ctor":
                if n["cn"] in GUARDS:
                    deferred = any(a is not None and nodes[a] and "t" in nodes[a] and "defer_lock" in ty[nodes[a]["t"]]
                                   for a in n["args"])
                    for a in n["args"]:
                        if a is not None and nodes[a] and "t" in nodes[a] and is_mutex(ty[nodes[a]["t"]]):
                            locks.add((self.name(nodes, a), self.on_this(nodes, a)))
                elif n.get("c"):
                    calls.append((n["c"], False, n["cn"] if n["cn"] in prog.R else None, False))
            elif n["k"] == "lambda" and n["fn"] not in threads and n["fn"] in prog.F:
                calls.append((n["fn"], False, None, True))
        self.calls[key] = (locks, calls)
        return self.calls[key]

    def is_this(self, nodes, i):
        n = nodes[i]
        while n and n["k"] in ("cast",) or n and n["k"] == "un" and n["op"] in ("*", "&"):
            n = nodes[n["e"]]
        return bool(n) and n["k"] == "this"

    def name(self, nodes, i):
        n = nodes[i]
        while n and n["k"] == "cast":
            n = nodes[n["e"]]
        if n and n["k"] == "mem":
            return n["f"]
        if n and n["k"] == "ref":
            return ("local " if n.get("dk") in ("local", "param") else "") + n["d"]
        return "?"

    def on_this(self, nodes, i):
        n = nodes[i]
        while n and n["k"] == "cast":
            n = nodes[n["e"]]
        return bool(n) and n["k"] == "mem" and self.is_this(nodes, n["b"])

    def resolve(self, key, cls, call):
        """[(function, class of this)] a call may reach."""
        c, virt, rc, this = call
        prog = self.prog
        f = prog.F[key]
        if this:
            if virt and cls:
                t = self.dispatch(c, cls)
                return [(t, cls)] if t else []
            k = prog.lookup(c, f["file"])
            return [(k, cls)] if k else []
        if virt:
            if rc:
                out = []
                for d in self.concrete(rc):
                    t = self.dispatch(c, d)
                    if t:
                        out.append((t, d))
                return out
            return [(k, prog.F[k].get("cls")) for k in prog.override_closure(c) if k in prog.F]
        k = prog.lookup(c, f["file"])
        if not k:
            return []
        if rc and prog.F[k].get("cls"):
            return [(k, d) for d in self.concrete(rc)]
        return [(k, prog.F[k].get("cls"))]

    def get(self, key, cls):
        """Names of locks (class-qualified when on this) that may be acquired."""
        root = (key, cls)
        if root in self.sets:
            return self.sets[root]
        # collect the reachable graph, then iterate
        edges, todo = {}, [root]
        while todo:
            k = todo.pop()
            if k in edges:
                continue
            out = set()
            for call in self.direct(k[0])[1]:
                for t in self.resolve(k[0], k[1], call):
                    out.add(t)
            edges[k] = out
            todo.extend(t for t in out if t not in edges)
        res = {}
        for k in edges:
            res[k] = {self.qualify(nm, k[1] if th else None) for nm, th in self.direct(k[0])[0]}
        rev = {}
        for k, outs in edges.items():
            for t in outs:
                rev.setdefault(t, set()).add(k)
        work = [k for k in edges if res[k]]
        while work:
            k = work.pop()
            for c in rev.get(k, ()):
                if not res[k] <= res[c]:
                    res[c] |= res[k]
                    work.append(c)
        self.sets.update({k: frozenset(v) for k, v in res.items()})
        return self.sets[root]

    def qualify(self, name, cls):
        """A mutex inherited by several classes is a different lock in each."""
        if cls and "::" in name and name.rsplit("::", 1)[0] != cls:
            return cls + "/" + name
        return name
