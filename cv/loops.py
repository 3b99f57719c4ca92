"""Containers and their elements: iterators are tied to the container they walk, so that elements can be recognised, and
the first test of a loop over a container known not to be empty succeeds."""
from .common import *
from .engine import is_iter


def elem_of(loc):
    """the container an element location belongs to"""
    if loc is None:
        return None
    if loc[0] == 'e':
        return loc[1]
    if loc[0] == 'd' and loc[1][0] == 'op' and loc[1][1] in ("begin", "next"):
        return loc[1][2][1]
    return None


def elem_value_of(v):
    """the container a loaded element came from"""
    if v is None:
        return None
    if v[0] == 'L' or v[0] == 'i':
        return elem_of(v[1])
    return None


class LoopMixin:
    """Rules provide nonempty(st, container location)."""

    def nonempty(self, st, loc):
        return False

    def iter_call(self, ex, fr, st, node, recv, args):
        cn = node.get("cn") or ""
        if not cn.startswith(("std::", "__gnu_cxx::")):
            return None
        name, op = short(cn), node.get("op")
        loc = recv[1] if recv is not None and recv[0] == 'addr' else None
        if loc is not None and is_iter(cn.rsplit("::", 1)[0]):
            if op in ("*", "->") and not args:
                v = ex.load(fr, st, loc)
                if v[0] == 'op' and v[1] in ("begin", "next"):
                    return ('val', ('L', ('d', v)) if op == "*" else v)
            if op in ("++", "--", "+=", "-="):
                old = ex.load(fr, st, loc)
                if old[0] == 'op' and old[1] in ("begin", "next"):
                    nxt = ('op', 'next', old[2])
                    self.forget(st, ('d', nxt), st.env)
                    ex.write(fr, st, dict(node, _id=node.get("_id", -1)), loc, nxt)
                    return ('val', ('L', loc) if node.get("lv") else old)
            return None
        if loc is not None and name in ("begin", "cbegin", "end", "cend") and not args:
            return ('val', ('op', name.lstrip("c") if name != "cend" else "end", ('addr', loc)))
        if name in ("begin", "end") and recv is None and len(args) == 1 and args[0] is not None and args[0][0] == 'L':
            return ('val', ('op', name, ('addr', args[0][1])))
        if op in ("==", "!=") and len(args) + (recv is not None) == 2:
            x, y = [ex.load(fr, st, a[1]) if a is not None and a[0] == 'L' else a for a in (
                list(args) if recv is None else [('L', loc) if loc is not None else recv] + list(args))]
            if x is not None and y is not None and x[0] == y[0] == 'op':
                if {x[1], y[1]} == {"begin", "end"} and x[2] == y[2] and self.nonempty(st, x[2][1]):
                    return ('val', NULL if op == "==" else TRUE)
                if {x[1], y[1]} == {"next", "end"} and x[2] == y[2]:
                    yes, no = st.copy(), st.copy()
                    return ('fork', [(yes, TRUE if op == "==" else NULL), (no, NULL if op == "==" else TRUE)])
        if loc is not None and name in ("size", "empty") and not args and self.nonempty(st, loc):
            if name == "empty":
                return ('val', NULL)
            v = ('op', 'size', ('addr', loc))
            ex.assume(fr, st, ex.mkop(st, fr, -3, "<", ('c', 0), v), True)
            ex.assume(fr, st, ex.mkop(st, fr, -3, ">", v, ('c', 0)), True)
            return ('val', v)
        return None

    def forget(self, st, loc, env):
        """Everything known about the element an iterator moves away from."""
        def has(v):
            return isinstance(v, tuple) and (v == loc or any(has(x) for x in v))
        for k in [k for k in st.cons if has(k)]:
            del st.cons[k]
        for k in [k for k in env if k[0] != 'v' and has(k)]:
            del env[k]
        for k in [k for k in env if k[0] == 'v' and has(env[k]) and env[k][0] != 'ref']:
            env[k] = ('s', -1, -9, k)
        for k in [k for k in st.r if self.elem_fact(k) and has(k)]:
            del st.r[k]

    def elem_fact(self, k):
        return False


def natural_loops(fn):
    """[(header, blocks)] of a function's control-flow graph"""
    succ = {b["id"]: [x for x in b["s"] if x is not None] for b in fn["blocks"]}
    pred = {b: [] for b in succ}
    for b, ss in succ.items():
        for x in ss:
            pred[x].append(b)
    dom = {b: set(succ) for b in succ}
    dom[fn["entry"]] = {fn["entry"]}
    changed = True
    while changed:
        changed = False
        for b in sorted(succ, reverse=True):
            if b == fn["entry"]:
                continue
            ps = [dom[p] for p in pred[b]]
            new = (set.intersection(*ps) if ps else set()) | {b}
            if new != dom[b]:
                dom[b] = new
                changed = True
    out = {}
    for b, ss in succ.items():
        for h in ss:
            if h in dom[b]:
                body, todo = out.setdefault(h, {h}), [b]
                while todo:
                    x = todo.pop()
                    if x not in body:
                        body.add(x)
                        todo += pred[x]
    return sorted(out.items())
