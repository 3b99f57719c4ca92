"""Failed writes are never reported as success.  Every output file stream, every link/rename/truncate result and
every verdict of a function that writes is followed on every path: a function that can report failure must not
return success while a write, flush or close of a stream, or such a result, is unexamined or known to have failed.
An assertion does not count as an examination."""
from ..common import *
from ..engine import _children
from .C01_publish import cfn, node_id

ASSUMPTIONS = ["the stream and system-call interfaces report failures as documented",
               "a stream's failure state is sticky, so one test covers every earlier write"]

# (function, callee): why its verdict may be ignored there
REAPPLIED = "stores again the value just read from the same burrow, which may be read-only; nothing is lost"
IGNORABLE = {
    ("cottontail::Bigwig::make", "cottontail::Warren::set_stemmer"): REAPPLIED,
    ("cottontail::Bigwig::make", "cottontail::Warren::set_default_container"): REAPPLIED,
}
STREAMS = ("std::basic_ofstream<char", "std::basic_fstream<char")
CHECK_BAD = {"fail", "bad", "operator!"}
CHECK_GOOD = {"good", "operator bool"}
WRITES = {"write", "put", "operator<<", "seekp"}
SYS = {"link", "rename", "truncate", "ftruncate", "fsync", "chmod"}
# writes a C++ source table for the library's developers, not index data
SKIP = {"utf8_tables"}
LIB = ("src/", "gcl/", "meadowlark/")

# Roots that cannot report (no verdict in their interface) and whose failures are covered elsewhere.
EXEMPT = {
    "cottontail::Committable::commit_": "commit has no verdict: everything that can fail is done by ready",
    "cottontail::Committable::abort_": "abort has no verdict",
}


def is_stream(t):
    t = t.replace("const ", "").strip()
    return t.startswith(STREAMS) and t.rstrip("&").strip().endswith(">")


def out_mode(f, i):
    n = f["nodes"][i]
    if n["k"] == "ref" and n.get("n") in ("out", "app", "trunc"):
        return True
    return any(out_mode(f, c) for c in _children(n))


def apart(prog, key):
    """A helper with a verdict of its own that shares no stream with its
    caller is judged on its own; the caller must heed its verdict."""
    f = prog.F[key]
    ty = f["types"]
    if ty[f["ret"]] != "bool" or f.get("lambda"):
        return False
    if any("stream<" in ty[p["t"]] for p in f["params"]):
        return False
    return len(f["nodes"]) > 400


class Writes(Rule):
    max_depth = 5
    max_states = 12000
    widen_at = 10
    asserts = "ignore"

    def __init__(self, prog, ctx, hot, writers, root):
        super().__init__(prog)
        self.ctx, self.hot, self.writers, self.root = ctx, hot, writers, root
        f = prog.F[root]
        t = f["types"][f["ret"]]
        self.settled = set()
        self.verdict = "bool" if t == "bool" else "ptr" if is_ptr_type(t) else None
        if f.get("ctor") or f.get("dtor"):
            self.verdict = None

    def inline(self, fr, node, key):
        if apart(self.prog, key):
            return False
        return key in self.hot and self.prog.is_helper(key, fr.fn["file"]) or \
            self.prog.small_helper(key, fr.fn["file"]) or \
            bool(fr.fn.get("cls")) and self.prog.F[key].get("cls") == fr.fn["cls"] and \
            len(self.prog.F[key]["nodes"]) <= 60

    # -- streams ---------------------------------------------------------------
    # r[('st', loc)] = (unchecked, buffered, failed, line)
    def stream_of(self, ex, fr, st, x, create=None):
        """location of the stream an expression denotes"""
        if x is None:
            return None
        loc = x[1] if x[0] in ('L', 'addr') else ('d', x) if x[0] in ('new', 'i', 's') else None
        if loc is None:
            return None
        if ('st', loc) in st.r:
            return loc
        return None

    def on_ctor(self, ex, fr, st, node, args):
        t = fr.prep.type(node)
        if is_stream(t):
            if self.input_only(ex, fr, st, args[1:]):
                return None
            st.r[('st', ('tmp', fr.id, node_id(fr, node)))] = (0, 0, 0, node["l"])
            self.ctx.count("output streams")
            return None
        self.pass_args(ex, fr, st, node, args)
        return None

    def input_only(self, ex, fr, st, args):
        """opened with a constant mode without out (16), app (1), trunc (32), ate"""
        for x in args:
            if x is not None:
                v = ex.load(fr, st, x[1]) if x[0] == 'L' else x
                if v[0] == 'c' and isinstance(v[1], int):
                    return not (v[1] & 49)
        return False

    def on_decl(self, ex, fr, st, node, var, loc):
        for k in [k for k in st.r if k[0] == 'st' and (k[1] == loc or ex._under(k[1], loc))]:
            del st.r[k]

    def on_adopt(self, st, old, new):
        from ..engine import contains
        for k in [k for k in st.r if k[0] == 'st' and contains(k[1], old)]:
            v = st.r.pop(k)
            st.r[('st', self.subst(k[1], old, new))] = v

    def subst(self, v, old, new):
        if v == old:
            return new
        if isinstance(v, tuple):
            return tuple(self.subst(x, old, new) for x in v)
        return v

    def on_mem(self, ex, fr, st, node, loc, acc):
        if is_stream(fr.prep.type(node)) and ('st', loc) not in st.r and acc != "V":
            # a stream of some object: earlier operations may have left
            # unexamined failures and buffered data behind
            if acc in ("CALLM", "REF", "ADDR", "RW", "W", "CREF", "CALLC"):
                old = self.local_object(loc)
                st.r[('st', loc)] = (0, 0, 0, node["l"]) if old else (1, 1, 0, node["l"])

    def local_object(self, loc):
        while loc[0] in ('f', 'e'):
            loc = loc[1]
        return loc[0] in ('v', 'tmp') or loc[0] == 'd' and loc[1][0] == 'new'

    def pass_args(self, ex, fr, st, node, args):
        pm = node.get("pm") or []
        for i, x in enumerate(args):
            if x is None:
                continue
            loc = self.stream_of(ex, fr, st, x)
            if loc is None and x[0] == 'L':
                v = st.env.get(x[1])
                if v is not None:
                    loc = self.stream_of(ex, fr, st, v)
            if loc is not None:
                un, bu, fa, ln = st.r[('st', loc)]
                st.r[('st', loc)] = (1, 1, fa, ln)

    def on_call(self, ex, fr, st, node, targets, recv, args):
        cn = node.get("cn") or ""
        name = short(cn)
        # a name that could not be linked to turns out to exist already
        pend = [(k, v) for k, v in st.r.items() if k[0] == 'sys' and v[0] == 'link' and st.cons.get(k[1]) is True]
        if pend and any(t in self.probes for t in targets):
            vs = {ex.load(fr, st, x[1]) if x[0] == 'L' else x for x in args if x is not None}
            for k, v in pend:
                if v[3] in vs or any(('op', 'cstr', a, NULL) == v[3] for a in vs):
                    del st.r[k]
        # a failure noted in a shared flag for whoever asks later
        if cn.startswith("std::") and (name == "store" or node.get("op") == "=") and "atomic" in cn:
            xs = [ex.load(fr, st, x[1]) if x is not None and x[0] == 'L' else x for x in args]
            if TRUE in xs:
                for k, v in list(st.r.items()):
                    if k[0] == 'st' and v[2]:
                        st.r[k] = (v[0], v[1], 0, v[3])
        if cn == "__errno_location":
            # why it failed is being examined
            for k in [k for k in st.r if k[0] == 'sys' and st.cons.get(k[1]) is True]:
                del st.r[k]
        # operations on a stream
        sx = None
        rest = args
        if cn.startswith("std::"):
            if recv is not None:
                sx = self.stream_of(ex, fr, st, recv)
                if sx is None and node.get("recv") is not None:
                    rn = fr.prep.nodes[node["recv"]]
            elif node.get("op") in ("<<", ">>", "!") and args:
                sx = self.stream_of(ex, fr, st, args[0])
                rest = args[1:]
        if sx is not None:
            un, bu, fa, ln = st.r[('st', sx)]
            k = ('st', sx)
            if name in WRITES:
                self.ctx.count("stream writes")
                st.r[k] = (1, 1, fa, ln)
                return ('val', ('L', sx)) if name != "put" else None
            if name in ("open",) and self.input_only(ex, fr, st, args[1:]):
                del st.r[k]
                return None
            if name in ("open",):
                st.r[k] = (1, bu, fa, ln) if bu else (0, 0, 0, ln)
                return None
            if name in ("flush", "close"):
                self.ctx.count("flushes and closes")
                if name == "close" and fr.fn.get("dtor"):
                    st.r[k] = (0, 0, 0, ln)
                elif bu:
                    st.r[k] = (1, 0, fa, ln)
                return None
            if node.get("as"):
                return None
            if name in CHECK_BAD or name in CHECK_GOOD:
                self.ctx.count("stream tests")
                bad = name in CHECK_BAD
                ok, ko = st, st.copy()
                ok.r[k] = (0, bu, 0, ln)
                ko.r[k] = (0, bu, 1 if (un or fa or bu) else 0, ln)
                if fa:
                    return ('val', TRUE if bad else NULL)
                return ('fork', [(ok, NULL if bad else TRUE), (ko, TRUE if bad else NULL)])
            if name == "clear":
                st.r[k] = (un, bu, fa, ln)
                return None
            if name in ("read", "seekg", "operator>>", "getline", "ignore", "get", "peek"):
                return ('val', ('L', sx))
            return None
        if node.get("c") and not targets and not cn.startswith("std::basic_"):
            c = cfn(node)
            if c in SYS and not node.get("recv"):
                self.ctx.count("system calls")
                s = ex.sym(st, fr, node_id(fr, node))
                d = args[-1] if args else None
                st.r[('sys', s)] = (c, fr.fn["file"], node["l"],
                                    ex.load(fr, st, d[1]) if d and d[0] == 'L' else d)
                return ('val', s)
        if targets:
            inl = fr.depth < self.max_depth and all(self.inline(fr, node, t) and t not in fr.stack[1:] for t in targets)
            if not inl:
                self.pass_args(ex, fr, st, node, args)
                if any(t in self.writers for t in targets):
                    self.ctx.count("writer verdicts")
        elif not cn.startswith("std::"):
            self.pass_args(ex, fr, st, node, args)
        return None

    def after_call(self, ex, fr, st, node, targets, recv, args, value):
        if targets and any(t in self.writers for t in targets) and value[0] == 's' \
                and value[1] == fr.id and value[2] == node_id(fr, node):
            st.r[('res', value)] = (node.get("cn"), fr.fn["file"], node["l"], 0)

    def on_refresh(self, st, s):
        for k in [k for k in st.r if k[0] in ('sys', 'res') and k[1] == s]:
            # the site is about to execute again: an unexamined result is gone
            v = st.r.pop(k)
            t = st.cons.get(s)
            if t is None:
                st.r[('lost', v[1], v[2])] = (v[0], "unexamined")
            elif t is True and k[0] == 'sys' or t is False and k[0] == 'res':
                st.r[('lost', v[1], v[2])] = (v[0], "failed")

    def on_assume(self, ex, fr, st, value, truth):
        # a result tested good carries no further obligation
        if truth and ('res', value) in st.r:
            del st.r[('res', value)]
        elif not truth and ('sys', value) in st.r:
            del st.r[('sys', value)]

    def on_dtor(self, ex, fr, st, elem, loc, t):
        for k in [k for k in st.r if k[0] == 'st' and (k[1] == loc or ex._under(k[1], loc))]:
            un, bu, fa, ln = st.r.pop(k)
            if un or bu or fa:
                what = "failed" if fa else "unexamined"
                st.r[('lost', fr.fn["file"], ln)] = ("write to or close of stream", what)

    def keep_cons(self, st, key):
        return ('sys', key) in st.r or ('res', key) in st.r

    def on_write(self, ex, fr, st, node, loc, value):
        # the failure is recorded in shared state for whoever asks later
        if value == TRUE and loc[0] in ('f', 'e', 'd', 'g') and not self.local_object(loc) or \
                value == TRUE and loc[0] == 'd':
            for k, v in list(st.r.items()):
                if k[0] == 'st' and v[2]:
                    st.r[k] = (v[0], v[1], 0, v[3])

    def on_exit(self, ex, fr, st, value):
        if fr.depth:
            # a helper that reports failure hands the matter to its caller,
            # which must look
            ret = fr.fn["types"][fr.fn["ret"]]
            if ret == "bool" and value == NULL and fr.node is not None:
                nid = node_id(fr.parent, fr.node)
                if self.discarded(fr.parent, nid):
                    return
                for k, v in list(st.r.items()):
                    if k[0] == 'sys' and st.cons.get(k[1]) is True:
                        del st.r[k]
                    elif k[0] == 'res' and st.cons.get(k[1]) is False:
                        del st.r[k]
            return
        f = fr.fn
        if self.verdict:
            ok = True if value[0] == 'void' else ex.truth(st, value)
            if ok is False:
                return
        else:
            ok = None
        if self.closing(f):
            for k, v in st.r.items():
                if k[0] == 'st' and k[1][0] == 'f' and v[:3] == (0, 0, 0):
                    self.settled.add(k[1][2])
        # obligations
        for k, v in st.r.items():
            if k[0] in ('sys', 'res'):
                s = k[1]
                if value == s or value == ('not', s):
                    continue
                t = ex.truth(st, s)
                good = False if k[0] == 'sys' else True
                if t is good:
                    continue
                if t is None and self.mentions(value, s):
                    continue
                self.bad(fr, v[1], v[2], v[0], "unexamined" if t is None else "failed")
            elif k[0] == 'lost':
                self.bad(fr, k[1], k[2], v[0], v[1])
            elif k[0] == 'st':
                un, bu, fa, ln = v
                if self.local_object(k[1]) and not (k[1][0] == 'd'):
                    if un or bu or fa:
                        self.bad(fr, f["file"], ln, "write to or close of stream", "failed" if fa else "unexamined")
                elif self.closing(f) and (un or fa):
                    self.bad(fr, f["file"], ln, "state of stream " + desc(k[1]), "failed" if fa else "unexamined")
                elif fa:
                    self.bad(fr, f["file"], ln, "write to or close of stream " + desc(k[1]), "failed")

    def closing(self, f):
        return f["name"] in ("ready_", "finalize_")

    def discarded(self, fr, nid):
        prep = fr.prep
        x = nid
        while x in prep.parent:
            x = prep.parent[x]
            if prep.nodes[x]["k"] != "cast":
                return False
        for b in prep.blocks.values():
            t = b.get("t")
            if t and t.get("c") == x:
                return False
        return True

    def keep_value(self, st, loc, v):
        return v[0] == 'c' and v[1] in (0, 1) and loc[0] == 'v' and self.prog.is_bool_local(loc[2])

    def mentions(self, v, s):
        from ..engine import contains
        return contains(v, s)

    def bad(self, fr, file, line, what, how):
        f = fr.fn
        if (f["qn"], what) in IGNORABLE:
            return
        if how == "failed" and not self.verdict:
            return       # it was noticed; there is no verdict to compare with
        if self.verdict:
            msg = "returns success although the %s (%s:%d) is %s" % (
                what, file, line, "unexamined" if how == "unexamined" else "known to have failed")
        else:
            msg = "the result of %s (%s:%d) is dropped" % (what, file, line)
        self.ctx.violation("%s: %s %s" % (f["qn"], what, how), "%s:%d (%s)" % (file, line, f["qn"]), msg)


def member_streams(prog, cls):
    """stream fields of a class that its own methods write to"""
    out = set()
    for k, f in prog.F.items():
        if f.get("cls") != cls:
            continue
        ty = f["types"]
        for n in f["nodes"]:
            if n and n["k"] == "call":
                nm = short(n.get("cn"))
                r = n.get("recv")
                if r is None and n.get("op") == "<<" and n["args"]:
                    r = n["args"][0]
                if r is None or nm not in WRITES:
                    continue
                x = f["nodes"][r]
                if x["k"] == "mem" and is_stream(ty[x["t"]]):
                    out.add(x["f"])
    return sorted(out)


def run(ctx):
    prog = ctx.prog()
    F = prog.F

    def lib(f):
        return f["file"].startswith(LIB)

    def direct(f):
        ty = f["types"]
        for n in f["nodes"]:
            if n and n["k"] == "ctor" and is_stream(ty[n["t"]]) and (
                    "ofstream" in ty[n["t"]] or any(out_mode(f, a) for a in n["args"])):
                return True
            if not n or n["k"] != "call":
                continue
            cn = n.get("cn") or ""
            if cfn(n) in SYS and not n.get("recv"):
                return True
            if cn.startswith("std::") and (short(cn) in WRITES or short(cn) in ("flush", "close")):
                r = n.get("recv")
                if r is None and n["args"]:
                    r = n["args"][0]
                if r is None:
                    continue
                x = f["nodes"][r]
                t = ty[x["t"]] if "t" in x else ""
                if is_stream(t) or "basic_ostream<" in t and x["k"] != "ref":
                    return True
                if "basic_ostream<" in t and not (x.get("dk") == "global"):
                    return True
                if x["k"] == "call" and "basic_ostream" in t:
                    return True
        return False
    base = {k for k, f in F.items() if lib(f) and direct(f) and f["name"] not in SKIP}
    callers = prog.callers()
    # bool functions that (transitively) write
    reach, todo = set(base), list(base)
    while todo:
        k = todo.pop()
        for c in callers.get(k, ()):
            if c in reach or not lib(F[c]):
                continue
            t = F[c]["types"][F[c]["ret"]]
            if t == "bool" and not F[c].get("ctor") or prog.is_helper(k, F[c]["file"]):
                reach.add(c)
                todo.append(c)
    # a virtual function writes if an override does
    writers = {k for k in reach if F[k]["types"][F[k]["ret"]] == "bool"}
    hot = reach
    roots = []
    hooks = set()
    for nm in EXEMPT:
        cls, _, m = nm.rpartition("::")
        for k in prog.by_qn.get(nm, []):
            hooks |= prog.override_closure(k)
        for mk, (qn, md) in prog.method_decl.items():
            if qn == cls and md["n"] == m:
                hooks |= prog.override_closure(mk)
    for k in sorted(reach | {c for w in writers for c in callers.get(w, ()) if lib(F[c]) and F[c]["name"] not in SKIP}):
        if prog.is_helper(k) and not F[k].get("lambda") and not apart(prog, k) and any(
                c in reach and prog.is_helper(k, F[c]["file"]) for c in callers.get(k, ())):
            continue
        if k in hooks:
            ctx.count("hooks without a verdict, exempt")
            continue
        roots.append(k)

    probes = prog.closure_pred(lambda f: any(
        n and n["k"] == "call" and (cfn(n) in ("stat", "access", "lstat", "faccessat") or
                                    (n.get("cn") or "").startswith("std::filesystem::exists")) for n in f["nodes"]))

    def one(c, k):
        rule = Writes(prog, c, hot, writers, k)
        rule.probes = probes
        ex = Exec(prog, rule)
        ex.start(k)
        c.count("functions analysed")
        c.explored(ex)
        f = F[k]
        if rule.closing(f) and f.get("cls"):
            # what the object has been writing must be on its way to the
            # device before it votes
            for fd in member_streams(prog, f["cls"]):
                c.count("member streams settled before the vote")
                if fd not in rule.settled:
                    c.violation("%s: stream %s not settled" % (f["qn"], short(fd)), "%s:%d (%s)" % (
                        f["file"], f["line"], f["qn"]),
                        "the stream %s is never flushed and tested before success is reported" % short(fd))
    ctx.pmap(one, roots)
    ctx.floor("output streams", 10)
    ctx.floor("stream writes", 20)
    ctx.floor("system calls", 5)
    ctx.floor("functions analysed", 30)
