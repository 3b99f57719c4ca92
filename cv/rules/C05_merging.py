"""The merge protocol.  The shared record (list of shards, set of claimed shards, worker count) is found from the
declarations.  Every function that claims or releases shards, counts workers, replaces the shard list by one with a new
shard, or discards shards is followed on every path, helpers and lambdas inlined.  On every way out: each claim has been
released and the worker un-counted exactly once; a new shard is installed only when it is known to exist, to have been
stored and to have been started; sources are discarded only after the installation.  A worker is counted exactly when a
thread is started for it, in the same critical section."""
from ..common import *
from ..locks import *
from ..loops import *
from .C01_publish import node_id
from .C04_snapshot import LIST, ADD, is_list

SET = "std::set<std::shared_ptr<cottontail::Owsla>"
ASSUMPTIONS = ["starting a thread does not fail"]


class Decls:
    def __init__(self, prog):
        self.prog = prog
        self.record = None
        for q, r in prog.R.items():
            ls = [f for f in r["fields"] if is_list(f["t"])]
            ss = [f for f in r["fields"] if bare(f["t"]).startswith(SET)]
            ms = [f for f in r["fields"] if is_mutex(f["t"])]
            if ls and ss and ms:
                self.record = q
                self.list, self.claims = q + "::" + ls[0]["n"], q + "::" + ss[0]["n"]
                ints = {q + "::" + f["n"] for f in r["fields"] if f.get("scalar") and bare(f["t"]) in (
                    "unsigned long", "size_t", "std::size_t", "int", "unsigned int", "long", "cottontail::addr")}
        self.workers = None
        if self.record:
            dec = {}
            for f in prog.F.values():
                for n in f["nodes"]:
                    if n and (n["k"] == "un" and n["op"] in ("--", "p--", "--p") or n["k"] == "bin" and n["op"] == "-="):
                        m = f["nodes"][n["e"] if n["k"] == "un" else n["a"]]
                        if m and m["k"] == "mem" and m["f"] in ints:
                            dec[m["f"]] = dec.get(m["f"], 0) + 1
                    if n and n["k"] == "bin" and n["op"] == "=":
                        m, b = f["nodes"][n["a"]], f["nodes"][n["b"]]
                        if m and m["k"] == "mem" and m["f"] in ints and b and b["k"] == "bin" and b["op"] == "-":
                            dec[m["f"]] = dec.get(m["f"], 0) + 1
            if dec:
                self.workers = max(dec, key=dec.get)


class Merge(LockRule, LoopMixin):
    max_depth = 4
    widen_at = 4
    max_entries = 3
    collapse = True
    in_order = True

    def __init__(self, prog, ctx, d, root, hot, entry):
        super().__init__(prog)
        self.ctx, self.d, self.root, self.hot, self.entry = ctx, d, root, hot, entry
        self.sites = {}
        self.walks, self.claimed = {}, {}
        self.loops, self.drops, self.installed = {}, {}, set()

    # -- loops that copy the shared list
    def copying(self, fr):
        """{loop header: (blocks, variables that receive shards)} for the loops of a function that fill a shard list"""
        if fr.key not in self.loops:
            out, pushes = {}, []
            for i, n in enumerate(fr.fn["nodes"]):
                if n and n["k"] == "call" and (n.get("cn") or "").startswith(LIST) and n.get("recv") is not None \
                        and short(n["cn"]) in ("push_back", "emplace_back", "insert"):
                    r = fr.fn["nodes"][n["recv"]]
                    if r and r["k"] == "ref" and i in fr.prep.where:
                        pushes.append((fr.prep.where[i], r["d"]))
            if pushes:
                for h, body in natural_loops(fr.fn):
                    ds = {d for b, d in pushes if b in body}
                    if ds:
                        out[h] = (body, ds)
            self.loops[fr.key] = out
        return self.loops[fr.key]

    def on_edge(self, ex, fr, st, block, to):
        b = block["id"]
        for h, (body, ds) in self.copying(fr).items():
            k = ('IT', fr.key, h)
            if b == h and k in st.r and ('KEPT',) not in st.r:
                self.drops.setdefault((fr.key, h), (ds, "%s:%s (%s)" % (
                    fr.fn["file"], (block.get("t") or {}).get("l", fr.fn["line"]), fr.fn["qn"])))
            if b in body and to not in body:
                st.r.pop(k, None)
            elif b == h:
                st.r[k] = 1
            if b == h:
                st.r.pop(('KEPT',), None)
                st.r.pop(('GONE',), None)

    def inline(self, fr, node, key):
        f = self.prog.F[key]
        if key == self.root:
            return False
        return (key in self.hot or bool(f.get("lambda"))) and self.prog.is_helper(key)

    def nonempty(self, st, loc):
        return ('CL', loc) in st.r

    def keep_cons(self, st, key):
        return ('PR', key) in st.r

    def is_name(self, v):
        """the name of a shard that is gone, or one that is not known here"""
        if v[0] == 'str':
            return v[1] in self.d.gone if self.d.gone else bool(v[1])
        return v[0] in ('i', 'L') and isinstance(v[1], tuple) and v[1][0] == 'g'

    def on_assume(self, ex, fr, st, v, truth):
        if v[0] == 'op' and v[1] == '==' and self.is_name(v[3]):
            # what is known of the name of the shard looked at
            if truth:
                st.r[('GONE',)] = st.r[('KEPT',)] = 1
            else:
                st.r.pop(('GONE',), None)
        elif v[0] not in ('op', 'not') and not truth:
            st.r[('KEPT',)] = 1
        for k in [k for k, x in st.r.items() if k[0] == 'PK' and x == v]:
            st.r[k] = 'yes' if truth else 'no'

    def keep_value(self, st, loc, v):
        return v[0] == 'c' or v[0] == 'op' and v[1] in ("begin", "next", "end") or ('PR', v) in st.r

    # -- the list and the claims
    def field(self, loc):
        return loc[2] if loc is not None and loc[0] == 'f' else None

    def is_old(self, ex, fr, st, x):
        """an element of the shared list or of a list of claimed shards"""
        if x is None:
            return False
        v = ex.load(fr, st, x[1]) if x[0] == 'L' else x
        return self.mentions(x) or self.mentions(v)

    def mentions(self, v):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == 'f' and v[2] == self.d.list:
                return True
            return any(self.mentions(x) for x in v)
        return False

    def container(self, ex, fr, st, x):
        if x is None:
            return None
        if x[0] == 'L':
            c = elem_of(x[1])
            if c is None:
                c = elem_value_of(ex.load(fr, st, x[1]))
            return c
        return elem_value_of(x)

    def bad(self, fr, node, key, text):
        self.ctx.violation("%s: %s" % (self.prog.F[self.root]["qn"], key), fr.where(node), text, fr.chain())

    def on_call(self, ex, fr, st, node, targets, recv, args):
        r = self.lock_call(ex, fr, st, node, recv, args)
        if r is not None:
            return r
        r = self.iter_call(ex, fr, st, node, recv, args)
        if r is not None:
            return r
        cn = node.get("cn") or ""
        name = short(cn)
        loc = recv[1] if recv is not None and recv[0] in ('addr', 'L') else None
        if self.field(loc) == self.d.claims and cn.startswith("std::"):
            return self.claim_call(ex, fr, st, node, name, args)
        if cn.startswith(LIST) and name in ADD and loc is not None:
            if self.field(loc) == self.d.list:
                if name in ("operator=", "swap", "assign"):
                    src = [x[1] for x in args if x is not None and x[0] == 'L']
                    for s in src:
                        self.install(ex, fr, st, node, s)
            elif name in ("push_back", "emplace_back", "insert"):
                for x in args:
                    v = ex.load(fr, st, x[1]) if x is not None and x[0] == 'L' else x
                    if v is None or v[0] == 'op':
                        continue
                    if self.is_old(ex, fr, st, x):
                        st.r[('KEPT',)] = 1
                        if ('GONE',) in st.r:
                            continue
                        st.r[('O2' if ('NEW', loc) in st.r else 'O', loc)] = 1
                    else:
                        st.r[('NEW', loc)] = v
        if name == "start" and recv is not None and node.get("recv") is not None and not cn.startswith("std::"):
            st.r[('ST', self.ptr(ex, fr, st, recv))] = 1
        if name == "end" and recv is not None and not cn.startswith("std::"):
            st.r.pop(('ST', self.ptr(ex, fr, st, recv)), None)
        if name == "discard" and not cn.startswith("std::") and recv is not None:
            nd = fr.prep.nodes[node["recv"]] if node.get("recv") is not None else None
            if nd is not None and nd["k"] != "this" and self.is_shard(fr, nd):
                self.ctx.count("discards of shards seen")
                if ('IN',) not in st.r:
                    self.bad(fr, node, "discards sources that are still needed",
                             "discards shards on a path on which no replacement has been put into the shared shard list")
                if any(k[2].startswith(self.d.record) for k in self.held(st) if k[0] == 'f'):
                    pass
        return None

    def is_shard(self, fr, nd):
        t = fr.prep.type(nd)
        return any(c in t for c in self.d.shards)

    def ptr(self, ex, fr, st, recv):
        if recv[0] == 'L':
            return ex.load(fr, st, recv[1])
        if recv[0] == 'addr' and recv[1][0] == 'd':
            return recv[1][1]
        return recv

    def block_of(self, fr, node):
        return fr.prep.where.get(node_id(fr, node))

    def walked(self):
        """some walk over the shared list that releases shards is a loop"""
        for key, blocks in self.walks.items():
            for h, body in natural_loops(self.prog.F[key]):
                if body & blocks and not body & self.claimed.get(key, set()):
                    return True
        return not self.walks

    def claim_call(self, ex, fr, st, node, name, args):
        if name in ("insert", "emplace"):
            self.ctx.count("claims seen")
            self.claimed.setdefault(fr.key, set()).add(self.block_of(fr, node))
            if not any(k[0] in ('CL', 'CLV') for k in st.r):
                # a new round
                for k in [k for k in st.r if k[0] in ('PK', 'PR', 'ST', 'NEW', 'O', 'O2', 'IN')]:
                    del st.r[k]
            for x in args:
                c = self.container(ex, fr, st, x)
                v = ex.load(fr, st, x[1]) if x is not None and x[0] == 'L' else x
                if c is not None and not self.mentions(c):
                    st.r[('CL', c)] = node["l"]
                elif v is not None:
                    st.r[('CLV', v)] = node["l"]
        elif name in ("erase", "extract"):
            self.ctx.count("releases seen")
            for x in args:
                c = self.container(ex, fr, st, x)
                v = ex.load(fr, st, x[1]) if x is not None and x[0] == 'L' else x
                if c is not None and ('CL', c) in st.r:
                    del st.r[('CL', c)]
                    continue
                st.r.pop(('CLV', v), None)
                if self.mentions(v):
                    # walks the shared list itself
                    self.walks.setdefault(fr.key, set()).add(self.block_of(fr, node))
                    for k in [k for k in st.r if k[0] in ('CL', 'CLV')]:
                        del st.r[k]
        elif name in ("clear", "swap", "operator="):
            self.bad(fr, node, "drops the claims of others",
                     "empties the set of claimed shards: shards that other workers are merging can be claimed again")
        return None

    def install(self, ex, fr, st, node, src):
        key = (node["l"], fr.fn["qn"])
        if src[0] == 'v':
            self.installed.add(src[2])
        if ('NEW', src) not in st.r:
            self.ctx.count("list replacements without a new shard")
            s = self.sites.setdefault(key, [fr.where(node), 0, None])
            s[1] |= ('O', src) in st.r
            return
        self.ctx.count("installations seen")
        v = st.r[('NEW', src)]
        s = self.sites.setdefault(key, [fr.where(node), 0, 0])
        s[2] = s[2] or 0
        s[1] |= ('O', src) in st.r
        s[2] |= ('O2', src) in st.r
        if ex.truth(st, v) is not True:
            self.bad(fr, node, "installs a shard that may be missing",
                     "puts the result of a merge into the shard list without knowing that there is one")
        if ('ST', v) not in st.r:
            self.bad(fr, node, "installs a shard that is not started",
                     "puts a shard into the shared list without having started it")
        pk = st.r.get(('PK', v))
        if pk == 'no' or pk not in (None, 'yes') and ex.truth(st, pk) is not True:
            self.bad(fr, node, "installs a shard that may not be stored",
                     "puts a merged shard into the shared list and discards its sources although storing it may have "
                     "failed: its data is lost when the process ends")
        for k in [k for k in st.r if k[0] == 'NEW']:
            del st.r[k]
        st.r[('IN',)] = 1

    def after_call(self, ex, fr, st, node, targets, recv, args, value):
        cn = node.get("cn") or ""
        if value is None or cn.startswith("std::"):
            return
        t = bare(fr.prep.type(node)) if "t" in node else ""
        if value[0] == 's' and any(t == "std::shared_ptr<%s>" % c for c in self.d.shards):
            st.r[('PR', value)] = 1
        if value[0] == 's' and any(t == "std::shared_ptr<%s>" % c for c in self.d.volatile) and targets \
                and ('PK', value) not in st.r:
            # a shard that is only in memory until it is stored
            st.r[('PK', value)] = 'no'
            self.ctx.count("merged shards followed")
        if short(cn) in self.d.storers and recv is not None:
            p = self.ptr(ex, fr, st, recv)
            if ('PK', p) in st.r:
                st.r[('PK', p)] = value

    # -- workers and threads
    def on_write(self, ex, fr, st, node, loc, value):
        if self.field(loc) != self.d.workers or loc[0] != 'f' or fr.fn.get("ctor"):
            return
        op = node.get("op") or ""
        if node["k"] == "un" and "--" in op or op == "-=" or value and value[0] == 'op' and value[1] == '-':
            st.r[('DEC',)] = min(st.r.get(('DEC',), 0) + 1, 3)
            self.ctx.count("workers un-counted")
        elif node["k"] == "un" and "++" in op or op == "+=" or value and value[0] == 'op' and value[1] == '+':
            st.r[('INC',)] = min(st.r.get(('INC',), 0) + 1, 3)
            self.ctx.count("workers counted")

    def on_dtor(self, ex, fr, st, elem, loc, type):
        super().on_dtor(ex, fr, st, elem, loc, type)
        v = st.env.get(loc)
        if v is not None and ('PR', v) in st.r and not any(y == v and k != loc for k, y in st.env.items()):
            st.cons.pop(v, None)
            for k in [k for k in st.r if len(k) > 1 and k[1] == v and k[0] in ('PR', 'PK', 'ST')]:
                del st.r[k]
        for k in [k for k in st.r if len(k) > 1 and k[1] == loc and k[0] in ('O', 'O2', 'NEW')]:
            del st.r[k]

    def on_ctor(self, ex, fr, st, node, *a):
        super().on_ctor(ex, fr, st, node, *a)
        if node["cn"] in ("std::thread", "std::jthread") and node.get("args") and node.get("cp") not in ("copy", "move"):
            if thread_entries(self.prog, fr.fn) & self.d.workerfns:
                st.r[('TH',)] = min(st.r.get(('TH',), 0) + 1, 3)
                self.ctx.count("worker threads started")

    def released(self, ex, fr, st, node, path, how):
        if path[0] == 'f' and path[2].startswith(self.d.record + "::"):
            self.balance(fr, st, node)

    def balance(self, fr, st, node):
        i, t = st.r.pop(('INC',), 0), st.r.pop(('TH',), 0)
        if i != t:
            self.bad(fr, node if node and "l" in node else None, "worker count out of step",
                     "releases the lock with %d workers counted for %d threads started" % (i, t))

    def on_exit(self, ex, fr, st, value):
        if fr.depth:
            return
        self.balance(fr, st, None)
        for k in [k for k in st.r if k[0] in ('CL', 'CLV')]:
            self.ctx.violation("%s: leaves shards claimed" % fr.fn["qn"], "%s:%s (%s)" % (
                fr.fn["file"], st.r[k], fr.fn["qn"]),
                "can leave with shards it claimed still claimed: they are never merged again", [str(k)])
        if self.entry:
            d = st.r.get(('DEC',), 0)
            self.ctx.count("ways out of the worker")
            if d != 1:
                self.ctx.violation("%s: un-counts itself %s" % (fr.fn["qn"], "never" if d == 0 else "more than once"),
                                   fr.where(), "has a way out on which the worker is un-counted %d times" % d)


def run(ctx):
    prog = ctx.prog()
    d = Decls(prog)
    if not d.record or not d.workers:
        ctx.errors.append("merge bookkeeping not found")
        return
    ctx.sample("record: %s; shards %s, claims %s, workers %s" % (d.record, d.list, d.claims, d.workers))
    d.shards = {q for q in prog.R if q == "cottontail::Owsla" or "cottontail::Owsla" in prog.R[q].get("bases", ())}
    # shards with a separate operation that stores them
    d.storers = {"pickle"}
    d.volatile = {q for q in d.shards if any(m["n"] in d.storers for m in prog.R[q]["methods"])}
    d.gone = gone_names(prog, d)
    ctx.count("names of shards that are gone", len(d.gone))
    entries = set()
    for f in prog.F.values():
        entries |= thread_entries(prog, f)

    def writes(f):
        for n in f["nodes"]:
            if not n:
                continue
            if n["k"] == "mem" and n["f"] in (d.list, d.claims) and n["acc"] in ("W", "RW", "CALLM", "REF", "ADDR") \
                    or n["k"] == "mem" and n["f"] == d.workers and n["acc"] in ("W", "RW", "REF", "ADDR"):
                return True
            if n["k"] == "call" and short(n.get("cn")) == "discard" and n.get("recv") is not None:
                r = f["nodes"][n["recv"]]
                if r["k"] != "this" and any(c in f["types"][r["t"]] for c in d.shards if "t" in r):
                    return True
        return False
    direct = {k for k, f in prog.F.items() if writes(f)}
    hot = prog.closure_pred(writes) | prog.closure_pred(lambda f: any(
        n and n["k"] == "call" and short(n.get("cn")) in d.storers for n in f["nodes"]))
    d.workerfns = {k for k in entries if any(
        m and m["k"] == "mem" and m["f"] == d.workers for c in {k} | closure(prog, k, direct)
        for m in prog.F[c]["nodes"])}
    callers = prog.callers()
    roots = sorted((direct | (d.workerfns & hot)) - {k for k in direct if (prog.F[k].get("lambda") or prog.is_helper(k) and
                                                       callers.get(k)) and k not in entries})
    roots = [k for k in roots if not prog.F[k].get("ctor")]

    def follow(c, k):
        rule = Merge(prog, c, d, k, hot, k in d.workerfns)
        ex = Exec(prog, rule)
        ex.start(k)
        c.count("functions followed")
        c.sample("followed: " + prog.F[k]["qn"])
        c.explored(ex)
        if not rule.walked():
            c.violation("%s: leaves shards claimed" % prog.F[k]["qn"], "%s:%s (%s)" % (
                prog.F[k]["file"], prog.F[k]["line"], prog.F[k]["qn"]),
                "releases one shard of the shared list where it claimed several")
        for w, before, after in rule.sites.values():
            if not before or after == 0:
                c.violation("%s: loses shards" % prog.F[k]["qn"], w,
                            "replaces the shard list by one that never holds the shards %s" % (
                                "in use" if after is None else "before the new one" if not before
                                else "after the new one"))
        for ds, w in rule.drops.values():
            if ds & rule.installed:
                c.violation("%s: leaves shards out" % prog.F[k]["qn"], w,
                            "a loop that rebuilds the shard list can pass over a shard that is in use")
    ctx.pmap(follow, roots, 1)
    for what, text in (("claims seen", "nothing claims the shards it merges"),
                       ("installations seen", "nothing puts the result of a merge into the shared shard list"),
                       ("discards of shards seen", "nothing discards the shards that a merge replaced"),
                       ("workers un-counted", "no worker is ever un-counted")):
        if not ctx.counts.get(what):
            ctx.violation(text, d.record, text)


def gone_names(prog, d):
    """the names a shard gives itself when it is discarded"""
    out = set()
    for f in prog.F.values():
        if f.get("cls") not in d.shards or not any(
                n and n["k"] == "call" and short(n.get("cn")) == "discard" and (
                    n.get("recv") is None or f["nodes"][n["recv"]]["k"] == "this") for n in f["nodes"]):
            continue
        for n in f["nodes"]:
            if n and n["k"] == "call" and n.get("op") == "=" and n.get("recv") is not None \
                    and f["nodes"][n["recv"]]["k"] == "mem":
                for a in n["args"]:
                    a = f["nodes"][a]
                    while a and a["k"] in ("cast", "un", "paren") and a.get("e") is not None:
                        a = f["nodes"][a["e"]]
                    if a and a["k"] == "lit" and a.get("lk") == "str":
                        out.add(a["v"])
    return out


def closure(prog, k, within):
    out, todo = set(), [k]
    while todo:
        for c in prog.callees(todo.pop()):
            if c not in out and prog.is_helper(c):
                out.add(c)
                todo.append(c)
    return out
