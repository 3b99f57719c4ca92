"""Snapshots.  The shared shard list and shared cache (fields of the record that owns the lock) and the captured copies
(fields of the same types in the readers) are found from the declarations.  Every function that fills a captured copy
is followed on every path, helpers inlined, with the critical sections numbered: list and cache must come from the
same hold of the same lock, only shards in a committed state may be taken, and a copy is never refilled while it is
valid.  Every call that makes a shard visible must be in the same hold as the replacement of the shared cache by an
empty one and the start of the shard.  Views are built only from a captured list together with its own cache, and
hold their list by value."""
from ..common import *
from ..locks import *
from .C01_publish import node_id

LIST = "std::vector<std::shared_ptr<cottontail::Owsla>"
CACHE = "std::shared_ptr<cottontail::OwslaCache>"
ADD = {"push_back", "emplace_back", "insert", "emplace", "assign", "operator=", "swap", "resize"}
ASSUMPTIONS = ["a shard's state is its name field, as every state change in the code is"]


def is_list(t):
    return bare(t).startswith(LIST) and not bare(t).endswith("*")


class Decls:
    def __init__(self, prog):
        self.prog = prog
        self.shared_list = self.shared_cache = None
        self.record = None
        self.pairs = {}        # captured list field -> captured cache field
        self.views = {}        # view class -> fields
        for q, r in prog.R.items():
            ls = [f for f in r["fields"] if is_list(f["t"])]
            cs = [f for f in r["fields"] if bare(f["t"]) == CACHE]
            ms = [f for f in r["fields"] if is_mutex(f["t"])]
            if not ls or not cs:
                continue
            qual = lambda f: q + "::" + f["n"]
            if ms and any(bare(f["t"]).startswith("std::set<") for f in r["fields"]):
                self.shared_list, self.shared_cache, self.record = qual(ls[0]), qual(cs[0]), q
            elif ms:
                self.pairs[qual(ls[0])] = qual(cs[0])
                self.valid = {qual(f) for f in r["fields"] if bare(f["t"]) == "bool"}
        for q, r in prog.R.items():
            if q == self.record or any(l.rsplit("::", 1)[0] == q for l in self.pairs):
                continue
            ls = [f for f in r["fields"] if is_list(f["t"])]
            if ls:
                self.views[q] = {q + "::" + f["n"] for f in ls}
        self.viewlists = {f for x in self.views.values() for f in x}
        # states a shard can be in
        self.name = None
        pub, unpub = set(), set()
        calls_abort = {k for k, f in prog.F.items() if f.get("name", short(f["qn"])) == "abort_"}
        owsla = {q for q in prog.R if "cottontail::Owsla" in self.bases(q)}
        for k, f in prog.F.items():
            if f.get("cls") not in owsla:
                continue
            for n in f["nodes"]:
                lit = self.name_write(f, n)
                if lit is None:
                    continue
                (unpub if f.get("ctor") or k in calls_abort else pub).add(lit)
        self.published, self.unpublished = pub - unpub, unpub

    def bases(self, q):
        out, todo = set(), [q]
        while todo:
            r = self.prog.R.get(todo.pop())
            for b in (r or {}).get("bases", ()):
                b = b if isinstance(b, str) else b.get("q") or b.get("t")
                if b not in out:
                    out.add(b)
                    todo.append(b)
        return out

    def name_write(self, f, n):
        """the literal a shard's name is set to by this node"""
        if not n:
            return None
        nodes = f["nodes"]
        if n["k"] == "call" and short(n.get("cn")) == "operator=" and n.get("args"):
            r = nodes[n["recv"]] if n.get("recv") is not None else nodes[n["args"][0]]
            a = nodes[n["args"][-1]]
            while r and r["k"] == "cast":
                r = nodes[r["e"]]
            if r and r["k"] == "mem" and r["f"] == "cottontail::Warren::name_":
                while a and a["k"] in ("cast", "ctor") and (a.get("e") is not None or a.get("args")):
                    a = nodes[a["e"] if a.get("e") is not None else a["args"][0]]
                return a.get("v") if a else None
        return None


def publishes(d, nodes, typeof, node, targets):
    """a call that makes a shard visible: reaches a publisher, on a shard"""
    if not any(k in d.publishers for k in targets or ()) or node.get("recv") is None:
        return False
    return any(q in typeof(nodes[node["recv"]]) for q in d.owsla)


def prog_overrides(prog, f):
    out = list(f.get("overrides") or ())
    r = prog.R.get(f.get("cls") or "")
    for m in (r or {}).get("methods", ()):
        if m["key"] == f["_key"]:
            out += m.get("overrides") or []
    return out


class Snap(LockRule):
    max_depth = 4
    widen_at = 6
    max_entries = 4

    def __init__(self, prog, ctx, d, root, hot):
        super().__init__(prog)
        self.ctx, self.d, self.root, self.hot = ctx, d, root, hot

    def inline(self, fr, node, key):
        f = self.prog.F[key]
        if short(f["qn"]) == "name" and len(f["nodes"]) < 8:
            return True
        return key in self.hot and self.prog.is_helper(key) or \
            f.get("lambda") or (self.prog.is_helper(key, fr.fn["file"]) and len(f["nodes"]) < 60)

    def keep_cons(self, st, key):
        return key[0] == 's' or any(v in str(key) for v in self.d.valid)

    # -- critical sections
    def acquired(self, ex, fr, st, node, path):
        st.r[('E', path)] = (fr.id, node_id(fr, node)) if "k" in node and node["k"] != "dtor" else 0

    def epoch(self, st, base, lockfields=None):
        """the hold under which an object of the base is accessed"""
        for k in st.r:
            if k[0] == 'H' and k[1][0] == 'f' and k[1][1] == canon(base):
                return (k[1], st.r.get(('E', k[1])))
        return None

    def fresh(self, base):
        b = canon(base)
        return b[0] == 'd' and b[1][0] == 'new' or b[0] in ('v', 'tmp')

    # -- reads of the shared pair, and of captured pairs
    def on_mem(self, ex, fr, st, node, loc, acc):
        if loc[0] != 'f':
            return
        if loc[2] == self.d.shared_list and acc not in ("W",):
            self.saw(fr, st, 'list', loc)
        elif loc[2] == self.d.shared_cache and acc not in ("W",):
            self.saw(fr, st, 'cache', loc)
        elif loc[2] in self.d.pairs and acc not in ("W",):
            self.saw(fr, st, 'list', loc)
        elif loc[2] in self.d.pairs.values() and acc not in ("W",):
            self.saw(fr, st, 'cache', loc)

    def saw(self, fr, st, what, loc):
        base = canon(loc[1])
        if self.fresh(base):
            return
        if loc[2] == self.d.shared_list:
            st.r[('SL', base)] = 1
        st.r[('S', what, base)] = st.r.get(('S', what, base), frozenset()) | {self.epoch(st, base)}

    # -- writes of the pairs
    def on_write(self, ex, fr, st, node, loc, value):
        if loc[0] != 'f':
            return
        if loc[2] == self.d.shared_cache:
            base = canon(loc[1])
            self.ctx.count("replacements of the shared cache seen")
            if value and value[0] == 'new':
                st.r[('R', base)] = self.epoch(st, base)
            return
        if loc[2] in self.d.pairs.values() and value != NULL and not self.in_ctor(fr):
            src = self.source(value, st)
            if src is not None:
                self.ctx.count("captures followed")
                st.r[('K', canon(loc[1]))] = src
        if loc[2] in self.d.pairs:
            self.filled(ex, fr, st, node, loc, [value])
        if loc[2] in self.d.valid:
            st.r.pop(('M', canon(loc[1])), None)
            st.r.pop(('T', canon(loc[1])), None)
            if ex.truth(st, value) is True:
                st.r[('T', canon(loc[1]))] = 1

    def source(self, v, st):
        """the object whose cache a value is"""
        def go(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == 'f' and (x[2] == self.d.shared_cache or x[2] in self.d.pairs.values()):
                    return canon(x[1])
                for y in x:
                    r = go(y)
                    if r is not None:
                        return r
            return None
        r = go(v)
        if r is not None:
            return r
        for k, y in st.env.items():
            if k[0] == 'f' and k[2] == self.d.shared_cache and y == v:
                return canon(k[1])
        return None

    def filled(self, ex, fr, st, node, loc, values):
        base = canon(loc[1])
        if self.fresh(base) and self.in_ctor(fr):
            return
        if not self.fresh(base):
            flag = [('i', ('f', loc[1], v)) for v in self.d.valid]
            flag += [st.env.get(('f', loc[1], v)) for v in self.d.valid]
            known = any(ex.truth(st, x) is False for x in flag if x is not None)
            if not known:
                st.r[('M', base)] = fr.where(node)
        st.r[('L', base)] = 1

    def in_ctor(self, fr):
        while fr is not None:
            if fr.fn.get("ctor"):
                return True
            fr = fr.parent
        return False

    def name_of(self, ex, fr, st, v):
        """the shard whose name a value is"""
        def go(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == 'f' and x[2] == "cottontail::Warren::name_":
                    return canon(x)
                for y in x:
                    r = go(y)
                    if r is not None:
                        return r
            return None
        if v is None:
            return None
        if v[0] == 'L':
            r = go(v[1])
            return r if r is not None else go(ex.load(fr, st, v[1]))
        return go(v)

    def on_decl(self, ex, fr, st, node, *a):
        pass

    def compared(self, ex, fr, st, node, args):
        if (node.get("cn") or "") not in ("std::operator==", "std::operator!=") or len(args) != 2:
            return None
        for x, y in (args, args[::-1]):
            if y is not None and y[0] == 'str':
                who = self.name_of(ex, fr, st, x)
                if who is not None:
                    yes, no = st.copy(), st.copy()
                    for k in [k for k in st.r if k[0] == 'Nm' and k[1] != who]:
                        del yes.r[k], no.r[k]
                    yes.r[('Nm', who, y[1])] = True
                    no.r[('Nm', who, y[1])] = False
                    eq = node["cn"].endswith("==")
                    return ('fork', [(yes, TRUE if eq else NULL), (no, NULL if eq else TRUE)])
        return None

    def on_call(self, ex, fr, st, node, targets, recv, args):
        r = self.compared(ex, fr, st, node, args)
        if r is not None:
            return r
        r = self.lock_call(ex, fr, st, node, recv, args)
        if r is not None:
            return r
        cn = node.get("cn") or ""
        loc = recv[1] if recv is not None and recv[0] in ('addr', 'L') else None
        if cn.startswith(LIST) and short(cn) in ADD and loc is not None and \
                (loc[0] in ('v', 'tmp') or loc[0] == 'f' and loc[2] in self.d.pairs):
            if loc[0] == 'f':
                self.filled(ex, fr, st, node, loc, args)
            if short(cn) in ("assign", "operator="):
                st.r.pop(('UF', loc), None)
            # whole-list copies take everything that is in the source
            for x in args:
                if x is not None and (x[0] == 'L' and x[1][0] == 'f' and x[1][2] == self.d.shared_list or
                                      short(cn) in ("insert", "assign") and self.live(x)):
                    st.r[('UF', loc)] = fr.where(node)
                if x is not None and x[0] == 'L' and ('UF', x[1]) in st.r:
                    st.r[('UF', loc)] = st.r[('UF', x[1])]
                if loc[0] == 'f' and ('UF', loc) in st.r:
                    self.ctx.violation("%s: unfiltered capture" % fr.fn["qn"], fr.where(node),
                                       "captures the shared shard list with shards that are not committed", fr.chain())
            if short(cn) in ("push_back", "emplace_back") and any(k[0] == 'SL' for k in st.r):
                self.filter(ex, fr, st, node, args, loc)
        if cn.startswith("std::") and short(cn) in ADD and loc is not None and loc[0] == 'f' and \
                loc[2] in self.d.viewlists:
            self.ctx.count("views filled")
            for x in args:
                if x is not None and self.live(x):
                    self.ctx.violation("%s: view of the live list" % fr.fn["qn"], fr.where(node),
                                       "fills a reader's view from the live shard list instead of its snapshot",
                                       fr.chain())
        # making a shard visible
        if self.visible(fr, node, targets):
            self.ctx.count("calls that make a shard visible")
            st.r[('V',)] = fr.where(node)
            lk = [k for k in self.held(st) if k[0] == 'f' and k[2].startswith(self.d.record + "::")]
            if not lk:
                self.ctx.violation("%s: visible outside the lock" % fr.fn["qn"], fr.where(node),
                                   "makes a shard visible without holding the lock under which readers capture the "
                                   "shard list", fr.chain())
                st.r.pop(('V',))
        if not cn.startswith("std::") and targets:
            self.view(ex, fr, st, node, args)
        return None

    def live(self, v):
        if isinstance(v, tuple):
            if len(v) == 3 and v[0] == 'f' and v[2] == self.d.shared_list:
                return True
            return any(self.live(x) for x in v)
        return False

    def visible(self, fr, node, targets):
        return publishes(self.d, fr.prep.nodes, lambda n: fr.prep.type(n), node, targets)

    def filter(self, ex, fr, st, node, args, loc):
        self.ctx.count("shards taken into a snapshot")
        pos, neg = set(), set()
        for k in [k for k in st.r if k[0] == 'Nm']:
            (pos if st.r[k] else neg).add(k[2])
            del st.r[k]
        if pos and pos <= self.d.published or neg >= self.d.unpublished:
            return
        if loc[0] != 'f':
            st.r[('UF', loc)] = fr.where(node)
            return
        what = sorted(pos - self.d.published) or ["uncommitted"]
        self.ctx.violation("%s: takes %s shards" % (fr.fn["qn"], what[0]), fr.where(node),
                           "takes shards into a reader's snapshot that need not be committed (%s)" % ", ".join(what),
                           fr.chain())

    def view(self, ex, fr, st, node, args):
        """A list and a cache handed on together must belong together."""
        lists, caches = [], []
        for i, x in enumerate(args):
            a = node["args"][i] if i < len(node["args"]) else None
            t = bare(fr.prep.type(fr.prep.nodes[a])) if a is not None and "t" in fr.prep.nodes[a] else ""
            if is_list(t) and x is not None:
                lists.append(x)
            elif t == CACHE and x is not None:
                caches.append(ex.load(fr, st, x[1]) if x[0] == 'L' else x)
        if not lists or not caches:
            return
        self.ctx.count("views built")
        for x in lists:
            if x[0] != 'L' or x[1][0] != 'f' or x[1][2] not in self.d.pairs:
                continue
            have = ex.load(fr, st, ('f', x[1][1], self.d.pairs[x[1][2]]))
            for c in caches:
                if canon(c) != canon(have) and not (c[0] == 's' and have[0] == 's'):
                    self.ctx.violation("%s: mismatched cache" % fr.fn["qn"], fr.where(node),
                                       "builds a view from a captured shard list and a cache that was not captured "
                                       "with it", fr.chain())

    def released(self, ex, fr, st, node, path, how):
        if path[0] != 'f':
            return
        if path[2].startswith(self.d.record + "::") and ('V',) in st.r:
            where = st.r.pop(('V',))
            if st.r.get(('R', path[1])) != (path, st.r.get(('E', path))):
                self.ctx.violation("%s: stale cache" % fr.fn["qn"], where,
                                   "makes a shard visible and releases the lock without having replaced the shared cache "
                                   "in the same step: readers would pair the new shard list with old posting lists",
                                   fr.chain())
        for k in [k for k in st.r if k[0] == 'M' and k[1] == path[1]]:
            self.ctx.violation("%s: refills a snapshot" % fr.fn["qn"], st.r[k],
                               "changes the snapshot of a reader that may be started", fr.chain())
            del st.r[k]

    def on_exit(self, ex, fr, st, value):
        if fr.depth:
            return
        for k in [k for k in st.r if k[0] == 'K']:
            src = st.r[k]
            lists = {x[2]: e for x, e in st.r.items() if x[0] == 'S' and x[1] == 'list'}
            caches = {x[2]: e for x, e in st.r.items() if x[0] == 'S' and x[1] == 'cache'}
            ce = caches.get(src, frozenset())
            le = lists.get(src)
            if le is None:
                self.ctx.violation("%s: cache without its list" % fr.fn["qn"], "%s:%s (%s)" % (
                    fr.fn["file"], fr.fn["line"], fr.fn["qn"]),
                    "captures the cache of one shard list but not that list")
                continue
            if None in ce | le or len(ce | le) > 1:
                self.ctx.violation("%s: snapshot not captured in one step" % fr.fn["qn"], "%s:%s (%s)" % (
                    fr.fn["file"], fr.fn["line"], fr.fn["qn"]),
                    "captures the shard list and the cache in different critical sections: a commit in between pairs "
                    "one with the other")
        for k in [k for k in st.r if k[0] == 'L']:
            if ('T', k[1]) not in st.r and self.d.valid and ('K', k[1]) in st.r:
                self.ctx.violation("%s: not marked as captured" % fr.fn["qn"], "%s:%s (%s)" % (
                    fr.fn["file"], fr.fn["line"], fr.fn["qn"]),
                    "captures a snapshot without marking it valid: starting again replaces it")
        # a list filled from the shared one needs its cache
        for k in [k for k in st.r if k[0] == 'L']:
            if ('K', k[1]) not in st.r and any(x[0] == 'S' and x[1] == 'list' and x[2] != k[1] for x in st.r):
                self.ctx.violation("%s: list without its cache" % fr.fn["qn"], "%s:%s (%s)" % (
                    fr.fn["file"], fr.fn["line"], fr.fn["qn"]),
                    "captures a shard list without the cache that goes with it")


def run(ctx):
    prog = ctx.prog()
    d = Decls(prog)
    if not d.shared_list or not d.pairs:
        ctx.errors.append("shared shard list not found")
        return
    ctx.sample("shared: %s, %s; captured: %s; committed states: %s; other states: %s" % (
        d.shared_list, d.shared_cache, dict(d.pairs), sorted(d.published), sorted(d.unpublished)))
    ctx.count("captured copies found", len(d.pairs))
    # what makes a shard visible: sets its name to a committed state
    owsla = {q for q in prog.R if "cottontail::Owsla" in d.bases(q)}
    pub = set()
    for k, f in prog.F.items():
        if f.get("cls") in owsla and not f.get("ctor") and not f.get("static"):
            if any(d.name_write(f, n) in d.published for n in f["nodes"]) and short(f["qn"]) in (
                    m["n"] for m in prog.R[f["cls"]]["methods"] if m.get("overrides")):
                pub.add(k)
    # the method may be reached through a wrapper in a base class
    base = set()
    for k in pub:
        todo = [k]
        while todo:
            f = prog.F.get(todo.pop())
            for o in prog_overrides(prog, f) if f else ():
                if o not in base:
                    base.add(o)
                    todo.append(o)
    d.publishers, d.owsla = set(pub), owsla
    for k, f in prog.F.items():
        for n in f["nodes"]:
            if n and n["k"] == "call" and n.get("c") and (n["c"] in pub or n["c"] in base):
                r = f["nodes"][n["recv"]] if n.get("recv") is not None else None
                if r is not None and r["k"] == "this" and not f.get("ctor"):
                    d.publishers.add(k)
    ctx.count("views found", len(d.views))
    for cls in sorted(d.views):
        ctx.sample("view: " + cls)
        for f in prog.R[cls]["fields"]:
            if "std::vector<std::shared_ptr<cottontail::Owsla>" in f["t"] and f["t"].strip().endswith(("&", "*")):
                ctx.violation("%s: shares its list" % cls, cls, "holds the shard list by reference")
    fields = {d.shared_list, d.shared_cache} | set(d.pairs) | set(d.pairs.values()) | d.viewlists

    def touches(f):
        return any(n and n["k"] == "mem" and n["f"] in fields and (
            n["f"] not in d.viewlists or n["acc"] not in ("R", "CALLC", "CREF")) for n in f["nodes"])
    direct = {k for k, f in prog.F.items() if any(
        n and n["k"] == "mem" and n["f"] in fields - {d.shared_list} - d.viewlists for n in f["nodes"]) or any(
        n and n["k"] == "call" and n.get("c") and f.get("cls") not in owsla and
        publishes(d, f["nodes"], lambda x: f["types"][x["t"]] if x.get("t") is not None else "", n, prog.targets(f, n)) and d.record.rsplit("::", 1)[0] in f["qn"] and
        any(m and m["k"] == "mem" and m["f"].startswith(d.record + "::") for m in f["nodes"]) for n in f["nodes"])}
    hot = prog.closure_pred(lambda f: touches(f))
    roots = [k for k in sorted(direct) if not prog.F[k].get("lambda") and
             not (prog.is_helper(k) and prog.callers().get(k))]

    def follow(c, k):
        rule = Snap(prog, c, d, k, hot)
        ex = Exec(prog, rule)
        ex.start(k)
        c.count("functions followed")
        c.sample("followed: " + prog.F[k]["qn"])
        c.explored(ex)
    ctx.pmap(follow, roots, 1)
    ctx.floor("captures followed", 2)
    ctx.floor("calls that make a shard visible", 1)

