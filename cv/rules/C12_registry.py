"""The component registry.  Every pair of a factory and a checking (or recovering) operation of one class that chooses by
name is followed on every path with the names it compares with as branch facts.  For each name the factory knows, and for
a name it does not know: the sibling accepts it exactly when the factory does and asks the same component class; an
unknown name is rejected.  A name that a component of the family is given is one of the factory's names,
and leads back to the class it was given to."""
from ..common import *
from ..locks import bare
from .C01_publish import node_id

ASSUMPTIONS = ["components are chosen by comparing the name with literals"]
# families whose objects carry names that are not meant for the factory
STATES = {"cottontail::Warren": "shards and views name their state; a stored index names its type in its dna"}

# what is written with a recipe is read with the same recipe
PAIRS = [("cottontail::Reader", "cottontail::Writer")]


class Names(Rule):
    max_depth = 4
    widen_at = 4
    max_entries = 2
    max_states = 20000
    collapse = False
    asserts = "assume"

    def __init__(self, prog, ctx, root):
        super().__init__(prog)
        self.ctx, self.root = ctx, root
        self.rows = []
        self.err = error_param(prog.F[root])

    def inline(self, fr, node, key):
        f = self.prog.F[key]
        if f.get("lambda"):
            return True
        if f.get("cls") != self.prog.F[self.root].get("cls") and f.get("cls"):
            return False
        return self.prog.is_helper(key) and len(f["nodes"]) < 400

    def name(self, ex, fr, st, v):
        """which parameter of the root a compared value is"""
        for _ in range(4):
            if v is None:
                return None
            if v[0] == 'L':
                if v[1][0] == 'd' and v[1][1][0] == 'i' and v[1][1][1][0] == 'v' and v[1][1][1][1] == 0:
                    return v[1][1][1][2]
                if v[1][0] == 'v' and v[1][1] == 0 and v[1][2] in self.params():
                    return v[1][2]
                w = ex.load(fr, st, v[1])
                if w == v:
                    return None
                v = w
                continue
            if v[0] == 'i':
                v = ('L', v[1])
                continue
            return None
        return None

    def params(self):
        return {p["d"] for p in self.prog.F[self.root]["params"]}

    def lit(self, ex, fr, st, v):
        for _ in range(3):
            if v is None:
                return None
            if v[0] == 'str':
                return v[1]
            if v[0] == 'L':
                v = ex.load(fr, st, v[1])
        return None

    def on_call(self, ex, fr, st, node, targets, recv, args):
        cn, nid = node.get("cn") or "", node_id(fr, node)
        s = short(cn)
        if s in ("operator==", "operator!=", "compare", "empty") or s == "operator!" and not targets:
            both = [a for a in ([recv] if recv is not None else []) + list(args) if a is not None]
            both = [('L', a[1]) if a[0] == 'addr' else a for a in both]
            p = [self.name(ex, fr, st, a) for a in both]
            l = [self.lit(ex, fr, st, a) for a in both]
            if s == "empty" and p and p[0]:
                return ('val', ('eq', p[0], ""))
            pp, ll = [x for x in p if x], [x for x in l if x is not None]
            if pp and ll and s != "compare":
                e = ('eq', pp[0], ll[0])
                return ('val', e if s == "operator==" else ('not', e))
        if s == "safe_error":
            st.r['MSG'] = 1
        if targets and (s in ("make", "check", "recover") or s.startswith("make_")):
            cls = {self.prog.F[k].get("cls") for k in targets}
            for c in sorted(x for x in cls if x and x != self.prog.F[self.root].get("cls")):
                if fr.depth == 0 or True:
                    st.r.setdefault(('ASK',), short(c))
        if s in ("make_shared", "make_unique"):
            t = bare(fr.prep.type(node))
            for q in self.prog.R:
                if "<%s>" % q in t:
                    st.r.setdefault(('ASK',), short(q))
        return None

    def on_new(self, ex, fr, st, node, v):
        t = fr.prep.fn["types"][node["nt"]] if isinstance(node.get("nt"), int) else node.get("nt")
        if t:
            st.r.setdefault(('ASK',), short(bare(str(t))))

    def on_assume(self, ex, fr, st, v, truth):
        if v[0] == 'eq':
            if truth:
                if ('IS', v[1]) in st.r and st.r[('IS', v[1])] != v[2]:
                    st.r['DEAD'] = 1
                if ('NOT', v[1], v[2]) in st.r:
                    st.r['DEAD'] = 1
                st.r[('IS', v[1])] = v[2]
            else:
                if st.r.get(('IS', v[1])) == v[2]:
                    st.r['DEAD'] = 1
                st.r[('NOT', v[1], v[2])] = 1

    def keep_value(self, st, loc, v):
        return v[0] in ('eq', 'str')

    def on_write(self, ex, fr, st, node, loc, value):
        if loc[0] == 'f' and short(loc[2]) == "name_" and node is not None:
            x = self.lit(ex, fr, st, value) if value is not None else None
            if x is None and value is not None and self.name(ex, fr, st, value):
                x = ('NAME',)
            if x is not None:
                st.r['GIVEN'] = x

    def on_exit(self, ex, fr, st, value):
        if fr.depth or 'DEAD' in st.r:
            return
        is_ = tuple(sorted((k[1], v) for k, v in st.r.items() if k[0] == 'IS'))
        nots = frozenset(k[2] for k in st.r if k[0] == 'NOT')
        t = ex.truth(st, value) if value is not None else None
        if value is not None and value[0] == 'eq':
            t = None
            self.rows.append((is_ + ((value[1], value[2]),), nots, True, st.r.get(('ASK',)), st.r.get('MSG'), st.r.get('GIVEN')))
            self.rows.append((is_, nots | {value[2]}, False, st.r.get(('ASK',)), st.r.get('MSG'), st.r.get('GIVEN')))
            return
        self.rows.append((is_, nots, t, st.r.get(('ASK',)), st.r.get('MSG'), st.r.get('GIVEN')))


def table(prog, ctx, key):
    rule = Names(prog, ctx, key)
    ex = Exec(prog, rule)
    ex.start(key)
    ctx.explored(ex)
    known, msg, given = {}, {}, {}
    nots = set()
    for is_, no, t, ask, m, g in rule.rows:
        nots |= no
        names = [v for _, v in is_]
        n = names[-1] if names else None
        known.setdefault(n, set()).add((t, ask))
        if t is False or ask is None and t is None:
            msg.setdefault(n, []).append(bool(m))
        if g is not None:
            given.setdefault(n, set()).add((g if g != ('NAME',) else n, ask))
    return known, nots, msg, given


def accepted(rows):
    """whether a name can be accepted, and the class that is asked"""
    asks = {a for t, a in rows if a}
    ok = any(t is not False for t, a in rows)
    return ok, asks


def run(ctx):
    prog = ctx.prog()
    tables = {}
    for k, f in sorted(prog.F.items()):
        if f["file"].startswith(("apps/", "test/")) or not f.get("cls") or not prog.is_static(k):
            continue
        if f["name"] not in ("make", "check", "recover"):
            continue
        known, nots, msg, given = table(prog, ctx, k)
        names = {n for n in known if n is not None}
        if len(names | nots) < 2:
            continue
        tables.setdefault(f["cls"], {}).setdefault(f["name"], []).append((k, known, nots, msg, given))
    for cls in sorted(tables):
        t = tables[cls]
        if "make" not in t:
            continue
        k, known, nots, msg, given = max(t["make"], key=lambda x: len(x[2]))
        f = prog.F[k]
        where = "%s:%d (%s)" % (f["file"], f["line"], f["qn"])
        names = {n for n in known if n is not None and accepted(known[n])[0]}
        ctx.count("component families")
        ctx.count("component names", len(names))
        ctx.sample("%s knows %s" % (cls, ", ".join('"%s"' % n for n in sorted(names))))
        if None in known and accepted(known[None])[0] and any(t is not False and a for t, a in known[None]):
            ctx.violation("%s: accepts unknown names" % f["qn"], where,
                          "a name that is compared with nothing still makes a component", [])
        for sib in ("check", "recover"):
            for ks, kn, no, ms, _ in t.get(sib, ()):
                fs = prog.F[ks]
                ws = "%s:%d (%s)" % (fs["file"], fs["line"], fs["qn"])
                theirs = {n for n in kn if n is not None and accepted(kn[n])[0]}
                ctx.count("siblings compared")
                for n in sorted(names - theirs):
                    ctx.violation("%s: rejects \"%s\"" % (fs["qn"], n), ws,
                                  "%s makes a component for the name \"%s\", which %s does not accept" % (f["qn"], n, fs["qn"]), [])
                for n in sorted(theirs - names):
                    ctx.violation("%s: accepts \"%s\"" % (fs["qn"], n), ws,
                                  "%s accepts the name \"%s\", for which %s makes nothing" % (fs["qn"], n, f["qn"]), [])
                for n in sorted(names & theirs):
                    a, b = accepted(known[n])[1], accepted(kn[n])[1]
                    ctx.count("names compared")
                    if a and b and not a & b and sib == "check":
                        ctx.violation("%s: \"%s\" means another component" % (fs["qn"], n), ws,
                                      "for \"%s\", %s asks %s and %s asks %s" %
                                      (n, f["qn"], "/".join(sorted(a)), fs["qn"], "/".join(sorted(b))), [])
                if None in kn and any(x is not False for x, a in kn[None]):
                    ctx.violation("%s: accepts unknown names" % fs["qn"], ws, "a name that is compared with nothing is accepted", [])
        if cls not in STATES:
            for n, gs in sorted(given.items(), key=str):
                for g, ask in sorted(gs, key=str):
                    ctx.count("given names compared")
                    if g is None:
                        continue
                    if g not in names:
                        ctx.violation("%s: gives the name \"%s\"" % (f["qn"], g), where,
                                      "a component is named \"%s\", a name %s does not know" % (g, f["qn"]), [])
                    elif ask and ask not in accepted(known[g])[1] and accepted(known[g])[1]:
                        ctx.violation("%s: gives the name \"%s\"" % (f["qn"], g), where,
                                      "a %s is named \"%s\", which stands for %s" % (ask, g, "/".join(accepted(known[g])[1])), [])
    for a, b in PAIRS:
        if a in tables and b in tables:
            na, nb = [({n for n in x[1] if n is not None and accepted(x[1][n])[0]}, x[0]) for x in
                      (tables[a]["make"][0], tables[b]["make"][0])]
            ctx.count("names compared", len(na[0] | nb[0]))
            for n in sorted(na[0] ^ nb[0]):
                k = nb[1] if n in na[0] else na[1]
                f = prog.F[k]
                ctx.violation("%s: does not know \"%s\"" % (f["qn"], n), "%s:%d (%s)" % (f["file"], f["line"], f["qn"]),
                              "\"%s\" is known to %s and not to %s" % (n, a if n in na[0] else b, b if n in na[0] else a), [])
    ctx.floor("component families", 7)
    ctx.floor("siblings compared", 7)
    ctx.floor("names compared", 20)
