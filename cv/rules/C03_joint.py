"""Joint commit and its recovery.  The joint operation is the function that commits every element of a list of
transactional objects and puts a recovery record (a file that opening a burrow runs) in place; it is found from what it
does.  On every path: the record holds something for each member, is executable and is in place (link tested) under a
name that recovery recognises before any member commits; it is removed only after the members committed; a return
before it is in place reports failure.  Opening a burrow replays the records and knows that this succeeded before it
does anything that lists or deletes shard files; the replay removes a record only after running it succeeded."""
from ..common import *
from ..locks import bare
from ..loops import *
from .C01_publish import node_id, cfn

ASSUMPTIONS = ["link, chmod and system report their results truthfully", "the shell executes the recovery record's commands in order"]
RUN = {"system"}


def run_cmd(n):
    return n["k"] == "call" and cfn(n) in RUN


def members(prog, f):
    """parameters that are lists of transactional objects"""
    out = []
    for p in f["params"]:
        t = bare(f["types"][p["t"]])
        if t.startswith("std::vector<std::shared_ptr<"):
            q = t[len("std::vector<std::shared_ptr<"):].split(">")[0].strip()
            if q in prog.R and any(m["n"] == "commit" for c in bases(prog, q) for m in prog.R[c]["methods"]):
                out.append(p["d"])
    return out


def bases(prog, q):
    out, todo = set(), [q]
    while todo:
        x = todo.pop()
        if x in prog.R and x not in out:
            out.add(x)
            todo += prog.R[x].get("bases", [])
    return out


class Base(LoopMixin, Rule):
    max_depth = 4
    widen_at = 8
    max_entries = 4
    asserts = "ignore"
    in_order = True

    def __init__(self, prog, ctx, root, hot):
        super().__init__(prog)
        self.ctx, self.root, self.hot = ctx, root, hot

    def inline(self, fr, node, key):
        return key in self.hot and key != self.root and self.prog.is_helper(key)

    def val(self, ex, fr, st, x):
        if x is None:
            return ('void',)
        return ex.load(fr, st, x[1]) if x[0] == 'L' else x

    def strip(self, v):
        while v[0] == 'op' and v[1] in ('cstr', 'c_str', 'data'):
            v = v[2]
        return v

    def bad(self, fr, node, key, text):
        self.ctx.violation("%s: %s" % (self.prog.F[self.root]["qn"], key), fr.where(node), text, fr.chain())


class Joint(Base):
    def __init__(self, prog, ctx, root, hot, params, wanted):
        super().__init__(prog, ctx, root, hot)
        self.params, self.wanted = params, wanted
        self.loops = {}
        self.asked = member_strings(prog, root)

    def nonempty(self, st, loc):
        return loc[0] == 'v' and (loc[2] in self.params or ('STG', loc) in st.r)

    def keep_value(self, st, loc, v):
        return v[0] == 'op' and v[1] in ("begin", "next", "end") or v in [k[1] for k in st.r if k[0] in ('PUB', 'X')]

    def keep_cons(self, st, key):
        return any(k[0] in ('PUB', 'X') and v == key for k, v in st.r.items())

    def member(self, ex, fr, st, x):
        """x denotes (something reached from) an element of the member list"""
        def m(v):
            if isinstance(v, tuple):
                if len(v) > 1 and v[0] in ('e', 'd') and isinstance(v[1], tuple):
                    c = elem_of(v)
                    if c is not None and self.nonempty(st, c):
                        return True
                return any(m(y) for y in v)
            return False
        return x is not None and (m(x) or x[0] == 'L' and m(ex.load(fr, st, x[1])))

    def published(self, ex, st):
        for k, v in st.r.items():
            if k[0] == 'PUB':
                return True
        return False

    def step(self, st, what):
        """something was done for the member the iterators are at"""
        st.r[('IT', what)] = 1

    def on_call(self, ex, fr, st, node, targets, recv, args):
        cn, name = node.get("cn") or "", cfn(node)
        op = node.get("op")
        if node.get("c") is None or not targets:
            if name in ("link", "rename") and len(args) == 2:
                s = ex.sym(st, fr, node_id(fr, node))
                a, b = [self.strip(self.val(ex, fr, st, x)) for x in args]
                self.ctx.count("records put in place")
                self.check_record(fr, st, node, a, b)
                st.r[('LK', s)] = (a, b)
                return ('val', s)
            if name in ("chmod",) and args:
                s = ex.sym(st, fr, node_id(fr, node))
                st.r[('CH', s)] = self.strip(self.val(ex, fr, st, args[0]))
                return ('val', s)
            if name in ("remove", "unlink") and args and not cn.startswith("std::filesystem"):
                self.removal(ex, fr, st, node, self.strip(self.val(ex, fr, st, args[0])))
                return None
        if op == "<<" and cn.startswith("std::") and len(args) + (recv is not None) == 2:
            self.insertion(ex, fr, st, node, (([recv] if recv is not None else []) + list(args))[1])
        if op in ("++", "+=") and recv is not None and recv[0] == 'addr':
            old = ex.load(fr, st, recv[1])
            if old[0] == 'op' and old[1] in ("begin", "next") and self.nonempty(st, old[2][1]):
                w = self.loops.setdefault((fr.key, node["l"], fr.fn["qn"]), [fr.where(node), set(), set()])
                did = {k[1] for k in st.r if k[0] == 'IT'}
                w[1].add(frozenset(did))
                for k in [k for k in st.r if k[0] == 'IT']:
                    del st.r[k]
        if short(cn) in ("size", "empty", "length") and cn.startswith("std::") and not args and node.get("recv") is not None \
                and is_string(bare(fr.prep.type(fr.prep.nodes[node["recv"]]))):
            s = ex.sym(st, fr, node_id(fr, node))
            st.r[('SZ', s)] = short(cn) == "empty"
            return ('val', s)
        if cn.startswith("std::") and recv is not None and recv[0] == 'addr' and recv[1][0] == 'v' and args and (
                op == "+=" or short(cn) in ("push_back", "emplace_back", "append")) and self.val(ex, fr, st, args[-1])[0] not in ('c', 'str'):
            # collected, to be written later
            self.step(st, "write")
            st.r[('STG', recv[1])] = 1
        r = self.iter_call(ex, fr, st, node, recv, args)
        if r is not None:
            if r[1][0] == 'op' and r[1][1] == 'begin' and self.nonempty(st, r[1][2][1]):
                for k in [k for k in st.r if k[0] == 'IT']:
                    del st.r[k]
            return r
        nm = short(cn)
        if nm == "commit" and not cn.startswith("std::") and recv is not None and (
                self.member(ex, fr, st, recv) or fr.prep.nodes[node["recv"]]["k"] != "this"):
            self.ctx.count("member commits")
            if not self.published(ex, st):
                self.bad(fr, node, "commits before the record is in place",
                         "commits a member on a path on which no recovery record is known to be in place: after a crash "
                         "only some of the members are committed")
            if ('GONE',) in st.r:
                self.bad(fr, node, "commits after the record is gone",
                         "commits a member after the recovery record was removed")
            st.r[('CM',)] = 1
            self.step(st, "commit")
            return None
        if nm in ("remove", "unlink") and targets and recv is not None and args:
            self.removal(ex, fr, st, node, self.strip(self.val(ex, fr, st, args[0])))
        return None

    def insertion(self, ex, fr, st, node, x):
        # into a file, of something that is not fixed text: the part of the member at hand
        i, n = None, node
        for _ in range(40):
            i = n["recv"] if n.get("recv") is not None else n["args"][0] if n.get("args") else None
            m = fr.prep.nodes[i] if i is not None else None
            if m is None or m["k"] != "call" or m.get("op") != "<<":
                break
            n = m
        if m is None or "stream" not in fr.prep.type(m) or "stringstream" in fr.prep.type(m):
            return
        if x[0] == 'L' or self.val(ex, fr, st, x)[0] not in ('str', 'c', 'fnp'):
            self.step(st, "write")
            st.r[('WR',)] = 1

    def after_call(self, ex, fr, st, node, targets, recv, args, value):
        cn = node.get("cn") or ""
        if value is None or cn.startswith("std::") or not targets:
            return
        if short(cn) == "make_name" and args:
            st.r[('MN', value)] = self.val(ex, fr, st, args[0])

    def check_record(self, fr, st, node, src, dst):
        if ('WR',) not in st.r or not self.asked:
            self.bad(fr, node, "record without its members", "puts a recovery record in place that says nothing about the members")
        if not any(k[0] == 'XOK' for k in st.r):
            self.bad(fr, node, "record may not be executable",
                     "puts a recovery record in place without knowing that it is executable: recovery cannot run it")
        if ('CM',) in st.r:
            self.bad(fr, node, "record after commit", "puts the recovery record in place after a member committed")

    def on_assume(self, ex, fr, st, v, truth):
        if v[0] == 'op' and v[1] == '>' and v[3] == NULL:
            v = v[2]
        # a member with nothing prepared has nothing to record
        if not truth and v[0] == 'i' and self.member(ex, fr, st, v) or ('SZ', v) in st.r and truth == st.r[('SZ', v)]:
            self.step(st, "write")
            st.r[('WR',)] = 1
        for k in [k for k in st.r if len(k) == 2 and k[1] == v]:
            if k[0] == 'LK' and not truth:
                st.r[('PUB', v)] = st.r[k][1]
            if k[0] == 'CH' and not truth:
                st.r[('XOK',)] = 1

    def removal(self, ex, fr, st, node, v):
        for k, (a, b) in [(k, x) for k, x in st.r.items() if k[0] == 'LK']:
            if v == b or st.r.get(('MN', b)) == v:
                self.ctx.count("record removals")
                if ('CM',) not in st.r:
                    if ('PUB', k[1]) in st.r:
                        self.bad(fr, node, "removes the record too early",
                                 "removes the recovery record before the members have committed")
                st.r[('GONE',)] = 1

    def on_exit(self, ex, fr, st, value):
        if fr.depth:
            return
        self.ctx.count("ways out of the joint commit")
        t = None if value[0] == 'void' else ex.truth(st, value)
        if not self.published(ex, st):
            if any(k[0] in ('LK', 'CH', 'WR') for k in st.r) and t is not False:
                self.bad(fr, None, "claims success without a record",
                         "has a way out on which the record could not be put in place and yet does not report failure")
        elif ('CM',) not in st.r:
            self.bad(fr, None, "record without commits",
                     "can leave with the recovery record in place and no member committed")
        elif ('GONE',) not in st.r:
            self.bad(fr, None, "leaves the record behind",
                     "can leave with the recovery record in place although every member committed")

    def report_loops(self):
        for key, (w, dids, _) in self.loops.items():
            for what, text in (("commit", "commits"), ("write", "records")):
                if any(what in d for d in dids) and any(what not in d for d in dids):
                    self.ctx.violation("%s: skips a member" % self.prog.F[self.root]["qn"], w,
                                       "%s some members but can pass over others" % text)


class Open(Base):
    """Recovery before anything else."""

    def __init__(self, prog, ctx, root, hot, replay, late):
        super().__init__(prog, ctx, root, hot)
        self.replay, self.late = replay, late
        self.removals = 0

    def keep_cons(self, st, key):
        return any(k[0] in ('RV', 'SY') and (v == key or key in k) for k, v in st.r.items())

    def keep_value(self, st, loc, v):
        return v[0] == 'op' and v[1] in ("begin", "next", "end")

    def elem_fact(self, k):
        return k[0] in ('RAN', 'SY')

    def on_call(self, ex, fr, st, node, targets, recv, args):
        r = self.iter_call(ex, fr, st, node, recv, args)
        if r is not None:
            return r
        if run_cmd(node) and self.in_replay(fr):
            s = ex.sym(st, fr, node_id(fr, node))
            for k in [k for k in st.r if k[0] in ('SY', 'RAN')]:
                del st.r[k]
            st.r[('SY', s)] = node["l"]
            self.ctx.count("records run")
            return ('val', s)
        nm = short(node.get("cn"))
        if self.in_replay(fr) and (nm in ("remove", "unlink") or cfn(node) in ("remove", "unlink")) and args:
            self.ctx.count("records removed by recovery")
            if ('RAN',) not in st.r:
                self.bad(fr, node, "removes a record that did not run",
                         "removes a recovery record on a path on which running it is not known to have succeeded")
            return None
        if targets and self.root not in self.replay:
            t = [t for t in targets if t in self.late and not (t in self.hot and self.inline(fr, node, t))]
            if t:
                self.ctx.count("inventory steps")
                v = st.r.get(('RV',))
                if v is None or v != TRUE and v[0] != 'void' and ex.truth(st, v) is not True:
                    self.bad(fr, node, "inventory before recovery",
                             "lists or deletes shard files on a path on which the pending recovery records are not "
                             "known to have been replayed")
        return None

    def in_replay(self, fr):
        f = fr
        while f is not None:
            if f.key in self.replay:
                return True
            f = f.parent
        return False

    def on_assume(self, ex, fr, st, v, truth):
        for k in [k for k in st.r if k[0] == 'SY' and k[1] == v]:
            if not truth:
                st.r[('RAN',)] = 1
                del st.r[k]
            else:
                st.r[('FAILED',)] = 1
                del st.r[k]
        if v == st.r.get(('RV',)) and truth:
            st.r[('RV',)] = TRUE

    def after_call(self, ex, fr, st, node, targets, recv, args, value):
        if any(t in self.replay for t in targets or ()) and value is not None:
            st.r[('RV',)] = value

    def on_exit(self, ex, fr, st, value):
        if fr.key in self.replay:
            self.ctx.count("ways out of recovery")
            t = None if value[0] == 'void' else ex.truth(st, value)
            if (('FAILED',) in st.r or any(k[0] == 'SY' for k in st.r)) and t is not False:
                self.ctx.violation("%s: hides a failed replay" % fr.fn["qn"], fr.where(),
                                   "does not report failure on a path on which running a recovery record is not known "
                                   "to have succeeded", fr.chain())


def literals(prog, key, calls):
    """string literals passed to the named calls in a function and its helpers"""
    out, todo, seen = set(), [key], set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        f = prog.F[k]
        for n in f["nodes"]:
            if n and n["k"] == "call" and short(n.get("cn")) in calls:
                for a in n.get("args", ()):
                    out |= strings(f, a)
        todo += [c for c in prog.callees(k) if prog.is_helper(c) and prog.F[c]["file"] == f["file"]]
    return out


def strings(f, i, d=0):
    n = f["nodes"][i] if i is not None else None
    if not n or d > 8:
        return set()
    if n["k"] == "lit":
        return {n["v"]} if n.get("lk") == "str" else set()
    out = set()
    for key in ("e", "a", "b", "recv"):
        if isinstance(n.get(key), int):
            out |= strings(f, n[key], d + 1)
    for a in n.get("args", ()) or ():
        out |= strings(f, a, d + 1)
    return out


def run(ctx):
    prog = ctx.prog()
    joint, wrappers = [], []
    pub = lambda f: any(n and n["k"] == "call" and cfn(n) in ("link", "rename") and not n.get("as") for n in f["nodes"])
    pubs = {k for k, f in prog.F.items() if pub(f)}
    hot = prog.closure_pred(lambda f: any(n and n["k"] == "call" and (
        cfn(n) in ("link", "rename", "chmod", "remove", "unlink") or short(n.get("cn")) == "commit" or n.get("op") == "<<")
        for n in f["nodes"]))
    commits = prog.closure_pred(lambda f: any(
        n and n["k"] == "call" and short(n.get("cn")) == "commit" and n.get("c") for n in f["nodes"]))
    for k, f in prog.F.items():
        ps = members(prog, f)
        if not ps or prog.is_helper(k) or not any(
                c == k or prog.is_helper(c) for c in helpers(prog, k) if commit_here(prog, c)):
            continue
        (joint if helpers(prog, k) & pubs else wrappers).append(k)
    runs = {k for k, f in prog.F.items() if any(n and run_cmd(n) for n in f["nodes"])}
    replay = {k for k, f in prog.F.items() if helpers(prog, k) & runs and any(
        n and n["k"] == "call" and short(n.get("cn")) == "ls" and n.get("c") for n in f["nodes"])}
    replay = {k for k in replay if not (helpers(prog, k) - {k}) & replay}
    if not joint:
        for w in wrappers:
            ctx.violation("%s: no recovery record" % prog.F[w]["qn"], "%s:%d" % (prog.F[w]["file"], prog.F[w]["line"]),
                          "commits several indexes and nothing it calls puts a recovery record in place")
    wanted = set()
    for k in replay:
        for h in {k} | {c for c in prog.callers().get(k, ()) if prog.is_helper(c)}:
            wanted |= literals(prog, k, {"ls", "compare", "starts_with", "ends_with", "rfind", "substr", "find"})
    for k in joint:
        f = prog.F[k]
        rule = Joint(prog, ctx, k, hot, set(members(prog, f)), wanted)
        ex = Exec(prog, rule)
        ex.start(k)
        ctx.count("joint commits followed")
        ctx.sample("joint commit: " + f["qn"])
        ctx.explored(ex)
        rule.report_loops()
        name_shape(ctx, prog, k, wanted)
        environment(ctx, prog, k)
    # those that fall back to committing one by one when the joint commit failed
    for k in wrappers:
        fallback(ctx, prog, k, set(joint))
    # opening
    lists = {k for k, f in prog.F.items() if any(
        n and n["k"] == "call" and short(n.get("cn")) == "ls" and n.get("c") for n in f["nodes"])}
    deletes = prog.closure_pred(lambda f: any(n and n["k"] == "call" and cfn(n) in ("remove", "unlink") for n in f["nodes"]))
    late = {k for k in lists & deletes if k not in replay}
    todo = set(late)
    roots = set()
    seen = set()
    while todo:
        k = todo.pop()
        for c in prog.callers().get(k, ()):
            if c in seen or c in late:
                continue
            seen.add(c)
            (todo if prog.is_helper(c) else roots).add(c)
    hot2 = set()
    todo = list(late | replay)
    while todo:
        k = todo.pop()
        if k not in hot2:
            hot2.add(k)
            todo += [c for c in prog.callers().get(k, ())]
    for k in replay:
        hot2 |= {c for c in helpers(prog, k)}
    hot2 -= late
    for k in sorted(replay):
        rule = Open(prog, ctx, k, hot2, replay, late)
        ex = Exec(prog, rule)
        ex.start(k)
        ctx.count("recoveries followed")
        ctx.explored(ex)

    def follow(c, k):
        rule = Open(prog, c, k, hot2, replay, late)
        ex = Exec(prog, rule)
        ex.start(k)
        c.count("opening operations followed")
        c.sample("opening: " + prog.F[k]["qn"])
        c.explored(ex)
    ctx.pmap(follow, sorted(roots - replay), 1)
    ctx.floor("joint commits followed", 1)
    ctx.floor("member commits", 1)


def commit_here(prog, k):
    return any(n and n["k"] == "call" and short(n.get("cn")) in ("commit",) and n.get("c") for n in prog.F[k]["nodes"])


def helpers(prog, k):
    out, todo = {k}, [k]
    while todo:
        for c in prog.callees(todo.pop()):
            if c not in out and prog.is_helper(c):
                out.add(c)
                todo.append(c)
    return out


def all_literals(prog, keys):
    out = set()
    for k in keys:
        for n in prog.F[k]["nodes"]:
            if n and n["k"] == "lit" and n.get("lk") == "str" and not n.get("as"):
                out.add(n["v"])
            elif n and n["k"] == "ref" and isinstance(n.get("v"), str):
                out.add(n["v"].strip('"'))
    return out


def member_strings(prog, k):
    """functions with a string result that the joint commit asks of its members"""
    out = set()
    for h in helpers(prog, k):
        f = prog.F[h]
        for n in f["nodes"]:
            if n and n["k"] == "call" and n.get("recv") is not None and "t" in n and is_string(bare(f["types"][n["t"]])):
                for t in prog.targets(f, n):
                    c = prog.F[t].get("cls")
                    if c and any(m["n"] == "commit" for b in bases(prog, c) for m in prog.R.get(b, {"methods": ()})["methods"]):
                        out.add(t)
    return out


def name_shape(ctx, prog, k, wanted):
    f = prog.F[k]
    have = all_literals(prog, helpers(prog, k))
    ctx.count("parts of the record's name recovery looks for", len(wanted))
    for w in sorted(wanted):
        if w and have and not any(l.startswith(w) or l.endswith(w) for l in have):
            ctx.violation("%s: record recovery does not recognise" % f["qn"], "%s:%d (%s)" % (f["file"], f["line"], f["qn"]),
                          'recovery looks for records named with "%s"; the joint commit names its record otherwise' % w)
    for t in sorted(member_strings(prog, k)):
        g = prog.F[t]
        said = all_literals(prog, helpers(prog, t))
        for h, c in sorted(prog.F.items()):
            if c.get("cls") == g.get("cls") and c["name"] == "commit_":
                ctx.count("member records compared with the member's own commit")
                for l in sorted(all_literals(prog, helpers(prog, h))):
                    if l.isalpha() and not any(x.startswith(l) for x in said):
                        ctx.violation("%s: another name" % g["qn"], "%s:%d (%s)" % (g["file"], g["line"], g["qn"]),
                                      'committing publishes under a name with "%s", which the recovery record of the '
                                      'member does not mention' % l)


def environment(ctx, prog, k):
    seen = set()
    for h in helpers(prog, k) | member_strings(prog, k):
        for c in helpers(prog, h) - seen:
            seen.add(c)
            f = prog.F[c]
            for n in f["nodes"]:
                if n and n.get("as") and n["k"] == "call" and (cfn(n) in ("access", "stat", "fopen") or (
                        n.get("cn") or "").startswith("std::filesystem")):
                    ctx.violation("%s: asserts on the file system" % f["qn"], "%s:%d (%s)" % (f["file"], n["l"], f["qn"]),
                                  "a joint commit ends the process when a member has nothing prepared (an empty "
                                  "transaction), instead of committing the others")
    ctx.count("functions of the joint commit scanned for assertions on the file system", len(seen))


class Fallback(Rule):
    max_depth = 3
    asserts = "ignore"

    def __init__(self, prog, ctx, root, joint):
        super().__init__(prog)
        self.ctx, self.root, self.joint = ctx, root, joint

    def inline(self, fr, node, key):
        return self.prog.is_helper(key) and key != self.root

    def keep_cons(self, st, key):
        return ('J', key) in st.r

    def on_call(self, ex, fr, st, node, targets, recv, args):
        if any(t in self.joint for t in targets or ()):
            s = ex.sym(st, fr, node_id(fr, node))
            st.r[('J', s)] = 1
            self.ctx.count("uses of the joint commit")
            return ('val', s)
        if short(node.get("cn")) == "commit" and node.get("c") and recv is not None:
            if any(k[0] == 'J' and ex.truth(st, k[1]) is not True for k in st.r):
                self.ctx.violation("%s: commits one by one" % self.prog.F[self.root]["qn"], fr.where(node),
                                   "commits the members one by one after the joint commit could not put its record in "
                                   "place", fr.chain())
        return None


def fallback(ctx, prog, k, joint):
    if not any(t in joint for h in helpers(prog, k) for t in prog.callees(h)):
        return
    ex = Exec(prog, Fallback(prog, ctx, k, joint))
    ex.start(k)
    ctx.explored(ex)
