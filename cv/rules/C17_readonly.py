"""Reading changes nothing, and what is closed refuses changes.  (1) From every operation that reads (the operations of
indexes, texts, posting lists, tokenizers, statistics, views and clones, and the making of published shards) no action
that changes a stored file is reachable, except behind a flag that (2) decides.  (2) For every class, the states in
which it refuses a transaction (or to finalize) for good are found from the paths that refuse; started in such a state,
every other operation that changes something refuses too and changes nothing.  (3) A component that could only be
opened for reading is marked so on every path that answers it.  (4) A class that accepts transactions has its own
ready step."""
from ..common import *
from ..locks import bare
from .C01_publish import node_id

ASSUMPTIONS = ["virtual calls reach the override of every class derived from the receiver's static type",
               "a file is changed only through the system and library calls listed in this rule"]
FS = {"remove", "remove_all", "rename", "create_directory", "create_directories", "resize_file", "copy", "copy_file",
      "permissions", "create_hard_link", "create_symlink", "create_directory_symlink"}
POSIX = {"link", "symlink", "rename", "remove", "unlink", "truncate", "ftruncate", "creat", "write", "pwrite", "mkdir",
         "rmdir", "mkstemp", "system", "chmod", "fchmod", "unlinkat", "linkat", "renameat", "posix_fallocate"}
READING = {"Hopper", "Idx", "Txt", "Featurizer", "Tokenizer", "Stemmer", "Compressor", "Stats", "Warren"}
CHANGES = {"transaction_", "ready_", "commit_", "abort_", "transaction", "ready", "commit", "abort", "annotate_",
           "append_", "erase_", "set_parameter_", "set_parameter", "commit_all", "discard"}
RECOVERY = {
    "cottontail::SimpleTxtIO::sync_last_chunk": "writes what this object itself has been given to append",
    "cottontail::SimpleTxtIO::make": "creates the text files of a new index, and rolls them forward or back",
    "cottontail::SimpleIdx::make": "completes an interrupted commit",
    "cottontail::VocabFeaturizer::~VocabFeaturizer": "keeping the vocabulary it has seen is what this component is for",
}
THIS = ('d', ('this',))


def bits(f, i, names):
    n = f["nodes"][i] if i is not None else None
    if n is None:
        return False
    if n["k"] == "ref" and n.get("n") in names:
        return True
    from .C02_writes import _children
    return any(bits(f, c, names) for c in _children(n))


def out_mode(f, args):
    """whether a mode among these arguments allows writing (looking through constants held in locals)"""
    for a in args:
        if a is None:
            continue
        if bits(f, a, ("out", "app", "trunc")):
            return True
        n = f["nodes"][a]
        while n and n["k"] in ("cast", "paren") and n.get("e") is not None:
            n = f["nodes"][n["e"]]
        if n and n["k"] == "ref" and "openmode" in f["types"][n["t"]].lower() + n.get("n", "").lower():
            for m in f["nodes"]:
                for v in (m or {}).get("vars", ()) if m and m["k"] == "decl" else ():
                    if v["d"] == n.get("d") and v.get("init") is not None and bits(f, v["init"], ("out", "app", "trunc")):
                        return True
    return False


def write_action(f, i):
    """what node i does to a stored file, or None"""
    n = f["nodes"][i]
    if not n:
        return None
    cn = n.get("cn") or ""
    c = cn[5:] if cn.startswith("std::") else cn
    if n["k"] == "call":
        if cn.startswith("std::filesystem::"):
            return short(cn) if short(cn) in FS and n.get("recv") is None else None
        if c in POSIX and n.get("recv") is None:
            return c
        if c in ("fopen", "fdopen", "freopen") and len(n["args"]) > 1:
            m = f["nodes"][n["args"][1]]
            while m and m["k"] in ("cast", "paren") and m.get("e") is not None:
                m = f["nodes"][m["e"]]
            s = str(m.get("v", "w")) if m and m["k"] == "lit" else "w"
            return c + " for writing" if set(s) & set("wa+") else None
        if c in ("open", "openat", "open64") and n.get("recv") is None and len(n["args"]) > 1:
            m = f["nodes"][n["args"][1]]
            while m and m["k"] in ("cast", "paren") and m.get("e") is not None:
                m = f["nodes"][m["e"]]
            v = m.get("v") if m else None
            if v is None and m and m["k"] == "bin":
                return "open for writing" if any(lit_bits(f, x) for x in (m["a"], m["b"])) else None
            try:
                return "open for writing" if int(str(v), 0) & 0o1103 else None
            except ValueError:
                return "open for writing"
        if short(cn) == "open" and n.get("recv") is not None and "stream" in cn and "ifstream" not in cn:
            return "open for writing" if "ofstream" in cn or out_mode(f, n["args"]) or len(n["args"]) == 1 else None
    elif n["k"] == "ctor" and n["args"] and ("fstream" in cn or "filebuf" in cn) and "ifstream" not in cn and \
            n.get("cp") not in ("move", "copy"):
        return "open for writing" if "ofstream" in cn or out_mode(f, n["args"]) or len(n["args"]) == 1 else None
    return None


def lit_bits(f, i):
    n = f["nodes"][i]
    while n and n["k"] in ("cast", "paren") and n.get("e") is not None:
        n = f["nodes"][n["e"]]
    if n and n["k"] == "bin":
        return lit_bits(f, n["a"]) or lit_bits(f, n["b"])
    try:
        return bool(int(str(n.get("v")), 0) & 0o1103)
    except (ValueError, AttributeError):
        return True


def lib(f):
    return not f["file"].startswith(("apps/", "test/"))


def effect_free(ctx, prog, flags):
    acts = {}
    for k, f in prog.F.items():
        if lib(f):
            for i in range(len(f["nodes"])):
                a = write_action(f, i)
                if a:
                    acts.setdefault(k, (a, f["nodes"][i]["l"]))
    ctx.count("functions that change stored files", len(acts))
    roots = {}
    for k, f in prog.F.items():
        c = f.get("cls")
        if not c or f.get("lambda") or not lib(f):
            continue
        sup = {short(x) for x in prog.superclasses(c)} | {short(c)}
        if not sup & READING or sup & {"Annotator", "Appender"} or f["name"] in CHANGES:
            continue
        if prog.is_static(k):
            # published shards are opened, and recipes checked, without writing
            if f["name"] == "check" or f["name"] == "unpickle" or f["name"] == "make" and short(c).startswith(("Hazel", "Fiver")):
                roots[k] = "%s::%s" % (short(c), f["name"])
            continue
        if f.get("virtual"):
            roots[k] = "%s::%s" % (short(c), f["name"])
    for k, f in prog.F.items():
        if f["file"] in ("src/ranking.cc", "src/ranker.cc") and not f.get("cls") and \
                "RankingResult" in f["types"][f["ret"]]:
            roots[k] = f["name"]
    ctx.count("reading operations", len(roots))
    seen, q = {r: None for r in roots}, list(sorted(roots))
    while q:
        k = q.pop(0)
        f = prog.F[k]
        if f["qn"] in RECOVERY or k in flags:
            continue
        if f["name"] in ("transaction_", "ready_", "commit_", "abort_"):
            continue
        for c in sorted(prog.callees(k)):
            if c not in seen and lib(prog.F[c]):
                seen[c] = k
                q.append(c)
    ctx.count("functions reachable from reading operations", len(seen))
    for k in sorted(acts):
        if k not in seen or k in flags or prog.F[k]["qn"] in RECOVERY or prog.F[k]["name"] in CHANGES:
            continue
        path, x = [], k
        while x:
            path.append("%s (%s:%d)" % (prog.F[x]["qn"], prog.F[x]["file"], prog.F[x]["line"]))
            x = seen[x]
        ctx.violation("%s: %s reached by a reading operation" % (prog.F[k]["qn"], acts[k][0]),
                      "%s:%d (%s)" % (prog.F[k]["file"], acts[k][1], prog.F[k]["qn"]),
                      "%s changes a stored file here, and is reached from %s, which only reads" %
                      (acts[k][0], path[-1].split(" ")[0]), path[::-1])


class Refuse(Rule):
    """the paths on which an operation refuses because of the state of its object"""
    max_depth = 4
    widen_at = 4
    max_entries = 2
    max_states = 4000
    collapse = False
    asserts = "assume"

    def __init__(self, prog, ctx, root):
        super().__init__(prog)
        self.ctx, self.root = ctx, root
        self.atoms = []
        self.exits = []

    def inline(self, fr, node, key):
        return self.prog.F[key].get("lambda") or self.prog.is_helper(key) and len(self.prog.F[key]["nodes"]) < 300

    def on_call(self, ex, fr, st, node, targets, recv, args):
        cn = node.get("cn") or ""
        if short(cn) == "safe_error" or "basic_string" in cn or cn.startswith("std::operator"):
            return None
        name = short(cn)
        if targets and any(self.inline(fr, node, k) for k in targets):
            return None
        if write_action(fr.fn, node_id(fr, node)):
            st.r['E'] = fr.where(node)
        elif recv is not None and cn.startswith("std::") and name in MUTATORS and name not in ("lock", "unlock") and self.mine(recv):
            st.r['E'] = fr.where(node)
        elif targets and any(k in effects(self.prog) for k in targets):
            st.r['E'] = fr.where(node)
            st.r['CALL'] = fr.where(node)
        return None

    def keep_cons(self, st, key):
        return key[0] == 'i' and key[1][0] == 'f' and key[1][1] == THIS

    def mine(self, v):
        while isinstance(v, tuple):
            if v == ('this',):
                return True
            v = v[1] if len(v) > 1 else None
        return False

    def on_write(self, ex, fr, st, node, loc, value):
        if loc[0] in ('f', 'e') and self.mine(loc):
            st.r['E'] = fr.where(node) if node is not None else fr.where()
        elif loc[0] == 'd' and self.mine(loc[1]):
            st.r['E'] = fr.where(node) if node is not None else fr.where()

    def on_exit(self, ex, fr, st, value):
        if fr.depth:
            return
        atoms = []
        for k, t in st.cons.items():
            l = k[1] if k[0] == 'i' else None
            if l and l[0] == 'f' and l[1] == THIS:
                atoms.append((l[2], bool(t)))
        fails = value is not None and ex.truth(st, value) is False
        self.exits.append((fails, st.r.get('E'), tuple(sorted(atoms)), st.r.get('CALL')))


def refusing(prog, ctx, key, env=()):
    rule = Refuse(prog, ctx, key)
    st = State()
    for field, v in env:
        st.cons[('i', ('f', THIS, field))] = v
    ex = Exec(prog, rule)
    ex.start(key, st)
    ctx.explored(ex)
    return rule


def states(ctx, prog):
    """closing states of each class, and what its other operations do in them"""
    flags = set()
    for q in sorted(prog.R):
        ms = [m for m in prog.R[q]["methods"] if m["key"] in prog.F and lib(prog.F[m["key"]])]
        opens = [m for m in ms if m["n"] in ("transaction_", "finalize")]
        if not opens:
            continue
        ctx.count("classes with transactions")
        closing = {}
        # a state that closes: it alone makes an operation refuse without doing anything, and the class never leaves it
        ops = [m for m in ms if prog.F[m["key"]]["name"].startswith(("transaction_", "annotate", "append", "erase", "add_",
               "finalize", "ready_", "flush", "set_parameter")) and not prog.is_static(m["key"]) and
               (m["key"] in effects(prog) or prog.F[m["key"]]["params"]) and
               (prog.F[m["key"]].get("access") == "public" or prog.F[m["key"]].get("overrides") or
                prog.F[m["key"]].get("virtual"))]
        for m in ops:
            r = refusing(prog, ctx, m["key"])
            void = prog.F[m["key"]]["types"][prog.F[m["key"]]["ret"]] == "void"
            for fails, eff, atoms, call in r.exits:
                if (fails or void) and not eff and atoms:
                    # the last tested field decides
                    for a in atoms:
                        if m["key"] not in closing.setdefault(a, []):
                            closing[a].append(m["key"])
        true = {}
        for a, src in ((a, x) for a, xs in closing.items()
                       for x in sorted(xs, key=lambda x: not prog.F[x]["name"].startswith("transaction_"))):
            if a in true:
                continue
            r = refusing(prog, ctx, src, [a])
            if r.exits and all((x[0] or prog.F[src]["types"][prog.F[src]["ret"]] == "void") and not x[1] for x in r.exits):
                true[a] = src
        for (field, val), src in sorted(true.items()):
            left = leaves(prog, q, field, val)
            if left is None and prog.F[src]["name"] == "transaction_":
                f = prog.F[src]
                ctx.violation("%s: never closed by %s" % (f["qn"], short(field)), "%s:%d (%s)" % (f["file"], f["line"], f["qn"]),
                              "%s refuses when %s is %s, but nothing ever makes it so, not even the commit" %
                              (f["qn"], short(field), "set" if val else "null or false"), [])
            if left is not False:
                continue
            opened = [m for m in ops if m["key"] == src]
            ctx.count("closing states")
            if not hasattr(prog, "_c17"):
                prog._c17 = {}
            prog._c17.setdefault(q, []).append(field)
            ctx.sample("%s is closed when %s is %s" % (q, short(field), "set" if val else "null or false"))
            for m in ops:
                if m["key"] == src or m["n"].startswith("ready"):
                    continue
                f = prog.F[m["key"]]
                boolean = f["types"][f["ret"]] == "bool"
                r = refusing(prog, ctx, m["key"], [(field, val)])
                ctx.count("operations followed in a closing state")
                bad = None
                delegates = m["n"].startswith("add_") and not m["n"].endswith("_")
                for fails, eff, atoms, call in r.exits:
                    if boolean and not fails and not (m["n"] == "finalize" and not eff):
                        if call and eff == call and delegated(prog, m["key"], {o["key"] for o in ops}):
                            continue
                        bad = "may succeed"
                    elif eff and not (call and eff == call and delegated(prog, m["key"], {o["key"] for o in ops})):
                        bad = "changes something (%s)" % eff
                if bad:
                    ctx.violation("%s: accepted while %s is %s" % (f["qn"], short(field), "set" if val else "unset"),
                                  "%s:%d (%s)" % (f["file"], f["line"], f["qn"]),
                                  "%s refuses when %s is %s, but %s %s then" %
                                  (prog.F[src]["qn"], short(field), "set" if val else "null or false", f["qn"], bad), [])
                elif not boolean and m["n"] == "flush":
                    flags.add(m["key"])
            end(ctx, prog, q, ms, field, val)
    return flags


def delegated(prog, key, ops):
    """an overload that only passes the request on to another operation of the class"""
    return any(c in ops for c in prog.callees(key))


def written(prog, key, field):
    """constants (or None) that a function stores in a field: {True, False, None}"""
    f = prog.F[key]
    out = set()

    def const(i):
        n = f["nodes"][i]
        while n and n["k"] in ("cast", "paren") and n.get("e") is not None:
            n = f["nodes"][n["e"]]
        if n and n["k"] in ("ctor", "list") and len(n.get("args") or ()) == 1:
            return const(n["args"][0])
        if n and n["k"] == "lit" and str(n.get("v")) in ("0", "1", "true", "false", "nullptr", "None", "NULL"):
            return str(n["v"]) in ("1", "true")
        if n and n["k"] == "lit" and n.get("lk") in ("null", "nullptr"):
            return False
        if n and n["k"] == "bin" and n.get("op") == "=":
            return const(n["b"])
        return None
    for n in f["nodes"]:
        if not n:
            continue
        if n["k"] == "bin" and n.get("op") == "=":
            l = f["nodes"][n["a"]]
            if l and l["k"] == "mem" and l.get("f") == field:
                out.add(const(n["b"]))
        elif n["k"] == "call" and short(n.get("cn")) == "operator=" and n["args"]:
            r = n.get("recv") if n.get("recv") is not None else n["args"][0]
            l = f["nodes"][r]
            if l and l["k"] == "mem" and l.get("f") == field:
                out.add(const(n["args"][-1]))
        elif n["k"] == "call" and short(n.get("cn")) == "reset" and n.get("recv") is not None:
            l = f["nodes"][n["recv"]]
            if l and l["k"] == "mem" and l.get("f") == field:
                out.add(False if not n["args"] else None)
    return out


def leaves(prog, q, field, val):
    """whether an operation of the class (not what makes its objects) takes the field out of the state again; None when
    nothing ever puts it there"""
    puts = False
    for k, f in prog.F.items():
        if f.get("cls") != q and not any(f.get("cls") == d for d in [q]):
            if f.get("cls") or not f.get("lambda"):
                continue
        w = written(prog, k, field)
        if not w:
            continue
        made = prog.is_static(k) or f.get("ctor") or f["name"].startswith("clone")
        if val in w:
            puts = True
        if f["name"] in ("commit_", "abort_"):
            if None in w:
                puts = True
            w = w - {None}
        if not made and (w - {val}):
            return True
    return False if puts else None


def end(ctx, prog, q, ms, field, val):
    """where one of commit and abort closes the object, commit does so on every way out"""
    by = {m["n"]: m["key"] for m in ms if m["n"] in ("commit_", "abort_")}
    if "commit_" not in by or not any({val, None} & written(prog, k, field) for k in by.values()):
        return
    rule = Closed(prog, field, val)
    ex = Exec(prog, rule)
    ex.start(by["commit_"])
    ctx.count("commits that must close")
    if rule.open:
        f = prog.F[by["commit_"]]
        ctx.violation("%s: leaves %s open" % (f["qn"], short(field)), "%s:%d (%s)" % (f["file"], f["line"], f["qn"]),
                      "the transaction is over, but on a way out %s does not say so" % short(field), [])


class Closed(Rule):
    max_depth = 3
    widen_at = 4
    max_entries = 2
    asserts = "assume"

    def __init__(self, prog, field, want):
        super().__init__(prog)
        self.field, self.want, self.open = field, want, False

    def inline(self, fr, node, key):
        return self.prog.is_helper(key)

    def on_exit(self, ex, fr, st, value):
        if fr.depth:
            return
        v = ex.read(st, ('f', THIS, self.field))
        t = ex.truth(st, v)
        if t is not self.want:
            self.open = True


class Opened(Rule):
    """which way a text stream was opened when its object is answered"""
    max_depth = 4
    widen_at = 4
    max_entries = 2
    max_states = 20000
    asserts = "assume"
    collapse = True

    def __init__(self, prog, ctx, flag):
        super().__init__(prog)
        self.ctx, self.flag = ctx, flag

    def keep_value(self, st, loc, v):
        return loc[0] == 'f' and loc[2] == self.flag or loc[0] == 'ret' and (v == NULL or v[0] == 'new')

    def inline(self, fr, node, key):
        return bool(self.prog.F[key].get("lambda")) or self.prog.is_helper(key) and len(self.prog.F[key]["nodes"]) < 200

    def on_call(self, ex, fr, st, node, targets, recv, args):
        cn = node.get("cn") or ""
        if short(cn) == "open" and recv is not None and recv[0] == 'addr' and "fstream" in cn:
            loc = recv[1]
            mode = "rw" if out_mode(fr.fn, node["args"]) else "r"
            if loc[0] == 'v' and "stream" in cn and (mode == "rw" or ('M', loc) in st.r):
                # a local stream on a file of the object: one that had to fall back to reading
                st.r[('M', loc)] = (mode, fr.where(node))
            if loc[0] == 'f' and "stream" in cn:
                st.r[('M', loc)] = (mode, fr.where(node))
                self.ctx.count("streams opened by factories")
        return None

    def on_adopt(self, st, old, new):
        def sub(v):
            if v == old:
                return new
            return tuple(sub(x) for x in v) if isinstance(v, tuple) else v
        for k in [k for k in st.r if k[0] == 'M' and sub(k[1]) != k[1]]:
            st.r[(k[0], sub(k[1]))] = st.r.pop(k)

    def on_exit(self, ex, fr, st, value):
        if fr.depth or value is None or ex.truth(st, value) is False:
            return
        for k in [k for k in st.r if k[0] == 'M']:
            if st.r[k][0] == "r":
                loc = k[1]
                obj = value[1] if value[0] == 'addr' else ('d', value)
                v = ex.read(st, ('f', loc[1] if loc[0] == 'f' else obj, self.flag))
                self.ctx.count("components answered with a stream for reading only")
                if ex.truth(st, v) is not True:
                    self.ctx.violation("%s: not marked read-only" % fr.fn["qn"], st.r[k][1],
                                       "answers an object whose stream was opened here for reading only, without setting %s" %
                                       short(self.flag), [])


def run(ctx):
    prog = ctx.prog()
    flags = states(ctx, prog)
    effect_free(ctx, prog, flags)
    # streams kept in a class that has a read-only state
    for q in sorted(prog.R):
        fl = [a for a in getattr(prog, "_c17", {}).get(q, ())]
        for field in fl:
            for m in prog.R[q]["methods"]:
                k = m["key"]
                if k in prog.F and (prog.is_static(k) or m["n"].startswith("clone")) and \
                        is_smart(bare(prog.F[k]["types"][prog.F[k]["ret"]])):
                    rule = Opened(prog, ctx, field)
                    ex = Exec(prog, rule)
                    ex.start(k)
                    ctx.explored(ex)
    ready(ctx, prog)
    ctx.floor("reading operations", 150)
    ctx.floor("functions that change stored files", 25)
    ctx.floor("closing states", 4)
    ctx.floor("operations followed in a closing state", 6)
    ctx.floor("classes that accept transactions", 8)


def ready(ctx, prog):
    for q in sorted(prog.R):
        m = [m for m in prog.R[q]["methods"] if m["n"] == "transaction_" and m["key"] in prog.F]
        if not m or not lib(prog.F[m[0]["key"]]) or not any(short(x) == "Committable" for x in prog.superclasses(q)):
            continue
        r = refusing(prog, ctx, m[0]["key"])
        if all(x[0] for x in r.exits):
            continue
        ctx.count("classes that accept transactions")
        own = [c for c in [q] + list(prog.superclasses(q)) if short(c) != "Committable" and
               any(x["n"] == "ready_" for x in prog.R[c]["methods"])]
        if not own:
            f = prog.F[m[0]["key"]]
            ctx.violation("%s: accepts transactions but cannot be made ready" % q,
                          "%s:%d (%s)" % (f["file"], f["line"], f["qn"]),
                          "%s accepts a transaction, but has no ready step of its own: asking it to be ready fails an assertion" % q, [])
