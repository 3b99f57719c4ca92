"""Vocabulary shared by the rules."""
from .engine import NULL, TRUE, Rule, Exec, State, is_ptr_type, is_smart, is_string

# C and C++ library functions that change something outside the process image
PERSISTENT = {"link", "symlink", "rename", "remove", "unlink", "truncate", "ftruncate", "open", "creat",
              "close", "write", "pwrite", "fwrite", "fopen", "fclose", "fflush", "fsync", "mkdir", "rmdir",
              "mkstemp", "system", "popen", "pclose", "chmod", "fchmod", "fork", "kill", "dup2",
              "socket", "bind", "listen", "accept", "connect", "send", "recv", "shutdown", "unlinkat", "linkat",
              "renameat"}
MUTATORS = {"push_back", "emplace_back", "pop_back", "push_front", "insert", "emplace", "erase", "clear",
            "resize", "assign", "append", "swap", "reset", "write", "read", "open", "close", "flush", "seekp",
            "seekg", "store", "exchange", "fetch_add", "fetch_sub", "operator=", "operator+=", "operator-=",
            "operator++", "operator--", "operator<<", "operator>>", "lock", "unlock", "try_lock", "join", "detach",
            "notify_all", "notify_one", "push", "pop", "try_emplace", "insert_or_assign", "sort", "getline", "put"}


def short(cn):
    return (cn or "").rsplit("::", 1)[-1]


def persistent(cn):
    cn = cn or ""
    if cn.startswith("std::filesystem::"):
        return True
    if cn.startswith("std::"):
        cn = cn[5:]
    return cn in PERSISTENT


def effects(prog):
    """Functions with an effect beyond their own locals: a field or global
    write, a mutating library call on a field, or a persistent action."""
    if hasattr(prog, "_effects"):
        return prog._effects

    def direct(f):
        for n in f["nodes"]:
            if not n:
                continue
            if n["k"] == "mem" and n.get("acc") in ("W", "RW"):
                return True
            if n["k"] == "ref" and n.get("dk") in ("global", "slocal") and n.get("acc") in ("W", "RW"):
                return True
            if n["k"] == "call":
                if persistent(n.get("cn")):
                    return True
                if (n.get("cn") or "").startswith("std::") and short(n["cn"]) in MUTATORS and n.get("recv") is not None:
                    r = f["nodes"][n["recv"]]
                    if r and r["k"] == "mem":
                        return True
        return False
    prog._effects = prog.closure_pred(direct)
    return prog._effects


def error_param(fn):
    """Index of the error-message out-parameter, or None."""
    ty = fn["types"]
    best = None
    for i, p in enumerate(fn["params"]):
        t = ty[p["t"]].replace("const", "").strip()
        if t.endswith("*") and is_string(t[:-1].strip()) and p["m"] == "R":
            if p["n"] == "error" or p["n"].startswith("err"):
                return i
            best = i if best is None else best
    return None


def callname(n):
    return n.get("cn") or ""


def desc(v):
    """Readable form of a symbolic value or location."""
    if v is None:
        return "?"
    k = v[0]
    if k == 'c':
        return str(v[1])
    if k == 'str':
        return '"%s"' % v[1]
    if k == 'f':
        b = v[1]
        return desc(b) + "." + short(v[2]) if b[0] != 'd' or b[1][0] != 'this' else short(v[2])
    if k == 'v':
        return str(v[2]).split("@")[0]
    if k == 'g':
        return str(v[1])
    if k == 'd':
        return "*" + desc(v[1])
    if k == 'i':
        return desc(v[1])
    if k == 'addr':
        return "&" + desc(v[1])
    if k == 'e':
        return desc(v[1]) + "[]"
    if k == 'this':
        return "this"
    if k == 'op':
        return "%s(%s)" % (v[1], ", ".join(desc(x) for x in v[2:] if isinstance(x, tuple)))
    if k == 'not':
        return "!" + desc(v[1])
    if k == 'new':
        return "new object"
    return "value"
