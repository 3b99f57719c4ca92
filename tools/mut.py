"""Developer tool: applies small textual mutants to scratch copies of the sources and runs a check on each.
usage: mut.py ID [name...]   mutants are in tools/mutants/ID.txt:
  ## name [quiet]           (quiet: the edit keeps the behaviour, the check must not alarm)
  @@ file
  <<<<
  old
  ====
  new
  >>>>"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ID = sys.argv[1]
only = sys.argv[2:]
CACHE = "/tmp/tucache"
os.makedirs(CACHE, exist_ok=True)
old = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE)), key=os.path.getatime)
for f in old[:-1500]:
    os.remove(f)


def one(m):
    head, body = m.split("\n", 1)
    name, *opt = head.split()
    out = []
    with tempfile.TemporaryDirectory(prefix="mutrepo") as W:
        for d in ("src", "gcl", "meadowlark", "apps"):
            shutil.copytree(os.environ.get("CV_REPO", "/repo") + "/" + d, W + "/" + d)
        for fm in re.finditer(r"^@@ (\S+)\n((?:<<<<\n.*?\n>>>>\n?)+)", body, flags=re.M | re.S):
            f = W + "/" + fm.group(1)
            s = open(f).read()
            for e in re.finditer(r"<<<<\n(.*?)\n?====\n(.*?)\n?>>>>", fm.group(2), flags=re.S):
                if s.count(e.group(1)) < 1:
                    return True, "%s: NOT APPLICABLE in %s: %s" % (name, fm.group(1), e.group(1)[:60])
                s = s.replace(e.group(1), e.group(2), 1)
            open(f, "w").write(s)
        env = dict(os.environ, CV_REPO=W, CV_TUCACHE=CACHE, CV_BUILD=W + "/cvbuild", CV_JOBS="4")
        r = subprocess.run(["python3", "-B", "-m", "cv", ID], cwd=V, env=env, capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if l.startswith(ID + ": ") and "[" in l]
        want = 0 if "quiet" in opt else 1
        res = "ok" if r.returncode == want else "*** %s" % ("MISSED" if want else "FALSE ALARM") if r.returncode in (0, 1) else "*** ERROR"
        out.append("%-28s %s" % (name, res))
        for l in lines[:1] if res == "ok" else lines[:6]:
            out.append("      " + l[:130 if res == "ok" else 230])
        if r.returncode not in (0, 1):
            out.append(r.stdout[-600:] + r.stderr[-1500:])
        return res != "ok", "\n".join(out)


text = open(V + "/tools/mutants/%s.txt" % ID).read()
todo = [m for m in re.split(r"^## ", text, flags=re.M)[1:] if not only or m.split("\n", 1)[0].split()[0] in only]
with ThreadPoolExecutor(4) as ex:
    bad = 0
    for b, s in ex.map(one, todo):
        bad += b
        print(s, flush=True)
print("%d unexpected" % bad)
