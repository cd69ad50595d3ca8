#!/usr/bin/env python3
"""mutrun.py LIST.py [ids...]: applies each mutation (id, property, file, old, new) to a scratch copy
of the repository and runs the property's quick check against it."""
import sys, os, subprocess, shutil, concurrent.futures as cf, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUT_SRC", "/tmp/rw")
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = set(sys.argv[2:])
ms = [m for m in ns["M"] if not want or m[0] in want or m[1] in want]
lock = threading.Lock()
def one(m):
    sid, prop, edits = m[0], m[1], m[2]
    d = "/tmp/mut-" + sid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a"] + [SRC + "/" + f for f in os.listdir(SRC) if f not in (".git", "target")] + [d], check=True)
    try:
        for f, old, new in edits:
            s = open(d + "/" + f).read()
            if s.count(old) != 1:
                return sid, prop, "BADEDIT %d %r" % (s.count(old), old[:60])
            open(d + "/" + f, "w").write(s.replace(old, new))
        e = dict(os.environ, VERIF_REPO=d)
        r = subprocess.run([V + "/check", prop, "--quick"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode("utf8", "replace")
        v = {0: "MISSED", 1: "caught", 2: "TOOLERR"}.get(r.returncode, "rc%d" % r.returncode)
        info = [l for l in out.splitlines() if l.startswith("  ")][:1] if r.returncode == 1 else out.splitlines()[-12:]
        return sid, prop, v + " " + " | ".join(info)[:(240 if r.returncode == 1 else 900)]
    finally:
        shutil.rmtree(d, ignore_errors=True)
with cf.ThreadPoolExecutor(int(os.environ.get("MUT_J", "3"))) as ex:
    for f in cf.as_completed([ex.submit(one, m) for m in ms]):
        print(*f.result()); sys.stdout.flush()
