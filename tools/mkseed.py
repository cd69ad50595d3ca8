#!/usr/bin/env python3
"""mkseed.py ID  < spec (python literal dict): edits=[(file,old,new)], property, needs, breaks, demo (text), files={}.
Makes seeded/ID, then confirms it in /repo: builds, stable tests pass, demo 0 clean / nonzero patched."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid = sys.argv[1]
import re as _re
exec(open(V + "/tools/demolib.py").read())
spec = eval(sys.stdin.read())
d = V + "/seeded/" + sid
def sh(*a, **k): return subprocess.run(a, **k)
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--short"]).strip(), "repo dirty"
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
for f, t in spec.get("files", {}).items(): open(d + "/" + f, "w").write(t)
open(d + "/demo.sh", "w").write(spec["demo"]); os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
ok = True
def demo():
    r = sh("bash", d + "/demo.sh", cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return r.returncode, r.stdout.decode("utf8", "replace")[-800:]
sh("bash", "/opt/vp/build.sh", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
rc, o = demo()
if rc: print("demo fails on clean tree:", rc, o); ok = False
try:
    for f, old, new in spec["edits"]:
        s = open("/repo/" + f).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open("/repo/" + f, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", "/repo", "diff"]))
    b = sh("bash", "/opt/vp/build.sh", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if b.returncode: print("BUILD FAILS", b.stdout.decode()[-1500:]); ok = False
    else:
        rc, o = demo()
        if not rc: print("demo passes on patched tree", o); ok = False
        else: print("demo patched:", rc, o[-400:])
        sh("bash", "/opt/vp/test.sh", "/tmp/seedout.json", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        o = json.load(open("/tmp/seedout.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad = [x for x in st if x not in o["passed"]]
        if bad: print("tests broken:", bad); ok = False
        if "--check" in sys.argv:
            r = sh("./check", spec["property"], "--quick", cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = r.stdout.decode("utf8", "replace")
            print("CHECK rc=%d %s" % (r.returncode, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + spec["property"] in out else "MISSED"), out[:700])
finally:
    sh("git", "-C", "/repo", "checkout", "-q", "--", ".")
    sh("bash", "/opt/vp/build.sh", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
print(sid, "OK" if ok else "NOT OK")
