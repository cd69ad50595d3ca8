"""C24: files, directories, paths, child processes and media types of lib/os and lib/mime."""
import os
import vlib
import adt
from adt import op

NAMES = [b"a", b"b", b"c", b".h", b"...", b"a.b", b"x y", b"\xff\x01", b"L" * 255]


def path(r, deep=3):
    x = []
    for _ in range(r.choice([1, 1, 1, 2, 2, deep])):
        q = r.random()
        if q < 0.72:
            x.append(r.choice(NAMES[:3]))
        elif q < 0.8:
            x.append(r.choice(NAMES))
        else:
            x.append(r.choice([b".", b"..", b"..", b""]))
    s = b"/".join(x)
    if r.random() < 0.05:
        s += b"/"
    return b"." + s if s.startswith(b"/") else s


def content(r):
    n = r.choice([0, 0, 1, 2, 5, 30, 30, 300])
    return bytes(r.choice([0, 255, 26, 13, 10, 65, r.randrange(256)]) if r.random() < 0.4 else r.randrange(1, 256) for _ in range(n))


def fs_case(r, steps):
    ps = []
    for _ in range(r.choice([3, 6])):
        ps.append(r.choice([op("mkdir", list(r.choice(NAMES[:3]))), op("write", list(path(r)), list(content(r))), op("link", list(r.choice(NAMES[:3])), list(path(r)))]))
    for _ in range(steps):
        k = r.choice(["mkdir", "link", "write", "write", "write", "read", "read", "readstr", "size", "exists", "isdir", "unlink", "list", "list", "real", "real", "fds"])
        p = list(path(r))
        if k == "fds":
            ps.append(op("fds"))
        elif k == "write":
            ps.append(op("write", p, list(content(r))))
        elif k == "link":
            ps.append(op("link", p, list(path(r))))
        elif k == "mkdir":
            ps.append(op("mkdir", list(bytes(p).rstrip(b"/")) or [97]))
        elif k == "real":
            ps.append(op("real", p, r.choice([-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 300, 1000])))
        elif k == "list" and r.random() < 0.4:
            ps.append(op("list", list(b".")))
        else:
            ps.append(op(k, p))
    for d in [b".", b"a", b"b", b".."]:
        ps.append(op("list", list(d)))
    return ps + [op("fds")]


def w(r, n):
    return [r.choice([1, 255, 10, 32, 37, 61, 92, 34]) if r.random() < 0.3 else r.randrange(1, 256) for _ in range(n)]


def child(r, prog):
    """argv, environment, what to feed; whether its output may be read before it is waited for."""
    script, feed, reads = [], [], True
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        k = r.choice("ooeervvaa")
        if k in "oe":
            script.append([ord(k)] + w(r, r.choice([0, 1, 5, 40, 900])))
        elif k == "r":
            n = r.choice([1, 3, 20, 255])
            script.append([ord("r"), n])
            feed += [r.randrange(256) for _ in range(n)]
        else:
            script.append([ord(k)] + w(r, r.choice([0, 2])))
    e = r.random()
    if e < 0.35:
        script.append([ord("x"), 1 + r.choice([0, 1, 2, 7, 127, 128, 254])])
    elif e < 0.45:
        script.append([ord("k")])
    elif e < 0.75:
        big = any(len(x) > 100 for x in script)
        if r.random() < 0.5 and not big:
            script.append([ord("c")])
            script = [x for x in script if x[:1] != [ord("e")]]
            reads = "out"
        else:
            reads = False
            script = [x for x in script if x and x[0] in (ord("r"),) and len(x) == 2]
        script.append([ord("R")])
        feed += [r.randrange(256) for _ in range(r.choice([0, 1, 5, 130, 4000]))]
    if r.random() < 0.2:
        script.insert(0, [ord("s"), r.choice([1, 5, 20])])
    env = [list(b"K%d=" % i) + w(r, r.choice([0, 1, 9])) for i in range(r.choice([0, 0, 1, 2, 12]))]
    return [list(prog)] + script, env, feed, reads


def proc_case(r, prog):
    ps, live = [], {}
    for _ in range(r.choice([1, 2, 4, 8])):
        q = r.random()
        if q < 0.55 or not live:
            free = [i for i in range(4) if i not in live]
            if not free:
                continue
            s = r.choice(free)
            if r.random() < 0.08:
                argv, env, feed, reads = [list(b"/nonexistent/prog!"), [97]], [], [], True
            else:
                argv, env, feed, reads = child(r, prog)
            ps.append(op("spawn", s, len(argv), *(argv + env)))
            if feed:
                cut = r.randrange(len(feed) + 1)
                ps += [op("feed", s, f) for f in (feed[:cut], feed[cut:]) if f]
            live[s] = reads
            if r.random() < 0.3:
                ps.append(op("fds"))
            continue
        ps += finish(r, live, r.choice(sorted(live)))
    while live:
        ps += finish(r, live, r.choice(sorted(live)))
    if r.random() < 0.15:
        ps.append(op("jobs", r.choice([0, 1, 2, 7, 8, 9, 10, 17])))
    return ps + [op("fds")]


def finish(r, live, s):
    ps = []
    reads = live.pop(s)
    if reads == "out":
        ps = [op("out", s)]
    elif reads:
        ps = [op("out", s), op("err", s)] if r.random() < 0.7 else [op("err", s), op("out", s)]
    return ps + [op("wait", s)]


def static_cases(r, n):
    types = [bytes(x) for x in TYPES]
    ps = [op("mime", list(e)) for e in types]
    ps += [op("mime", list(x)) for x in [b"", b"123", b"TXT", b"Html", b"htmlx", b"ht", b"text/plain", b".txt", b"txt ", b"\xff", b"jpgg", b"g", b"z", b"doc "]]
    for _ in range(n):
        x = bytes(r.choice(b"a./.b/..\xff" if r.random() < 0.8 else bytes(range(1, 256))) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 12])))
        ps += [op("base", list(x)), op("ext", list(x)), op("dir", list(x), r.choice([0, 1, max(0, len(x) - 1), len(x), len(x) + 1, len(x) + 5, 200]))]
    return ps


TYPES = []


def check(c):
    r = c.rng
    t = vlib.tlc("OsLibMC", spec="Spec", consts={"Depth": c.n(3, 5)}, inv=["Rooted", "WriteRead", "UnlinkGone", "ListSees", "RealIsReal"], workers=vlib.NPROC, timeout=800, mem="8g")
    c.model(t, "OsLibMC: trees built in %d operations over 4 paths" % c.n(3, 5))
    t = vlib.tlc("OsJobsMC", spec="Spec", consts={"Jobs": c.n(5, 7), "Width": 3}, inv=["Width3", "Once", "AllDone"], props=["Ends"], workers=vlib.NPROC, timeout=800)
    c.model(t, "OsJobsMC: every order in which %d jobs end, 3 at a time" % c.n(5, 7))
    import re
    TYPES[:] = [e.encode() for e in re.findall(r"^    \\\* (\w+) ", open(os.path.join(vlib.SPEC, "OsTypes.tla")).read(), re.M)]
    d = vlib.tmpdir("child")
    prog = os.path.join(d, "child").encode()
    x = vlib.run(["gcc", "-O1", "-o", prog.decode(), os.path.join(vlib.DRIVERS, "native", "child.c")])
    if x.rc != 0:
        raise vlib.ToolError("the child program failed to build: %r" % x)
    cases = [("f", fs_case(r, r.choice([5, 15, 30]))) for _ in range(c.n(150, 8000))]
    chain = [op("write", list(b"end"), [1, 2])] + [op("link", list(b"l%d" % i), list(b"l%d" % (i - 1) if i else b"end")) for i in range(42)]
    cases.append(("f", chain + [op(k, list(b"l%d" % i)) for i in (0, 38, 39, 40, 41) for k in ("read", "exists", "size")] + [op("real", list(b"l39"), 10), op("list", list(b"."))]))
    cases.append(("f", [op("link", list(b"a"), list(b"a")), op("link", list(b"b"), list(b"c/../b")), op("exists", list(b"a")), op("read", list(b"b")), op("write", list(b"a"), [1]), op("unlink", list(b"a")), op("write", list(b"a"), [1]),
                        op("write", [76] * 256, [1]), op("write", [76] * 255, list(range(256))), op("read", [76] * 255), op("list", list(b"."))]))
    big = [r.randrange(256) for _ in range(70000)]
    cases.append(("f", [op("write", list(b"big"), big), op("size", list(b"big")), op("read", list(b"big")), op("write", list(b"big"), [7]), op("read", list(b"big")), op("size", list(b"big"))]))
    many = [b"n%d" % i for i in range(150)]
    cases.append(("f", [op("write", list(n), []) for n in many] + [op("list", list(b"."))] + [op("unlink", list(n)) for n in many[::2]] + [op("list", list(b"."))]))
    procs = [("p", proc_case(r, prog)) for _ in range(c.n(120, 4000))]
    # two children that read to the end of their input; one that closes its output and lives on
    for order in ([0, 1], [1, 0]):
        procs.append(("p", [op("spawn", s, 2, list(prog), [82]) for s in (0, 1)] + [op("feed", 1, [1, 2, 3])] + [op("wait", s) for s in order] + [op("fds")]))
    procs.append(("p", [op("spawn", 0, 4, list(prog), [111, 104, 105], [99], [82]), op("out", 0), op("feed", 0, [1]), op("wait", 0)]))
    procs.append(("p", [op("spawn", 0, 3, list(prog), [98, 70], [97]), op("out", 0), op("err", 0), op("wait", 0), op("fds")]))
    procs.append(("p", [op("jobs", 20), op("jobs", 0), op("jobs", 8), op("fds")]))
    for n in (0, 1, 7, 8, 9, 16, 30):
        procs.append(("p", [op("jobs", n)]))
    st = static_cases(r, c.n(300, 20000))
    stat = [("s", st[i:i + 50]) for i in range(0, len(st), 50)]
    ev = adt.evaluate(c, "OsLibEval", cases + procs + stat)
    # steps that leave the tree or read directories as files are not judged and not run
    out, dropped = [], 0
    for k, ps, o in ev:
        if k == "f":
            keep = [i for i in range(len(ps)) if not any("any" in y for y in o[i])]
            dropped += len(ps) - len(keep)
            ps, o = [ps[i] for i in keep], [o[i] for i in keep]
        out.append((k, ps, o))
    c.cov["not_judged"] = dropped
    fs = [q for q in out if q[0] != "p"]
    pr = [q for q in out if q[0] == "p"]
    adt.replay(c, "oslib", fs, batch=25)
    adt.replay(c, "oslib", pr, batch=5, timeout=30)
    c.cov["bounds"] = "%d trees, %d process histories with at most 4 children, %d path texts" % (len(cases), len(procs), c.n(300, 20000))
    c.assumptions += ["runs as root, so that no permission refuses an access", "reading a directory as a file is not judged"]
