"""C04: import graphs: loops rejected, every loop-free graph builds, one instance per file."""
import os
import vlib
import modlib as ml


def layout(r, n, flat=False):
    """names[i]: file path without .c; dirs: which of them live in lib/."""
    names, lib = ["main"], [False]
    used = set(["main"])
    dirs = ["", "sub/", "sub/deep/", "other/"]
    for i in range(1, n):
        while True:
            islib = not flat and r.random() < 0.3
            base = r.choice(ml.MODN[1:]) if not flat else ml.MODN[i]
            d = "" if flat else (r.choice(["", "p/", "p/q/"]) if islib else r.choice(dirs))
            key = ("L:" if islib else "") + d + base
            if key not in used:
                used.add(key)
                names.append(d + base)
                lib.append(islib)
                break
    return names, lib


def import_text(r, i, j, names, lib):
    if lib[j]:
        if lib[i] and r.random() < 0.5:
            return os.path.relpath(names[j] + ".c", os.path.dirname(names[i]) or ".")
        return names[j]
    base = os.path.dirname(names[i]) or "."
    t = os.path.relpath(names[j] + ".c", base)
    if r.random() < 0.2:
        t = "./" + t
    return t


def rnd_graph(r, n, loops):
    m = []
    for i in range(n):
        later = list(range(i + 2, n + 1))
        imps = [j for j in later if r.random() < (0.45 if n < 7 else 0.3)]
        if i == 0 and not imps and later:
            imps = [2]
        r.shuffle(imps)
        m.append({"imports": imps, "items": [], "refs": []})
    if loops:
        i = r.randrange(1, n)
        j = r.randrange(1, i + 2)
        if j not in m[i]["imports"]:
            m[i]["imports"].insert(r.randrange(len(m[i]["imports"]) + 1), j)
    return m


def npaths(p, i=0, memo=None, depth=0):
    if memo is None:
        memo = {}
    if depth > 20:
        return 10 ** 9
    if i not in memo:
        memo[i] = 1 + sum(npaths(p, j - 1, memo, depth + 1) for j in p[i]["imports"])
    return memo[i]


def collide(p, names):
    for m in p:
        b = [names[j - 1].split("/")[-1] for j in m["imports"]]
        if len(set(b)) != len(b):
            return True
    return False


def check(c):
    r3 = vlib.tlc("CheImportsMC", spec="Spec", consts={"N": 3, "Emit": "TRUE"},
                  inv=["LoopFreeIffOrdered", "TreeOrderDepsFirst", "FanCounts", "EmitCase"])
    c.model(r3, "all import graphs over 3 modules")
    if c.thorough:
        r4 = vlib.tlc("CheImportsMC", spec="Spec", consts={"N": 4, "Emit": "FALSE"},
                      inv=["LoopFreeIffOrdered", "TreeOrderDepsFirst", "FanCounts"], timeout=3000)
        c.model(r4, "all import graphs over 4 modules")
    cases = []
    r = c.rng
    en = vlib.tlc_lines(r3, "CASE")
    r.shuffle(en)
    for k, p in enumerate(en[:c.n(500, len(en))]):
        cases.append({"id": "e%d" % k, "prog": p})
    k = 0
    while k < c.n(150, 1500):
        p = rnd_graph(r, r.randrange(3, 10), k % 3 == 0)
        if k % 3 and npaths(p) > 400:
            continue
        k += 1
        cases.append({"id": "r%d" % k, "prog": p})
    # rings of any length, with and without the closing import; a module with many imports
    for d in range(2, 15):
        for back in (None, 1, r.randrange(1, d + 1)):
            p = [{"imports": [i + 2] if i + 1 < d else [], "items": [], "refs": []} for i in range(d)]
            if back:
                p[-1]["imports"] = [back]
            for _ in range(2):
                i = r.randrange(d)
                j = r.randrange(1, d + 1)
                if j > i + 1 and j not in p[i]["imports"]:
                    p[i]["imports"].insert(r.randrange(2), j)
            if not back and npaths(p) > 400:
                continue
            cases.append({"id": "l_ring%d_%s" % (d, back), "prog": p})
    for w in (9, 14, 25):
        for at in (0, 1):
            p = [{"imports": [2], "items": [], "refs": []}] if at else []
            p.append({"imports": list(range(at + 2, at + 2 + w)), "items": [], "refs": []})
            r.shuffle(p[at]["imports"])
            p += [{"imports": [], "items": [], "refs": []} for _ in range(w)]
            cases.append({"id": "l_wide%d_%d" % (w, at), "prog": p})
    # ladders: many paths, few modules
    for d in range(4, c.n(9, 11)):
        p = [{"imports": [2], "items": [], "refs": []}]
        for l in range(d):
            if l + 1 < d:
                p.append({"imports": [l + 3], "items": [], "refs": []})
            else:
                p.append({"imports": [], "items": [], "refs": []})
        for l in range(0, d - 1):
            p[l]["imports"] = [l + 2, l + 3] if l + 3 <= len(p) else [l + 2]
        cases.append({"id": "l%d" % d, "prog": p})
    rs = vlib.tlc("CheModulesEval", spec="Spec", inv=["EmitRes"], files={"cases.ndjson": vlib.ndjson(cases)})
    c.model(rs, "evaluation of %d graphs" % len(cases))
    res = {x["id"]: x for x in vlib.tlc_lines(rs, "RES")}
    stop = []

    def one(case):
        if len(stop) >= 3:
            return None
        p, want = case["prog"], res[case["id"]]
        rr = vlib.random.Random("%s/%s" % (case["id"], c.seed))
        n = len(p)
        while True:
            names, lib = layout(rr, n, flat=case["id"][0] == "l")
            # a lib module cannot import project modules; names within one importer must differ
            bad = False
            for i, m in enumerate(p):
                for j in m["imports"]:
                    if lib[i] and not lib[j - 1]:
                        lib[i] = False
                        bad = True
            if bad or collide(p, names):
                continue
            if len(set((l, x) for l, x in zip(lib, names))) < n:
                continue
            break
        imports = [[import_text(rr, i, j - 1, names, lib) for j in m["imports"]] for i, m in enumerate(p)]
        allf = ml.render(p, [("L!/" if lib[i] else "") + names[i] for i in range(n)], imports, salt=case["id"])
        files = {k: v for k, v in allf.items() if not k.startswith("L!/")}
        libf = {k[3:]: v for k, v in allf.items() if k.startswith("L!/")}
        miss = None
        if not want["loop"] and rr.random() < 0.15 and len(want["reach"]) > 1:
            # remove one reachable file: the program must be rejected
            miss = rr.choice([i for i in want["reach"] if i != 1])
            (libf if lib[miss - 1] else files).pop(names[miss - 1] + ".c")
        acc, lines, info = ml.run_prog(files, libfiles=libf, deptree=True)
        why = None
        ok = not want["loop"] and miss is None
        if acc != ok:
            why = "import graph %s but it was %s" % (
                "is loop-free" if ok else ("has a loop" if want["loop"] else "misses a file"),
                "accepted" if acc else "rejected (%s)" % info["err"][-500:])
        elif not acc and (info["rc"] != 1 or info["timeout"]):
            why = "the build neither succeeded nor refused the program: status %s (%s)" % (info["rc"], info["err"][-300:])
        elif (info["deptree"][0] == 0) != ok:
            why = "deptree exit status %d, valid=%s" % (info["deptree"][0], ok)
        elif acc:
            got = [tuple(map(int, x.split()[1:])) for x in lines if x.startswith("f ")]
            exp = [tuple(x) for x in want["fan"]]
            if got != exp:
                why = "module state diverges: calls %s, expected %s" % (got[:40], exp[:40])
            t = []
            for line in info["deptree"][1].splitlines():
                body = line.lstrip(" ")
                ind = len(line) - len(body)
                if body.startswith("- "):
                    body = body[2:]
                path = body.strip()
                isl = "/lib/" in path and path.startswith("/")
                rel = path.split("/lib/", 1)[1] if isl else os.path.normpath(path)
                hit = [i + 1 for i in range(n) if lib[i] == isl and names[i] + ".c" == os.path.normpath(rel)]
                t.append((ind // 2, hit[0] if hit else None))
            if t != [tuple(x) for x in want["tree"]]:
                why = "dependency tree printed as %s, expected %s" % (t[:30], want["tree"][:30])
        if why:
            stop.append(1)
            return case, why, {"files": files, "lib": libf}
        return None

    bad = [x for x in vlib.pmap(one, cases) if x]
    c.cov["cases"] += len(cases)
    c.traces(len(cases))
    c.cov["with_loop"] = sum(1 for x in cases if res[x["id"]]["loop"])
    for x in cases[-3:-1]:
        c.sample({"imports": [m["imports"] for m in x["prog"]], "fan": res[x["id"]]["fan"][:20], "loop": res[x["id"]]["loop"]})
    for case, why, files in bad:
        c.violation(why, {"files": files, "case": case})
