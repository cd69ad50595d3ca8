"""C03: modules expose exactly what they mark public, under their own names only."""
import re
import vlib
import modlib as ml

NAMES = ["n", "get", "free", "open", "size", "t", "item_t", "MAX", "read", "index_of", "val", "N", "Get", "ge", "gett", "vals"]
MAINS = ["main", "main", "my-prog", "v1.test", "7up", "a+b", "\u043f\u0440"]
KIND = {"fn": "fn", "const": "const", "struct": "type", "alias": "type", "var": "var", "macro": "macro"}


def gen(r, nmods):
    mods = []
    for i in range(nmods):
        later = list(range(i + 2, nmods + 1))
        imps = [j for j in later if r.random() < 0.5]
        if i == 0 and not imps and later:
            imps = [later[0]]
        r.shuffle(imps)
        items = []
        names = r.sample(NAMES, r.randrange(2, 6))
        for n in names:
            k = r.choice(["fn", "fn", "const", "struct", "alias", "var", "macro", "macro"])
            pub = k not in ("var", "macro") and r.random() < 0.6
            if not pub and n in ("free", "open", "read"):
                n = "my_" + n if "my_" + n not in names else n + "_x"
            items.append({"n": n, "k": k, "pub": pub, "v": r.randrange(2, 250)})
        mods.append({"imports": imps, "items": items, "refs": []})
    for i, m in enumerate(mods):
        for _ in range(r.randrange(3, 9)):
            pool = [(0, it) for it in m["items"]] + [(j, it) for j in m["imports"] for it in mods[j - 1]["items"] if it["pub"]]
            if pool:
                ns, it = r.choice(pool)
                m["refs"].append({"ns": ns, "n": it["n"], "k": KIND[it["k"]]})
    return mods


def deep(r, n):
    """A chain of modules that all have the same file name, in different directories."""
    p = gen(r, n)
    for i, m in enumerate(p):
        m["imports"] = [i + 2] if i + 1 < n else []
        have = {it["n"] for it in m["items"]}
        for nm in ("get", "val"):
            if nm not in have:
                m["items"].append({"n": nm, "k": "fn", "pub": nm == "get", "v": r.randrange(2, 250)})
        pool = [(0, it) for it in m["items"]] + [(j, it) for j in m["imports"] for it in p[j - 1]["items"] if it["pub"]]
        m["refs"] = [{"ns": ns, "n": it["n"], "k": KIND[it["k"]]} for ns, it in r.sample(pool, min(len(pool), 5))]
    return p


def mutate(r, p):
    """Adds one reference that should not resolve (usually): the specification decides."""
    n = len(p)
    i = 0
    for _ in range(20):
        i = r.randrange(n)
        j = r.randrange(n)
        if p[j]["items"]:
            break
    tgt = p[j]["items"]
    it = r.choice(tgt) if tgt else {"n": "n", "k": "fn"}
    kind = KIND[it["k"]] if r.random() < 0.8 else r.choice(["fn", "const", "type"])
    ns = r.choice([j + 1, j + 1, 0])
    if ns == i + 1:
        ns = 0
    n = it["n"] if r.random() < 0.85 else "nosuch"
    if ns == 0 and n in ("free", "open", "read"):
        n = "nosuch"    # unqualified, these are the C library's
    p[i]["refs"].append({"ns": ns, "n": n, "k": kind})


def exports_parse(text):
    cur, d = None, {"constants": [], "types": [], "functions": []}
    for line in text.splitlines():
        if line in d:
            cur = line
        elif line.startswith("\t") and cur:
            s = line.strip()
            if cur == "functions":
                m = re.search(r"(\w+) \(", s)
                s = m.group(1) if m else s
            d[cur].append(s)
    return d


def check(c):
    r = vlib.tlc("CheModulesMC", spec="Spec", consts={"Emit": "TRUE"},
                 inv=["Unambiguous", "Encapsulated", "NoLeak", "NonInterference", "NotTransitive", "EmitCase"])
    c.model(r, "visibility, one name in three modules, exhaustive")
    cases = []
    for k, x in enumerate(vlib.tlc_lines(r, "CASE")):
        p = x["prog"]
        p = [dict(m, refs=[]) for m in p]
        p[0]["refs"] = [x["ref"]]
        # main reads its own and the imported definitions too, so that the context is alive
        cases.append({"id": "e%d" % k, "prog": p})
    seen, uniq = set(), []
    for x in cases:
        key = vlib.json.dumps(x["prog"], sort_keys=True)
        if key not in seen:
            seen.add(key)
            uniq.append(x)
    c.rng.shuffle(uniq)
    uniq = uniq[:c.n(1200, len(uniq))]
    rnd = []
    for k in range(c.n(240, 2500)):
        p = gen(c.rng, c.rng.randrange(2, 7))
        if k % 2:
            mutate(c.rng, p)
        rnd.append({"id": "r%d" % k, "prog": p})
    for k in range(c.n(12, 60)):
        p = deep(c.rng, c.rng.choice([3, 11, 12, 13, 25]))
        rnd.append({"id": "d%d" % k, "prog": p})
    cases = uniq + rnd
    rs = vlib.tlc("CheModulesEval", spec="Spec", inv=["EmitRes"], files={"cases.ndjson": vlib.ndjson(cases)})
    c.model(rs, "evaluation of %d programs" % len(cases))
    res = {x["id"]: x for x in vlib.tlc_lines(rs, "RES")}
    assert len(res) == len(cases)
    cases = [x for x in cases if not res[x["id"]]["misused"]]
    stop = []

    def one(case):
        if len(stop) >= 3:
            return None
        p, want = case["prog"], res[case["id"]]
        names = ml.MODN[:len(p)]
        if case["id"][0] == "r":
            # the main file can be called anything
            names = [MAINS[ml.h(case["id"]) % len(MAINS)]] + names[1:]
        if case["id"][0] == "d":
            names = ["main"] + ["d%d/m" % i for i in range(1, len(p))]
            files = ml.render(p, names, [["d1/m.c"]] + [["../d%d/m.c" % (i + 1)] for i in range(1, len(p) - 1)] + [[]], salt=case["id"])
        else:
            files = ml.render(p, names, [[names[j - 1] + ".c" for j in m["imports"]] for m in p], salt=case["id"])
        exp = [n + ".c" for n in names[1:2]] if case["id"][0] == "r" and want["ok"] and 2 in want["reach"] else None
        acc, lines, info = ml.run_prog(files, main=names[0] + ".c", want_exports=exp)
        why = None
        if acc != want["ok"]:
            why = "program %s but it was %s" % ("is valid" if want["ok"] else "refers to something not visible", "accepted" if acc else "rejected (%s)" % info["err"][-400:])
        elif acc:
            got = {}
            for line in lines:
                w = line.split()
                if w and w[0] == "r":
                    got.setdefault((int(w[1]), int(w[2])), set()).add(int(w[3]))
            for i in want["reach"]:
                for k, v in enumerate(want["view"][i - 1]):
                    if got.get((i, k + 1)) != {v}:
                        why = "module %s sees %s for reference %s, expected %d" % (names[i - 1], got.get((i, k + 1)), p[i - 1]["refs"][k], v)
            for path, (rc, text) in (info.get("exports") or {}).items():
                i = names.index(path[:-2])
                d = exports_parse(text)
                e = want["exports"][i]
                salt = case["id"]
                consts = []
                for it in p[i]["items"]:
                    if it["k"] == "const" and it["pub"]:
                        consts += ml.before(i + 1, it["n"], salt, it["v"])
                        consts.append(it["n"])
                fns = [f for f in d["functions"] if not f.endswith("__")]
                if rc != 0 or sorted(fns) != sorted(e["fns"]) or sorted(d["types"]) != sorted(e["types"]) or sorted(d["constants"]) != sorted(consts):
                    why = "exports of %s listed as %s, expected %s" % (path, d, e)
        if why:
            stop.append(1)
            return case, why, files
        return None

    bad = [x for x in vlib.pmap(one, cases) if x]
    c.cov["cases"] += len(cases)
    c.traces(len(cases))
    c.cov["accepted"] = sum(1 for x in cases if res[x["id"]]["ok"])
    for x in rnd[:2]:
        c.sample({"program": x["prog"], "expected_view": res[x["id"]]["view"], "ok": res[x["id"]]["ok"]})
    for case, why, files in bad:
        c.violation(why, {"files": files, "case": case}, key=None)
