"""C11: the containers of lib/clip behave as their abstract data types, for every history."""
import json
import vlib
from vlib import hx

KINDS = ["map", "map2", "st", "vec", "buf", "list"]


def line(c, p, last):
    """The driver command of an operation. last: value length to show for map2.get."""
    op = p["op"]
    w = [c, op, "0"]
    if op in ("set", "sets"):
        w += [hx(p["k"]), hx(p["v"])]
    elif op in ("get", "gets", "has", "hass") and "k" in p:
        w += [hx(p["k"])]
        if c == "map2":
            w += [str(last)]
    elif op == "push":
        w += [hx(p["v"])]
    elif op == "write":
        w += [hx(p["v"])]
    elif op == "put":
        w += [str(p["i"]), hx(p["v"])]
    elif op in ("get", "append", "remove"):
        w += [str(p["i"])]
    elif op in ("read", "iter"):
        w += [str(p["n"])]
    return " ".join(w)


def show(p, o):
    """What the driver prints for the specified outputs."""
    if p["op"] == "iter":
        return sorted((len(e["e"]), hx(e["e"]), hx(e["v"])) for e in o)
    r = []
    for x in o:
        r.append(str(x["n"]) if "n" in x else hx(x["b"]) if "b" in x else "NULL")
    return " ".join(r)


def parse(p, text):
    if p["op"] == "iter":
        w = text.split()
        if not w or w[-1] != "0" or len(w) % 3 != 1:
            return text
        return sorted((int(w[i]), w[i + 1], w[i + 2]) for i in range(0, len(w) - 1, 3))
    return text.strip()


def gen(r, c, n):
    """A random history of about n operations."""
    ps = []
    if c in ("map", "map2", "st"):
        sz = r.randint(1, 8)
        lo = 1 if c == "st" else 0
        pool = [[], [lo], [lo, lo], [97], [97, 98], [98, 97], [255], [97, lo], [lo, 97], [97, 98, 99], [1, 32], [2, 1], [1, 1, 63], [1, 2, 32]]
        base = r.choice([0, 97, 200])
        while len(pool) < r.choice([8, 20, 40, 90]):
            k = [max(lo, (base + r.choice([0, 1, 2, 31, 32])) % 256) for _ in range(r.choice([1, 2, 2, 3, 4, 9]))]
            if k not in pool:
                pool.append(k)
        if r.random() < 0.5:
            r.shuffle(pool)
        wide = r.random() < 0.5
        for j in range(n):
            k = r.choice(pool) if r.random() < 0.4 else pool[j % len(pool)]
            x = r.random()
            if c == "map":
                if x < 0.5:
                    ps.append({"op": "set", "k": k, "v": [r.randrange(256) for _ in range(sz)]})
                elif x < 0.7:
                    ps.append({"op": r.choice(["get", "has"]), "k": k})
                elif x < 0.85:
                    k = [b for b in k if b]
                    ps.append(r.choice([{"op": "gets", "k": k}, {"op": "hass", "k": k}, {"op": "sets", "k": k, "v": [r.randrange(256) for _ in range(sz)]}]))
                elif x < 0.95:
                    ps.append({"op": "size"})
                else:
                    ps.append({"op": "iter", "n": r.choice([1, 2, 3, 4, 20])})
            elif x < 0.6:
                m = r.choice([0, 1, 1, 2, 5, 17]) if wide else 4
                ps.append({"op": "set", "k": k, "v": [r.randrange(lo, 256) for _ in range(m)]})
            else:
                ps.append({"op": "get", "k": k})
        if r.random() < 0.5:
            # a key at the boundary of the table: every key overwritten right after it, or another, was added
            val = lambda: [r.randrange(lo, 256) for _ in range(sz if c == "map" else 3)]
            qs = []
            for j, k in enumerate(pool[:40]):
                qs.append({"op": "set", "k": k, "v": val()})
                for q in {j, r.randrange(j + 1)}:
                    qs += [{"op": "set", "k": pool[q], "v": val()}, {"op": "get", "k": pool[q]}]
            ps = qs + ps[:20] if r.random() < 0.7 else ps + qs
        for k in pool:
            ps.append({"op": "get", "k": k})
        return sz, ps
    if c == "vec":
        sz, ln = r.choice([1, 2, 3, 4, 8, 13, 40]), 0
        for _ in range(n):
            x = r.random()
            if x < 0.45:
                ps.append({"op": "push", "v": [r.randrange(256) for _ in range(sz)]})
                ln += 1
            elif x < 0.6:
                ps.append({"op": "alloc"})
                ln += 1
            elif x < 0.7 or not ln:
                ps.append({"op": "len"})
            elif x < 0.85:
                ps.append({"op": "put", "i": r.randrange(ln), "v": [r.randrange(256) for _ in range(sz)]})
            else:
                ps.append({"op": "get", "i": r.choice([0, ln - 1, r.randrange(ln)])})
        ps += [{"op": "get", "i": i} for i in range(ln)]
        return sz, ps
    if c == "buf":
        for _ in range(n):
            x = r.random()
            if x < 0.45:
                ps.append({"op": "write", "v": [r.randrange(256) for _ in range(r.choice([0, 1, 1, 2, 3, 7, 20]))]})
            elif x < 0.85:
                ps.append({"op": "read", "n": r.choice([0, 1, 1, 2, 3, 4, 8, 21, 100])})
            else:
                ps.append({"op": "size"})
        ps += [{"op": "size"}, {"op": "read", "n": 10000}, {"op": "size"}]
        return 1, ps
    for _ in range(n):
        x = r.random()
        if x < 0.5:
            ps.append({"op": "append", "i": r.choice([-1, 0, 1, 2, 3, 4, 255])})
        elif x < 0.8:
            ps.append({"op": "remove", "i": r.choice([0, 1, 2, 3, 4, 255])})
        else:
            ps.append({"op": "list"})
    ps.append({"op": "list"})
    return 1, ps


def check(c):
    cases = []        # (kind, size, operations, expected outputs)
    for nk, nv, mb, bs in ([(3, 2, 2, 2), (4, 1, 2, 2)] + ([(4, 2, 4, 2), (5, 1, 4, 2)] if c.thorough else [])):
        t = vlib.tlc("ClipMap2MC", spec="Spec", consts={"NK": nk, "NV": nv, "MaxB": mb, "BS": bs}, inv=["Same", "Room", "OnePerKey"])
        c.model(t, "ClipMap2MC: bucket table equals the map for every hash function and history (%d keys)" % nk)
    depth = {"map": 3, "map2": 3, "st": 3, "vec": 5, "buf": 4, "list": 4}

    def mc(k):
        d = depth[k] + (1 if c.thorough else 0)
        return k, vlib.tlc("ClipMC", spec="Spec", consts={"K": '"%s"' % k, "Depth": d}, inv=["MapLaw", "Fifo", "VecLaw", "EmitRes"], workers=2)
    for k, t in vlib.pmap(mc, KINDS, 4):
        c.model(t, "ClipMC %s: all histories up to depth %d" % (k, depth[k]))
        for x in vlib.tlc_lines(t, "RES"):
            if k == "st" and any(0 in p.get("k", []) + p.get("v", []) for p in x["ps"]):
                continue
            cases.append((k, 1, x["ps"], x["o"]))
    r = c.rng
    rnd = []
    for k in KINDS:
        for _ in range(c.n(25, 250)):
            sz, ps = gen(r, k, r.choice([10, 40, 80, 150]))
            rnd.append({"c": k, "sz": sz, "ps": ps})
    t = vlib.tlc("ClipEval", spec="Spec", inv=["EmitRes"], files={"cases.ndjson": vlib.ndjson(rnd)})
    c.model(t)
    for x in vlib.tlc_lines(t, "RES"):
        q = rnd[x["i"] - 1]
        cases.append((q["c"], q["sz"], q["ps"], x["o"]))
    prog = vlib.build_driver("clip")
    batches = [cases[i:i + 200] for i in range(0, len(cases), 200)]

    def one(batch):
        lines, want = [], []
        for ci, (k, sz, ps, o) in enumerate(batch):
            lines.append("%s new 0%s" % (k, " %d" % sz if k in ("map", "vec") else ""))
            want.append((ci, None, None))
            for p, x in zip(ps, o):
                last = len(x[0]["b"]) if k == "map2" and p["op"] == "get" and "b" in x[0] else 0
                lines.append(line(k, p, last))
                want.append((ci, p, show(p, x)))
            if k != "list":
                lines.append("%s free 0" % k)
                want.append((ci, None, None))
        out, res = vlib.drive(prog, lines, timeout=200)
        bad = []
        for j, (ci, p, w) in enumerate(want):
            if j >= len(out):
                bad.append((batch[ci], "the program ended (status %s%s) at: %s" % (res.rc, ", timeout" if res.timeout else "", lines[j]), res.err.decode("utf8", "replace")[-1500:]))
                break
            if p is not None and parse(p, out[j]) != w:
                bad.append((batch[ci], "%s: expected %s, got %s" % (lines[j], w, out[j]), ""))
        else:
            if res.rc != 0:
                bad.append((batch[-1], "exit status %s" % res.rc, res.err.decode("utf8", "replace")[-1500:]))
        return bad, len(lines)
    for bad, n in vlib.pmap(one, batches):
        c.cov["cases"] += n
        for case, what, err in bad:
            if len(c.viol) < 8:
                k, sz, ps, o = case
                c.violation("%s: %s %s" % (k, what, err[:300]), {"kind": k, "size": sz, "ops": ps, "stderr": err})
    c.traces(len(cases))
    c.sample({"kind": cases[-1][0], "ops": cases[-1][2][:5], "outputs": cases[-1][3][:5]})
    c.cov["bounds"] = "all histories of %s operations over a small alphabet per container, %d random histories per container up to 150 operations (growth past 16, 32, 64 entries)" % ("4-6" if c.thorough else "3-5", c.n(25, 250))
    c.assumptions += ["memory is not exhausted", "the drivers run address-sanitized, so a wild access is a violation"]
