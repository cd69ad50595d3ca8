"""C15: JSON is read as RFC 8259 says, and what is written reads back as the same value."""
import adt, vlib
from adt import op

STR = [1, 8, 9, 10, 12, 13, 31, 32, 34, 47, 92, 92, 65, 110, 117, 127, 0xc3, 0xa9, 255]
WS = ["", "", "", " ", "\n", "\t\r ", "  "]


def ws(r):
    return list(r.choice(WS).encode())


def rstr(r, n=None):
    out = []
    for _ in range(r.choice([0, 1, 3, 10]) if n is None else n):
        x = r.random()
        if x < 0.4:
            out += [r.choice([c for c in STR if c >= 32 and c not in (34, 92)])]
        elif x < 0.7:
            out += [92, r.choice(b'"\\/bfnrt')]
        else:
            u = r.choice([1, 10, 34, 65, 0x7f, 0x80, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x1f600])
            us = [u] if u < 0x10000 else [0xd800 + ((u - 0x10000) >> 10), 0xdc00 + ((u - 0x10000) & 0x3ff)]
            for v in us:
                out += list(b"\\u") + list((r.choice(["%04x", "%04X"]) % v).encode())
    return [34] + out + [34]


def rnum(r):
    s = r.choice(["", "", "-"]) + r.choice(["0", "7", "42", "100", "123456789", "999999999999999", "2147483648"])
    if r.random() < 0.5 and len(s) < 12:
        s += "." + r.choice(["0", "5", "25", "001", "100", "123456"][:6 if len(s) < 5 else 5])
    if r.random() < 0.3:
        s += r.choice("eE") + r.choice(["", "+", "-"]) + r.choice(["0", "1", "5", "10", "12", "99", "100", "250", "007"])
    return list(s.encode())


def rval(r, d):
    x = r.random()
    if d == 0 or x < 0.35:
        return r.choice([rstr, rstr, rnum, rnum, lambda r: list(r.choice([b"true", b"false", b"null"]))])(r)
    n = r.choice([0, 1, 2, 3, 17, 40] if d > 2 else [0, 1, 2, 3])
    out = []
    obj = x < 0.7
    for k in range(n):
        if k:
            out += ws(r) + [44]
        if obj:
            out += ws(r) + (rstr(r) if r.random() < 0.4 else [34] + list(b"k%d" % r.randrange(n + 2)) + [34]) + ws(r) + [58]
        out += ws(r) + rval(r, d - 1)
    return ([123] if obj else [91]) + out + ws(r) + ([125] if obj else [93])


def mutate(r, t):
    t = list(t)
    for _ in range(r.choice([1, 1, 2])):
        k = r.randrange(len(t) + 1)
        x = r.random()
        if x < 0.4 and t:
            del t[k - 1]
        elif x < 0.8:
            t.insert(k, r.choice(b'[]{},:"\\ 0-e.tnx'))
        else:
            t = t[:k]
    return t


FOLLOW = [("format",), ("dump",)]


def after(r, full=True):
    ps = [op("format"), op("dump"), op("formatwr", r.choice([1, 2, 7, 64, 1000])), op("dump")]
    if full:
        ps += [op("type"), op("len"), op("str")]
        for _ in range(3):
            ps += [op("get", list(r.choice([b"k0", b"k1", b"k2", b"", b"zz"]))), op("key", r.choice([0, 1, 2, 16, 99])), op("val", r.choice([0, 1, 2, 16, 17, 99]))]
        ps += [op("clone")]
        for _ in range(r.choice([0, 1, 3])):
            ps += [op("put", list(r.choice([b"k0", b"k1", b'q"\\\n', b"", b"new"])), rval(r, 1)), op("dump")]
        ps += [op("format"), op("dump"), op("clone"), op("format"), op("dump")]
    return ps


def check(c):
    cases = []
    r = c.rng
    for mode, L in (("texts", c.n(4, 5)), ("values", c.n(4, 5))):
        t = vlib.tlc("JsonTextMC", spec="Spec", consts={"Mode": '"%s"' % mode, "L": L}, inv=["RoundTrip", "PrefixLaw", "SpaceLaw", "EmitRes"], workers=vlib.NPROC, timeout=800)
        c.model(t, "JsonTextMC: all %s of size %d" % (mode, L))
        xs = vlib.tlc_lines(t, "RES")
        if mode == "texts":
            cases += [("json", [op("parse", x["t"])], [x["o"]]) for x in xs]
        else:
            values = [x["t"] for x in xs]
    c.cov["exhaustive_texts"] = len(cases)
    rnd = [("json", [op("parse", v)] + after(r, False)) for v in (values if c.thorough and len(values) < 6000 else r.sample(values, min(len(values), c.n(300, 4000))))]
    for _ in range(c.n(250, 3000)):
        v = ws(r) + rval(r, r.choice([0, 1, 2, 3])) + ws(r)
        if len(v) > 3000:
            continue
        rnd.append(("json", [op("parse", v)] + after(r)))
        if len(v) < 600:
            rnd.append(("json", [op("parse", mutate(r, v)), op("type")]))
            rnd.append(("json", [op("parse", mutate(r, v)), op("type")]))
    rnd += [("json", [op("parse", list(b'"') + [97] * n + list(b'"'))] + after(r, False)) for n in (62, 63, 64, 65, 127, 128, 5000)]
    rnd += [("json", [op("parse", list(b'[' * n + b']' * n))] + after(r, False)) for n in (50, 200)]
    rnd += [("json", [op("parse", list(b"1" + b"0" * n + b"." + b"0" * n)), op("type")]) for n in (40, 49, 50, 60, 100, 200)]
    ws_cases = [[r.choice(STR) for _ in range(r.choice([0, 1, 4, 20]))] for _ in range(c.n(60, 600))] + [[k] for k in range(1, 256)]
    rnd += [("json", [op("wstring", b)]) for b in ws_cases]
    # every byte as itself inside a string, written and read again
    rnd += [("json", [op("parse", [34] + (list(b"\\u%04x" % k) if k < 32 or k in (34, 92) else [k]) + [34])] + after(r, False)) for k in range(1, 256)]
    cases += adt.evaluate(c, "JsonTextEval", rnd)
    written = []

    def seen(q, k, words):
        ps, o = q[1], q[2]
        if ps[k]["op"] in ("format", "formatwr") and "b" in o[k + 1][0]:
            written.append((q, k, words[0], o[k + 1][0]["b"]))
        elif ps[k]["op"] == "wstring":
            b = bytes(ps[k]["a"][0]["b"])
            written.append((q, k, words[0], list(b'"' + b.hex().encode() + b";")))
    adt.replay(c, "jsontext", cases, collect=seen, batch=300)
    # what the library wrote, read by the specification
    uniq = {}
    for q, k, w, d in written:
        uniq.setdefault((w, tuple(d)), (q, k))
    outs = [(w, d, q, k) for (w, d), (q, k) in uniq.items()]
    bad = [(w, q, k) for w, d, q, k in outs if w == "NULL"]
    outs = [x for x in outs if x[0] != "NULL"]
    back = adt.evaluate(c, "JsonTextEval", [("json", [op("parse", [] if w == "-" else list(bytes.fromhex(w)))]) for w, d, q, k in outs])
    idx = {tuple(q[1][0]["a"][0]["b"]): q[2][0][0] for q in back}
    for w, d, q, k in outs:
        o = idx[() if w == "-" else tuple(bytes.fromhex(w))]
        if list(d) != o.get("b"):
            bad.append((w, q, k))
    c.cov["written_texts"] = len(outs)
    for w, q, k in bad[:6]:
        c.violation("%s wrote %r, which is not JSON for that value" % (q[1][k]["op"], w if w in ("-", "NULL") else bytes.fromhex(w)), {"ops": q[1][:k + 1], "written": w})
    c.assumptions += ["numbers have at most 15 significant digits and exponents within a double's normal range", "strings hold no NUL",
                      "texts RFC 8259 excludes but readers commonly accept (leading zeros, raw control characters, unknown escapes) are not judged"]
