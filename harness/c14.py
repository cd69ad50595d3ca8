"""C14: the text functions of lib (strings, hex, urlencode, url, tokenizer, utf)."""
import adt, vlib
from adt import op

PTS = [1, 65, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]


def text(r, n, pool):
    return [r.choice(pool) for _ in range(n)]


def any_text(r, n):
    return [r.choice([9, 32, 65, 97, 98, 127, 128, 255]) if r.random() < 0.5 else r.randrange(1, 256) for _ in range(n)]


def u8(cps):
    return list("".join(map(chr, cps)).encode("utf8"))


def utext(r, n, valid=False):
    b = u8(r.choice(PTS) if r.random() < 0.8 else r.randrange(1, 0xd800) for _ in range(n))
    if not valid and r.random() < 0.4 and b:
        for _ in range(r.choice([1, 2])):
            k = r.randrange(len(b))
            b[k] = r.choice([b[k] ^ 64, 128, 194, 224, 240, 255, 65]) or 65
    return b


def surr(b):
    return any(b[i] == 0xed and b[i + 1] >= 0xa0 for i in range(len(b) - 1))


def gen_str(r):
    n = r.choice([0, 1, 2, 3, 8, 20, 60])
    x = any_text(r, n)
    o = r.choice(["newstr", "sub", "trim", "rtrim", "split", "casecmp", "starts", "starts_i", "ends", "eq", "allupper", "fmtbytes", "digit", "val"])
    if o == "newstr":
        return op(o, any_text(r, r.choice([0, 1, 50, 4000])))
    if o == "sub":
        a = r.randrange(n + 1)
        return op(o, x, a, r.randrange(a, n + 1))
    if o == "trim":
        ws = [9, 10, 11, 12, 13, 32]
        return op(o, text(r, r.choice([0, 1, 3, 9]), ws) + text(r, r.choice([0, 1, 4]), [65, 32, 255, 9]) + text(r, r.choice([0, 1, 3, 9]), ws))
    if o == "rtrim":
        return op(o, any_text(r, n) + text(r, 4, [44, 59, 255]), text(r, r.choice([0, 1, 2, 3]), [44, 59, 255, 65]))
    if o == "split":
        sep = text(r, r.choice([1, 1, 2, 3]), [44, 59])
        s = []
        for _ in range(r.choice([0, 1, 3, 12])):
            s += text(r, r.choice([0, 0, 1, 3]), [97, 44, 59, 255]) + sep
        return op(o, sep, s, r.choice([0, 1, 2, 3, 12, 50]))
    if o in ("casecmp", "starts", "starts_i", "ends", "eq"):
        y = list(x)
        q = r.random()
        if q < 0.4 and y:
            k = r.randrange(len(y))
            y[k] = r.choice([y[k] ^ 32, y[k] ^ 1, 64, 96, 91, 123]) or 1
        if q > 0.3 and o in ("starts", "starts_i"):
            y = y[:r.randrange(len(y) + 1)]
        elif q > 0.3 and o == "ends":
            y = y[r.randrange(len(y) + 1):]
            if y and r.random() < 0.4:
                y[0] ^= 1
                y[0] = y[0] or 7
        return op(o, y, x) if r.random() < 0.15 else op(o, x, y)
    if o == "allupper":
        return op(o, text(r, n, [65, 90, 91, 96, 48, 255]) + text(r, r.choice([0, 0, 1]), [97, 122, 123]))
    if o == "fmtbytes":
        return op(o, r.choice([0, 1, 1023, 1024, 1025, 1030, 2048, 1536, 10 * 1024 + 5, 1048575, 1048576, 1048577, 5 * 1048576 + 5243, r.randrange(2 ** 30), r.randrange(1 << 21), 2 ** 30]))
    if o == "digit":
        return op(o, r.choice([0, 1, 5, 9, 9, 0, 4] + ([-1, 10] if r.random() < 0.1 else [3])))
    return op(o, r.choice([0, 47, 48, 50, 57, 58, 255, 128, 65, -1]))


def gen_enc(r):
    b = [r.choice([0, 48, 57, 65, 90, 97, 122, 64, 91, 96, 123, 47, 58, 37, 32, 43, 127, 128, 255, r.randrange(256)]) for _ in range(r.choice([0, 1, 2, 5, 30]))]
    o = r.choice(["hex", "url", "byte"])
    return op(o, r.randrange(256)) if o == "byte" else op(o, b, r.choice([0, 1, 2, 3, 2 * len(b), max(0, 2 * len(b) - 1), 3 * len(b), 100]))


def gen_url(r):
    part = lambda ns: text(r, r.choice(ns), [97, 98, 48, 46, 45, 63, 255])
    s = part([0, 1, 4, 9, 10]) + r.choice([[58, 47, 47]] * 5 + [[58, 47], [58], []]) + part([0, 1, 10, 99, 100])
    if r.random() < 0.5:
        s += [58] + part([0, 1, 4, 9, 10, 11])
    if r.random() < 0.6:
        s += [47] + text(r, r.choice([0, 1, 20, 98, 99, 100, 300]), [97, 47, 58, 63])
    return op("parse", s)


def gen_tok(r):
    mode = r.choice([0, 0, 1, 2, 3, 4])
    pieces = [[97, 98, 95, 49], [49, 50, 46, 53], [45, 49, 101, 43, 50], [32, 9], [10], [13, 10], [44], [255, 128], [97] * 30, [49] * 120, [46], [101], [45], [34, 97, 34],
              [60, 33, 45, 45], [11], [90, 97, 65, 57], [49, 69, 55], [49, 46, 50, 69, 45, 51]]
    d = []
    for _ in range(r.choice([0, 1, 4, 12, 40])):
        d += r.choice(pieces)
    if r.random() < 0.06:
        d += r.choice([[97], [97, 10], [32]]) * r.choice([9999, 10000, 10001, 15000])
    if mode and r.random() < 0.3:
        d.insert(r.randrange(len(d) + 1), 0)
    nul = 0 in d
    ps = [op("open", mode, d)]
    for _ in range(r.choice([3, 8, 25])):
        x = r.random()
        if x < 0.3:
            ps.append(op(r.choice(["peek", "get", "more", "pos"])))
        elif x < 0.4:
            ps.append(op(r.choice(["spaces", "hspaces"])))
        elif x < 0.5:
            ps.append(op(r.choice(["id", "num"]), r.choice([1, 2, 3, 5, 20, 100, 200])))
        elif x < 0.6:
            ps.append(op("tail", r.choice([1, 2, 5, 20, 99, 100])))
        elif x < 0.68:
            ps.append(op("skip", r.choice([97, 44, 10, 255, 128, 49])))
        elif x < 0.8:
            ps.append(op(r.choice(["skipset", "readset"]), r.choice([[97, 10], [32, 9, 10, 13], [49, 50], [255, 128, 97], []])))
        elif x < 0.92:
            ps.append(op(r.choice(["lit", "follows"]), r.choice([[97, 98], [60, 33, 45, 45], [10], [49] * 99, [255], [97] * 31, [49] * 100, []])))
        else:
            ps.append(op("readuntil", r.choice([10, 44, 255, 34]), r.choice([1, 2, 5, 50, 300, 20000])) if r.random() < 0.5 else op("until", r.choice([[10], [44, 97], [60, 33], [255]])))
    ps += [op("pos"), op("until", [1]), op("pos"), op("more")]
    return ps


def gen_utf(r, o=None):
    o = o or r.choice(["get", "put", "nlen", "full", "count", "utfnlen", "rune", "rrune", "utfutf", "ecpy", "chr", "rchr", "str", "dup", "cpy", "cat", "ncat", "ncpy", "recpy", "cmp", "ncmp",
                  "lower", "upper", "islower", "isalpha", "isspace"])
    n = r.choice([0, 1, 2, 3, 7])
    x = utext(r, n)
    if surr(x):
        x = [65]
    cp = r.choice(PTS)
    if o == "get":
        return op(o, x or [r.randrange(1, 256)])
    if o == "put":
        return op(o, r.choice(PTS + [0, 0x110000, 0x7fffffff, r.randrange(0x110000)]))
    if o in ("full", "count"):
        return op(o, x)
    if o == "utfnlen":
        return op(o, x, r.randrange(len(x) + 2) if x else 0)
    if o in ("rune", "rrune"):
        return op(o, x, cp)
    if o == "utfutf":
        al = r.choice([[0xe9, 65], [0xe9, 0x20ac], [65, 66, 0xe9], PTS])
        return op(o, u8(r.choice(al) for _ in range(r.choice([0, 3, 7, 12]))), u8(r.choice(al) for _ in range(r.choice([0, 1, 2, 3]))))
    if o == "ecpy":
        return op(o, utext(r, n, True), r.choice([1, 2, 3, 4, 5, 6, 8, 20]))
    v = utext(r, n, True)
    if o in ("chr", "rchr"):
        return op(o, v, cp)
    if o == "str":
        al = r.choice([[0xe9, 65], [0xe9, 0x20ac], [65, 66]])
        return op(o, u8(r.choice(al) for _ in range(r.choice([0, 3, 7, 12]))), u8(r.choice(al) for _ in range(r.choice([0, 1, 2, 3]))))
    if o in ("dup", "cpy", "nlen"):
        return op(o, v)
    if o in ("ncpy", "recpy"):
        return op(o, v, r.choice([1, 2, 3, 5, 9]))
    w = r.choice([v, v + [65], v[:0], utext(r, n, True)])
    if o in ("cat", "cmp"):
        return op(o, v, w)
    if o in ("ncat", "ncmp"):
        return op(o, v, w, r.choice([0, 1, 2, 3, 9]))
    return op(o, r.randrange(128))


def check(c):
    cases = []
    L = {"str": 3, "enc": 3, "url": 3 + c.n(0, 2), "utf": 3, "tok": c.n(2, 3)}

    def mc(k):
        return k, vlib.tlc("TextMC", spec="Spec", consts={"K": '"%s"' % k, "L": L[k], "Emit": "TRUE"},
                           inv=["Law", "Utf8Law", "TokLaw", "EmitRes"], workers=3)
    for k, t in vlib.pmap(mc, list(L), 3):
        c.model(t, "TextMC %s: all calls with texts up to %d bytes over a small alphabet" % (k, L[k]))
        cases += [(k, x["ps"], x["o"]) for x in vlib.tlc_lines(t, "RES")]
    c.cov["exhaustive_calls"] = len(cases)
    r = c.rng
    rnd = []
    for k, g, n in (("str", gen_str, c.n(500, 6000)), ("enc", gen_enc, c.n(150, 1500)), ("url", gen_url, c.n(120, 1500)), ("utf", gen_utf, c.n(700, 8000))):
        rnd += [(k, [g(r)]) for _ in range(n)]
    rnd += [("utf", [gen_utf(r, o)]) for o in ("utfutf", "str", "rune", "rrune", "chr", "rchr", "ncat", "ncpy") for _ in range(c.n(80, 500))]
    rnd += [("tok", gen_tok(r)) for _ in range(c.n(200, 2500))]
    edge = sorted({(1 << k) + d for k in range(21) for d in (-1, 0, 1)} | {0x10ffff, 0x110000, 0x10fffe, 0x1f600, 0x3ffff} | {r.randrange(0x110000) for _ in range(150)})
    rnd += [("utf", [op("put", x)]) for x in edge if not 0xd800 <= x < 0xe000]
    rnd += [("utf", [op(o, u8([x]) + t)]) for x in edge if 0 < x < 0x110000 and not 0xd800 <= x < 0xe000 for o, t in (("get", []), ("count", [128]), ("get", [65]))]
    # the first and last of each length, and their too long and too large neighbours
    seqs = [[a, b] + t for a in (192, 193, 194, 223, 224, 225, 239, 240, 241, 244, 245, 247, 248, 255) for b in (127, 128, 143, 144, 159, 160, 191, 192)
            for t in ([], [128], [191], [128, 128], [191, 191], [128, 65], [65, 128])]
    rnd += [("utf", [op("get", b)]) for b in seqs if not surr(b)]
    rnd += [("str", [op("val", x)]) for x in range(-1, 256)] + [("utf", [op(o, x)]) for x in range(128) for o in ("lower", "upper", "islower", "isalpha", "isspace")]
    cases += adt.evaluate(c, "TextEval", rnd)
    adt.replay(c, "text", cases, batch=500)
    c.assumptions += ["memory is not exhausted", "the C locale", "separators and literals are not empty and at most 100 bytes long",
                      "surrogate code points and the case and class tables beyond ASCII are not judged"]
