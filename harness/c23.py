"""C23: pictures, sound, TIFF, tables, statistics and random numbers."""
import struct
import vlib
import adt
from adt import op


def w(s):
    return list(s.encode("latin1")) if isinstance(s, str) else list(s)


def col(r):
    x = r.random()
    if x < 0.3:
        return [r.choice([0, 255]) for _ in range(3)] + [r.choice([0, 0, 255])]
    return [r.choice([0, 1, 7, 127, 128, 200, 254, 255]) for _ in range(4)]


def img(r):
    W, H = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 17]), r.choice([1, 2, 3, 5])
    ps = [op("make", W, H), op("size")]
    kept = False
    for _ in range(r.choice([1, 3, 8, 15])):
        x, y = r.randrange(W), r.randrange(H)
        k = r.random()
        if k < 0.35:
            ps.append(op("set", x, y, *col(r)))
        elif k < 0.45:
            ps.append(op("blend", x, y, *(col(r)[:3] + [r.randrange(17)])))
        elif k < 0.5:
            ps.append(op("fill", *col(r)))
        elif k < 0.52:
            ps.append(op("clear"))
        elif k < 0.6:
            ps.append(op("apply"))
        elif k < 0.65:
            ps.append(op("test"))
        elif k < 0.72 and W * H < 40:
            n = r.choice([1, 2, 3])
            W, H = W * n, H * n
            ps.append(op("explode", n))
        elif k < 0.8:
            W, H = r.choice([1, 2, 5, 9]), r.choice([1, 2, 4])
            ps.append(op("keep", W, H))
            kept = True
        elif k < 0.95 and kept:
            ps.append(op("paste", r.randrange(W + 2), r.randrange(H + 2)))
        else:
            ps += [op("get", x, y), op("get", W - 1, H - 1)]
    ps.append(op("dump"))
    x = r.random()
    if x < 0.25:
        ps.append(op("bmp"))
    elif x < 0.5:
        ps.append(op("ppm"))
    elif x < 0.8:
        ps.append(op("png", r.choice([0, 2, 3, 4, 6])))
    if r.random() < 0.1:
        ps.append(op(r.choice(["get", "get"]), *r.choice([(W, 0), (0, H), (-1, 0), (0, -1), (W + 5, H + 5)])))
    return ps


def wavfile(r, n=None):
    """(bytes, bits): a file, mostly well formed."""
    bits = r.choice([16, 16, 24])
    ch = r.choice([1, 2, 2])
    n = r.choice([0, 1, 2, 5, 20]) if n is None else n
    v = lambda: r.choice([0, 1, -1, 32767, -32768, 255, 256, r.randrange(-32768, 32768)]) if bits == 16 else r.choice([0, 1, -1, 8388607, -8388608, 65536, r.randrange(-8388608, 8388608)])
    data = b"".join(v().to_bytes(bits // 8, "little", signed=True) for _ in range(n * ch))
    bad = lambda p, x, y: r.choice(y) if r.random() < p else x
    freq = r.choice([8000, 44100, 48000, 96000])
    s = bad(.02, b"RIFF", [b"RIFX", b"riff"]) + struct.pack("<I", r.choice([36 + len(data), 0xffffffff, 0])) + bad(.02, b"WAVE", [b"AVI "]) + bad(.02, b"fmt ", [b"fmt0"])
    s += struct.pack("<IHHIIHH", bad(.02, 16, [18, 0]), bad(.02, 1, [3, 0]), bad(.02, ch, [0, 3, 6]), freq, freq * ch * bits // 8, ch * bits // 8, bad(.02, bits, [8, 32, 0, 20]))
    if r.random() < 0.4:
        body = b""
        for _ in range(r.choice([0, 1, 2, 3])):
            l = r.choice([0, 1, 2, 3, 10, 11, 100, 998, 999])
            body += r.choice([b"IART", b"INAM", b"ISFT"]) + struct.pack("<I", bad(.03, l, [1000, 1001, 5000, 0xffffffff, l + 1, l + 2])) + bytes(r.randrange(256) for _ in range(l))
            if l % 2:
                body += b"\0"
        s += b"LIST" + struct.pack("<I", bad(.05, 4 + len(body), [0, 3, 4 + len(body) - 1, 4 + len(body) + 1, 0xffffffff])) + bad(.03, b"INFO", [b"adtl"]) + body
    if r.random() < 0.2:
        p = r.choice([0, 1, 4, 100, 1000, 4095, 4096, 4097, 9000])
        s += b"PAD " + struct.pack("<I", bad(.05, p, [p + 1, 100000])) + bytes(r.randrange(256) for _ in range(p))
    s += bad(.02, b"data", [b"fact", b"DATA"]) + struct.pack("<I", r.choice([len(data), len(data), 0xffffffff])) + data
    if r.random() < 0.1:
        s = s[:r.randrange(min(len(s), 80) + 1)]
    return s, bits


def tiff(r, big=None):
    """bytes and the shape [entries per directory]"""
    big = r.random() < 0.5 if big is None else big
    e = ">" if big else "<"
    nd = r.choice([0, 1, 1, 2, 3, 9])
    shape = [r.choice([0, 1, 2, 5, 12]) for _ in range(nd)]
    s = bytearray((b"MM" if big else b"II") + struct.pack(e + "H", 42 if r.random() < .97 else 43) + b"\0\0\0\0")
    link = 4
    strs = []
    for n in shape:
        if r.random() < 0.3:
            s += bytes(r.randrange(256) for _ in range(r.choice([1, 2, 3, 10])))
        struct.pack_into(e + "I", s, link, len(s))
        s += struct.pack(e + "H", n)
        for _ in range(n):
            t = r.choice([1, 2, 2, 2, 3, 4, 5])
            c = r.choice([0, 1, 2, 3, 4, 5, 8, 20, 200])
            big_c = r.random() < 0.05
            v = r.choice([0, 1, 8, 256, 65536, 0xffffffff, 0x01020304])
            if t == 2:
                if c > 4:
                    strs.append((len(s) + 8, c))
                else:
                    v = int.from_bytes(bytes(r.randrange(1, 256) for _ in range(4)), "big")
            if big_c:
                strs = [x for x in strs if x[0] != len(s) + 8]
                c = r.choice([65536, 65541, 0x12345678, 0xffffffff])
            s += struct.pack(e + "HHII", r.choice([254, 256, 270, 271, 305, 33432, 65535]), t, c, v)
        link = len(s)
        s += b"\0\0\0\0"
    for at, c in strs:
        x = r.random()
        if x < 0.85:
            struct.pack_into(e + "I", s, at, len(s))
            s += bytes(r.randrange(1, 256) for _ in range(c))
        elif x < 0.9:
            struct.pack_into(e + "I", s, at, max(0, len(s) - c + 1))
        elif x < 0.95:
            struct.pack_into(e + "I", s, at, 0)
    if r.random() < 0.08 and nd:
        struct.pack_into(e + "I", s, link, r.choice([8, 4, len(s), len(s) - 1, len(s) - 2, 0xffffffff, link, link - 2]))
    if r.random() < 0.08:
        del s[r.randrange(len(s) + 1):]
    return bytes(s), shape, strs


M = 0x9b60933458e17d7d
A = 0xd737232eeccdf7ed


def seedfor(nxt):
    """the state before nxt"""
    return ((nxt - A) * pow(M, -1, 1 << 64)) % (1 << 64)


def seedbytes(v):
    return list((v % (1 << 64)).to_bytes(8, "little"))


def check(c):
    r = c.rng
    t = vlib.tlc("MediaMC", spec="Spec", consts={"Big": "TRUE" if c.thorough else "FALSE"}, inv=["ImgLaw", "WavLaw", "TiffLaw", "TabLaw", "StatsLaw", "RndLaw"], constraint="Short", workers=vlib.NPROC, timeout=800)
    c.model(t, "MediaMC: small pictures, sound and TIFF files, tables, series")
    cases = []
    add = lambda k, *ps: cases.append((k, list(ps)))
    # pictures
    for _ in range(c.n(500, 6000)):
        add("img", *img(r))
    for W in range(1, 18):
        add("img", op("make", W, 2), op("test"), op("dump"), op("bmp"), op("png", r.choice([2, 3, 6])))
    # more colours than a palette has, lines longer than a byte counts
    for W, H in ((16, 16), (17, 16), (90, 3), (300, 1)):
        ps = [op("make", W, H)]
        n = 0
        for y in range(H):
            for x in range(W):
                if n < 280:
                    ps.append(op("set", x, y, n % 256, n // 256 * 8, 255 - n % 256, n % 3 * 80))
                n += 1
        for m in (3, 2, 6):
            add("img", *ps, op("png", m))
        add("img", *ps, op("bmp"), op("ppm"))
    for _ in range(c.n(150, 2000)):
        add("img", op("mix", *col(r), *col(r), r.randrange(17)))
        n = r.choice([3, 4, 5, 20])
        wd = r.choice([1, 2, 4, 8, 16, 32, 64])
        add("img", *[op("map", [r.randrange(256) for _ in range(3 * n)], wd, r.choice([0, 1, wd - 1, wd, wd + 1, n * wd - 1, n * wd, n * wd + 1, r.randrange(5 * n * wd)])) for _ in range(3)])
    # sound
    for _ in range(c.n(80, 1000)):
        ps = [op("begin"), op("bytes")]
        for _ in range(r.choice([1, 5, 40])):
            if r.random() < 0.5:
                ps.append(op("raw", *[r.choice([0, 1, -1, 32766, 32767, -32767, -32768, 32768, -32769, 40000, -70000, r.randrange(-32768, 32768)]) for _ in range(2)]))
            else:
                k = lambda: r.choice([0, 1, -1, 4095, 4096, 4097, -4096, -4097, 5000, -5000, 2047, -2049, r.randrange(2048), -r.randrange(2048)])
                ps.append(op("frac", k(), k()))
        ps.append(op("bytes"))
        add("wav", *ps)
    for _ in range(c.n(400, 5000)):
        s, bits = wavfile(r)
        if r.random() < 0.5:
            add("wav", op("load", w(s), bits))
        else:
            add("wav", op("open", w(s)), *[op("more"), op("read")] * 21, op("more"))
    # tiff
    for _ in range(c.n(500, 6000)):
        s, shape, strs = tiff(r)
        ps = [op("parse", w(s))]
        ps += [op("str", d + 1, e + 1) for d in range(len(shape)) for e in range(shape[d]) if r.random() < 0.4]
        if r.random() < 0.3:
            ps.append(op("at", r.randrange(len(s) + 3), r.choice([1, 2, 4])))
        add("tiff", *ps)
    # tables
    for _ in range(c.n(150, 2000)):
        n = r.choice([1, 2, 3, 6])
        ps = [op("cols", n)]
        m = r.choice([0, n, 2 * n, 5 * n, 30, 30, 99, 100, 101, 201, 310])
        for _ in range(m):
            ps.append(op("push", [r.choice(b"ab %d\xff1") for _ in range(r.choice([0, 1, 2, 8, 30, 150] if m < 50 else [0, 1, 5]))]))
        add("tab", *ps, op("print"))
    # statistics
    for _ in range(c.n(150, 2000)):
        ps = []
        for _ in range(r.choice([0, 1, 2, 3, 10, 40, 130])):
            ps.append(op("add", r.choice([0, 1, -1, 5, 1000, r.randrange(-10000, 10000)])))
            if r.random() < 0.1:
                ps.append(op(r.choice(["count", "sum", "min", "max", "med", "avg"])))
            if r.random() < 0.05:
                ps.append(op("perc", r.choice([0, 1, 50, 99, 100])))
        ps += [op("count"), op("sum"), op("min"), op("max"), op("med"), op("avg")]
        ps += [op("perc", p) for p in (-1, 0, 1, 10, 33, 50, 66, 90, 99, 100, 101)]
        add("stats", *ps)
    # random numbers
    for _ in range(c.n(100, 1500)):
        ps = [op("seed", seedbytes(r.choice([0, 1, 1 << 63, r.getrandbits(64)])))]
        for _ in range(r.choice([1, 5, 30])):
            x = r.random()
            if x < 0.4:
                ps.append(op("intn", r.choice([1, 2, 3, 10, 256, 65537, (1 << 30) - 1, r.randrange(1, 1 << 30)])))
            elif x < 0.7:
                ps.append(op("u"))
            else:
                fs = [r.choice([0, 0, 1, 1, 2, 5, 100]) for _ in range(r.choice([1, 2, 5, 20]))]
                if sum(fs) == 0:
                    fs[r.randrange(len(fs))] = 1
                ps.append(op("pick", *fs))
        add("rnd", *ps)
    # the numbers at the ends: all ones and all zeros, at every shift
    for sh in range(8):
        for x in (0xffffffff, 0xfffffffe, 0, 1):
            v = (sh << 61) | (((x << (29 - sh)) % (1 << 61)))
            add("rnd", op("seed", seedbytes(seedfor(v))), op("u"), op("u"))
            add("rnd", op("seed", seedbytes(seedfor(v))), op("pick", 1, 0, 1), op("intn", 7))

    def judged(cs):
        out = []
        for k, q, o in adt.evaluate(c, "MediaEval", cs, mem="3g"):
            n = next((i for i in range(len(q)) if o[i] == [{"n": -1}]), len(q))
            c.cov["not_judged"] = c.cov.get("not_judged", 0) + len(q) - n
            out.append((k, q[:n], o[:n]))
        return out
    adt.replay(c, "media", judged(cases), batch=40, dead="")
    c.assumptions += ["pictures of at least one pixel", "parts of pictures are pasted at places that are not negative", "grey levels that fall on a whole number are not judged (the factors are not exact in floating point)"]
