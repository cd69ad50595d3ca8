"""C17: MD5 and SHA-1 are the published functions, for every message."""
import vlib
import adt
from adt import op


def msg(r, n):
    k = r.random()
    if k < 0.2:
        return [r.choice([0, 255, 128, 127])] * n
    return [r.randrange(256) for _ in range(n)]


def check(c):
    r = c.rng
    t = vlib.tlc("DigestMC", spec="Spec", inv=["RotLaw", "AddLaw", "BoolLaw", "PadLaw"], workers=vlib.NPROC, timeout=400)
    c.model(t, "DigestMC: published vectors, word arithmetic")
    cases = []
    sizes = list(range(0, 132)) + [183, 184, 191, 192, 247, 248, 255, 256, 257, 511, 512, 1000]
    if c.thorough:
        sizes = list(range(0, 400)) + [511, 512, 1000, 2000, 5000, 8191, 8192, 20000]
    for n in sizes:
        m = msg(r, n)
        cases.append(("d", [op("md5", m), op("add", m), op("end"), op("bytes"), op("format", 41)]))
    for _ in range(c.n(60, 800)):
        m = [x or 1 for x in msg(r, r.choice([0, 1, 5, 55, 56, 60, 64, 100]))]
        cases.append(("d", [op("md5s", m)]))
    for v in range(0, 256):
        cases.append(("d", [op("md5", [v]), op("add", [v]), op("end"), op("bytes")]))
    for _ in range(c.n(60, 800)):
        ps = []
        for _ in range(r.choice([1, 3, 8])):
            x = r.random()
            if x < 0.5:
                ps.append(op("add", msg(r, r.choice([0, 1, 3, 20, 55, 64]))))
            elif x < 0.6:
                ps.append(op("reset"))
            elif x < 0.8:
                ps.append(op("end"))
            else:
                ps += [op("end"), op("bytes"), op("format", r.choice([0, 20, 39, 40, 41, 42, 64]))]
        ps += [op("end"), op("bytes"), op("end"), op("add", [1]), op("bytes"), op("format", 41), op("format", 40), op("reset"), op("add", [97]), op("end"), op("bytes")]
        cases.append(("d", ps))
    for _ in range(c.n(40, 200)):
        a = [r.randrange(256) for _ in range(16)]
        b = list(a)
        if r.random() < 0.8:
            b[r.randrange(16)] ^= 1 << r.randrange(8)
        cases.append(("d", [op("words", a, b), op("words", a, a)]))
    adt.replay(c, "digest", adt.evaluate(c, "DigestEval", cases), batch=60)
    c.assumptions += ["messages below 2^28 bytes"]
