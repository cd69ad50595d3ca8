"""C13: the byte, bit, line and number streams of lib deliver exactly the bytes put in."""
import adt, vlib
from adt import op

SPECIAL = [0, 10, 13, 127, 128, 255, 255, 26, 65]


def data(r, n, nul=True):
    b = [r.choice(SPECIAL) if r.random() < 0.4 else r.randrange(256) for _ in range(n)]
    return b if nul else [x or 255 for x in b]


def gen(r, k):
    n = r.choice([5, 12, 30])
    ps = []
    if k == "mem":
        for _ in range(n):
            x = r.random()
            if x < 0.2:
                ps.append(op("putc", r.choice([-1] + SPECIAL)))
            elif x < 0.45:
                ps.append(op(r.choice(["write", "wwrite"]), data(r, r.choice([0, 1, 3, 16, 31, 32, 33, 70]))))
            elif x < 0.55:
                ps.append(op("printf", data(r, r.choice([0, 1, 5, 31, 32, 33, 100]), nul=False)))
            elif x < 0.65:
                ps.append(op("getc"))
            elif x < 0.8:
                ps.append(op("read", r.choice([0, 1, 2, 7, 40, 300])))
            elif x < 0.9:
                ps.append(op("rewind"))
            else:
                ps.append(op(r.choice(["tell", "tell", "tell", "reset"])))
        ps += [op("rewind"), op("read", 100000), op("getc"), op("tell")]
    elif k == "sb":
        for _ in range(n):
            x = r.random()
            if x < 0.3:
                ps.append(op("addc", r.choice([1, 65, 128, 255])))
            elif x < 0.7:
                ps.append(op(r.choice(["adds", "addf"]), data(r, r.choice([0, 1, 14, 15, 16, 17, 40, 998, 999, 1000, 1001, 2500]) if x < 0.4 else r.choice([0, 1, 7, 15, 16]), nul=False)))
            elif x < 0.75:
                ps.append(op(r.choice(["clear", "unpack"])))
            else:
                ps.append(op(r.choice(["len", "raw"])))
        ps += [op("raw"), op("len"), op("unpack")]
    elif k in ("rs", "rf", "rd"):
        d = data(r, r.choice([0, 1, 2, 10, 50, 300, 5000]))
        ps.append(op("open", d))
        for _ in range(n):
            ps.append(op("read", r.choice([1, 1, 2, 3, 10, 100, 4096])) if r.random() < 0.85 else op("skip", r.choice([0, 1, 2, 5, 60])))
        ps.append(op("read", 10000))
        ps.append(op("read", 1))
    elif k in ("ws", "wf", "wd"):
        ps.append(op("open", r.choice([0, 1, 2, 5, 20, 100]) if k == "ws" else 100000))
        for _ in range(n):
            ps.append(op("byte", r.choice(SPECIAL)) if r.random() < 0.3 else op("write", data(r, r.choice([1, 1, 2, 3, 10, 50, 300]))))
            if r.random() < 0.1:
                ps.append(op("dump"))
        ps.append(op("dump"))
    elif k == "ew":
        ps.append(op("open", r.choice([0, 1, 3, 8, 50, 300])))
        for _ in range(n):
            v = [r.choice([0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65280, 65535, r.randrange(65536)]) for _ in range(2)]
            o = r.choice(["w1", "w2le", "w4be", "w4le"])
            ps.append(op(o, v[0], v[1] % 256 if o == "w1" else v[1]))
        ps.append(op("dump"))
    elif k == "er":
        ps.append(op("open", data(r, r.choice([0, 1, 2, 3, 4, 7, 20, 60]))))
        ps += [op(r.choice(["r1", "r2le", "r2be", "r3le", "r4be", "r4le"])) for _ in range(n)]
    elif k == "bw":
        ps.append(op("open", r.randrange(2), r.choice([0, 1, 2, 5, 100, 100, 100])))
        for _ in range(n):
            ps.append(op("write1", r.choice([0, 1, 1, 2, 128, 255])) if r.random() < 0.6 else op("write", [r.choice([0, 0, 1, 1, 2, 255]) for _ in range(r.choice([0, 1, 3, 7, 8, 9, 17]))]))
        ps.append(op("close"))
    elif k == "br":
        ps.append(op(r.choice(["open", "openf"]), r.randrange(2), data(r, r.choice([0, 1, 2, 5, 20, 60]))))
        for _ in range(n):
            x = r.random()
            ps.append(op("read1") if x < 0.5 else op("readn", r.choice([0, 1, 2, 3, 7, 8, 9, 12, 16, 17, 24, 30])) if x < 0.9 else op(r.choice(["ls", "ms"]), r.randrange(256)))
    elif k == "lr":
        d = []
        for _ in range(r.choice([0, 1, 2, 5, 12])):
            m = r.choice([0, 0, 1, 5, 30, 4094, 4095, 4096, 4097, 8191, 8192, 9000]) if r.random() < 0.3 else r.choice([0, 1, 2, 10])
            d += [x if x != 10 else 255 for x in data(r, m, nul=r.random() < 0.3)] + [10]
        if r.random() < 0.5 and d:
            d = d[:-1]
        ps = [op("open", d)] + [op("read") for _ in range(d.count(10) + 3)]
    else:
        ps.append(op("open", data(r, r.choice([0, 1, 2, 3, 4, 5, 20, 60]))))
        ps += [op(r.choice(["readc", "peekc", "read16", "read32", "ended"])) for _ in range(n)]
    return k, ps


KINDS = ["mem", "sb", "rs", "rf", "rd", "ws", "wf", "wd", "ew", "er", "bw", "br", "lr", "by"]


def check(c):
    cases = []
    depth = {"mem": 4, "rs": 4, "rf": 4, "ws": 5, "bw": 5, "lr": 5}

    def mc(k):
        return k, vlib.tlc("StreamsMC", spec="Spec", consts={"K": '"%s"' % k, "Depth": depth[k] + c.n(0, 1)},
                           inv=["WrLaw", "BitLaw", "MemLaw", "LrLaw", "EndLaw", "EmitRes"], workers=2)
    for k, t in vlib.pmap(mc, list(depth), 4):
        c.model(t, "StreamsMC %s: all histories up to depth %d" % (k, depth[k] + c.n(0, 1)))
        cases += [(k, x["ps"], x["o"]) for x in vlib.tlc_lines(t, "RES")]
    c.cov["exhaustive_histories"] = len(cases)
    rnd = [gen(c.rng, k) for k in KINDS for _ in range(c.n(40, 500))]
    cases += adt.evaluate(c, "StreamsEval", rnd)
    adt.replay(c, "streams", cases)
    c.assumptions += ["memory and disk are not exhausted", "the driver runs address-sanitized, so an access outside a buffer is a violation",
                      "a reader signals its end by a result that is not positive (the library uses both 0 and negative)"]
