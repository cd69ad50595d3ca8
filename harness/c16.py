"""C16: compression: LZW and Huffman give back what was put in."""
import random
import vlib
import adt
from adt import op


def canon(r):
    """length counts of a prefix code (complete or not) and its values"""
    leaves = [0]
    want = r.choice([1, 2, 3, 6, 12, 40, 120])
    depth = r.choice([4, 8, 12, 16])
    while len(leaves) < want:
        k = [i for i, d in enumerate(leaves) if d < depth]
        if not k:
            break
        i = r.choice(k)
        leaves += [leaves[i] + 1] * 2
        del leaves[i]
    leaves = [max(1, d) for d in leaves]
    if r.random() < 0.5 and len(leaves) > 1:
        for _ in range(r.choice([1, 2, 5])):
            if len(leaves) > 1:
                leaves.pop(r.randrange(len(leaves)))
    cnt = [leaves.count(d) for d in range(1, max(leaves) + 1)]
    vals = r.sample(range(256), len(leaves))
    return cnt, vals


def text(r, a, n):
    k = r.random()
    if k < 0.3:
        return [r.randrange(a) for _ in range(n)]
    if k < 0.5:
        return [(a - 1) if r.random() < 0.9 else r.randrange(a) for _ in range(n)]
    if k < 0.7:
        p = r.randrange(1, 6)
        w = [r.randrange(a) for _ in range(p)]
        return [w[i % p] for i in range(n)]
    out = []
    while len(out) < n:
        out += [r.randrange(a)] * r.choice([1, 1, 2, 5, 20])
    return out[:n]


def check(c):
    r = c.rng
    inv = ["RoundTrip", "RunLaw", "Fits", "Optimal", "PrefixFree", "Decodes"]
    runs = []
    for a in (1, 2, 3):
        for room in (1, 2, 3, 5):
            for lim in (1, 2, 3, 9):
                runs.append(("lzw", a, {1: 14, 2: c.n(7, 11), 3: c.n(5, 7)}[a], room, lim))
    runs += [("run", a, 40, room, lim) for a in (1, 2, 3, 5, 6, 7, 13) for room in (1, 3, 6) for lim in (3, 50)]
    if not c.thorough:
        runs = [x for x in runs if x[0] == "run" or x[1:] in ((1, 14, 2, 3), (2, 7, 1, 2), (2, 7, 1, 9), (2, 7, 2, 3), (2, 7, 5, 2), (2, 7, 5, 9), (3, 5, 1, 3), (3, 5, 5, 9))]
        runs = runs[:8] + random.Random(5).sample(runs[8:], 8)
    runs += [("huff", 4, c.n(5, 6), 0, 0), ("canon", 3, c.n(4, 5), 0, 0)]

    def mc(x):
        return vlib.tlc("CompressMC", spec="Spec", inv=inv, workers=1, timeout=800, mem="2g",
                        consts={"Mode": '"%s"' % x[0], "A": x[1], "L": x[2], "Room": x[3], "Lim": x[4]})
    for x, t in zip(runs, vlib.pmap(mc, runs)):
        c.model(t, "CompressMC %s alphabet=%d length=%d room=%d wordlimit=%d" % x)
    cases = []
    # every alphabet size with the first codes, where widths change
    for a in range(1, 257):
        cases.append(("z", [op("lzw", a, 5, []), op("lzw", a, 5, [a - 1]), op("lzw", a, 5, text(r, a, r.choice([2, 3, 4])))]))
    for a in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15, 16):
        for n in range(c.n(20, 60)):
            cases.append(("z", [op("lzw", a, r.choice([1, 2, 3, 7, 100, 5000]), [i % a for i in range(n)]), op("lzw", a, 7, [0] * n), op("lzw", a, 1, text(r, a, n))]))
    for _ in range(c.n(150, 2500)):
        a = r.choice([1, 2, 3, 7, 9, 15, 16, 31, 32, 61, 63, 64, 100, 126, 127, 128, 254, 255, 256])
        cases.append(("z", [op("lzw", a, r.choice([1, 3, 100, 4095, 4096, 9000]), text(r, a, r.choice([5, 20, 60, 150])))]))
    cases += [("z", [op("lzwrun", a, st, n)]) for a, st, n in ((1, 4096, 34000), (2, 500, 5000), (256, 4096, 70000), (256, 4000, 1000000), (255, 1000, 600000))]
    # Huffman
    for n in (0, 1, 2, 9):
        cases.append(("z", [op("huff", [97] * n)]))
    cases.append(("z", [op("huff", list(range(1, 256)))]))
    cases.append(("z", [op("huff", [255, 1])]))
    for _ in range(c.n(150, 2000)):
        k = r.choice([2, 2, 3, 4, 8, 30, 255])
        al = r.sample(range(1, 256), k)
        cases.append(("z", [op("huff", [r.choice(al[:r.randrange(1, k + 1)]) for _ in range(r.choice([2, 5, 20, 60, 200]))])]))
    for _ in range(c.n(150, 2000)):
        cnt, vals = canon(r)
        msg = [r.choice(vals) for _ in range(r.choice([0, 1, 5, 30]))]
        cases.append(("z", [op("canon", cnt, vals, msg)]))
    for _ in range(c.n(60, 500)):
        cnt, vals = canon(r)
        cases.append(("z", [op("cread", cnt, vals, [r.randrange(256) for _ in range(r.choice([1, 1, 2, 4]))])]))
    cases += [("z", [op("canon", [0] * 15 + [200], list(range(200)), [0, 199, 100])])]
    cases += [("z", [op("canon", [0] * 15 + [255], list(range(255)), [0, 254, 100])])]
    ev = adt.evaluate(c, "CompressEval", cases)
    adt.replay(c, "compress", ev, batch=60)
    # beyond what TLC evaluates: the law itself (RoundTrip) on large data
    big = []
    for a, step, kind, n in [(256, 4096, 0, 40000), (256, 1000, 0, 9000), (256, 5000, 1, 30000), (16, 77, 1, 60000), (2, 4096, 1, 30000), (255, 4096, 1, 9000),
                             (127, 1, 2, 20000), (256, 4096, 3, 200000), (8, 33, 4, 60000), (1, 4096, 0, 50000), (5, 4096, 1, 100000), (256, 4096, 4, 50000)]:
        big.append(("z", [op("lzwbig", a, step, kind, n)], [[{"n": 1}]]))
    if c.thorough:
        for a in range(1, 257):
            big.append(("z", [op("lzwbig", a, 4096, r.choice([1, 2, 4]), 20000)], [[{"n": 1}]]))
    for k in (16, 17, 18, 20, 22):
        big.append(("z", [op("huffbig", k)], [[{"n": 1}]]))
    adt.replay(c, "compress", big, batch=1)
    huge = adt.evaluate(c, "CompressEval", [("z", [op("lzwrun", 256, 4096, 9000000)]), ("z", [op("lzwrun", 1, 4096, 9000000)])])
    huge += [("z", [op("huffbig", k)], [[{"n": 1}]]) for k in (27,) + ((33,) if c.thorough else ())]
    adt.replay(c, "compress", huge, batch=1, shim=None, timeout=400)
    # a damaged stream: data or a panic, never a memory error
    prog = vlib.build_driver("compress", "asan")
    jobs = []
    for i in range(c.n(60, 600)):
        a = r.choice([1, 2, 8, 256])
        n = r.choice([0, 1, 3, 20, 200])
        jobs.append("z unlzw %d %d %s" % (a, r.choice([1, 100]), vlib.hx([r.choice([0, 255, r.randrange(256)]) for _ in range(n)])))
    # codes that name the next entry over and over: words as long as they get
    for a, stale in ((2, False), (256, False), (2, True), (256, True)):
        bits, size, prev = [], a + 2, False

        def put(code, size):
            w, top = 1, 1
            while top < size - 1:
                w, top = w + 1, top * 2
            for k in range(w):
                bits.append(code >> k & 1)
        put(0, size)
        for _ in range(9000):
            put(size, size + 1)
            size += 1
            if stale and prev:
                put(999 if a == 256 else 7, size + 1)
                break
            if size >= 4095:
                put(a, size + 1)
                size = a + 2
                prev = True
        bits += [0] * (-len(bits) % 8)
        jobs.append("z unlzw %d 4096 %s" % (a, vlib.hx([sum(bits[i + k] << k for k in range(8)) for i in range(0, len(bits), 8)])))

    def dmg(j):
        return vlib.drive(prog, [j])
    for j, res in zip(jobs, vlib.pmap(dmg, jobs)):
        out, p = res
        if not (p.rc == 0 or (p.rc == 1 and b"panic at" in p.err and b"Sanitizer" not in p.err)):
            c.violation("decoding a damaged LZW stream ended with status %s: %s" % (p.rc, p.err[-300:].decode("latin1")), {"line": j[:2000]})
    c.traces(len(jobs))
    c.cov["damaged_streams"] = len(jobs)
    c.assumptions += ["texts beyond a few hundred bytes are compared by the driver (law RoundTrip of the model), not evaluated by TLC", "input bytes lie in the alphabet"]
