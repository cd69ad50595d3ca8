"""C20: CSV, bencode, torrent and conf data is read as written and malformed data is refused."""
import vlib
import adt
from adt import op


def w(s):
    return list(s.encode("latin1")) if isinstance(s, str) else list(s)


def ben(v):
    if isinstance(v, int):
        return b"i%de" % v
    if isinstance(v, bytes):
        return b"%d:%s" % (len(v), v)
    if isinstance(v, list):
        return b"l" + b"".join(map(ben, v)) + b"e"
    return b"d" + b"".join(ben(k) + ben(x) for k, x in v.items()) + b"e"


def tree(r, depth):
    x = r.random()
    if depth == 0 or x < 0.5:
        if r.random() < 0.4:
            return r.choice([0, 1, -1, 9, 10, -10, 99, 100, 12345678, 2147483647, -2147483648, 2147483648, 4294967296, -5000000000, 10 ** 17 + 1])
        return bytes(r.choice(b"ielde:-0129\xff\x00abc") for _ in range(r.choice([0, 1, 1, 2, 3, 9, 10, 11, 30])))
    if x < 0.75:
        return [tree(r, depth - 1) for _ in range(r.choice([0, 1, 2, 3]))]
    return {bytes([97 + i]) * r.choice([1, 2, 3]) + bytes([i, 255]): tree(r, depth - 1) for i in range(r.choice([0, 1, 2, 3]))}


def walk(r, v, ps):
    """Operations that read v."""
    if r.random() < 0.3:
        ps += [op("pos"), op("type")]
    if r.random() < 0.15:
        ps.append(op("skip"))
        return
    if isinstance(v, int):
        ps.append(op("num"))
    elif isinstance(v, bytes):
        if r.random() < 0.4:
            ps.append(op("strsize"))
        ps.append(op("buf", r.choice([-1, len(v), len(v) + 1, len(v) + 10])))
    else:
        ps += [op("type"), op("enter")]
        for k in v:
            if r.random() < 0.7:
                ps.append(op("more"))
            if isinstance(v, dict):
                ps.append(op("key", r.choice([-1, len(k), len(k) + 5])))
                walk(r, v[k], ps)
            else:
                walk(r, k, ps)
        ps += [op("more"), op("leave")]


def write(v, ps):
    if isinstance(v, int):
        ps.append(op("num", w(str(v))))
    elif isinstance(v, bytes):
        ps.append(op("buf", v))
    else:
        ps.append(op("begin", ord("l" if isinstance(v, list) else "d")))
        for k in v:
            if isinstance(v, dict):
                ps.append(op("buf", k))
                write(v[k], ps)
            else:
                write(k, ps)
        ps.append(op("end"))


ALPH = [97, 98, 32, 44, 34, 10, 13, 92, 255, 39, 59, 128]


def torrent(r):
    sm = lambda n: bytes(r.choice(b"abz ./-09\xc3\xbf") for _ in range(n))
    multi = r.random() < 0.5
    info = {}
    if multi:
        pl = r.choice([1, 7, 16384, 262144])
        files = []
        for _ in range(r.choice([0, 1, 2, 9, 10, 11, 25, 25, 101]) if pl > 7 else r.choice([1, 2])):
            f = {b"length": r.choice([0, 1, 5, 20, 300, 16384]) if pl > 7 else r.choice([0, 1, 7, 8, 30]),
                 b"path": [sm(r.choice([1, 1, 3, 8])).replace(b"/", b"_") for _ in range(r.choice([1, 1, 2, 3]))]}
            if r.random() < 0.05:
                f[b"path"] = [b"p" * 99, b"q" * r.choice([98, 99])]
            files.append(dict(sorted(f.items(), reverse=r.random() < 0.5)))
        total = sum(f[b"length"] for f in files)
        info[b"files"] = files
    else:
        pl, total = r.choice([(1, 3), (7, 14), (16384, 0), (16384, 16384), (16384, 16385), (262144, 999999), (2, 9), (150000000, 3000000000), (199999999, 5000000000), (190000000, 4294967296 + 100), (190000000, 2147483648)])
        info[b"length"] = total
    info[b"name"] = sm(r.choice([0, 1, 10, 50, 199]))
    info[b"piece length"] = pl
    np = (total + pl - 1) // pl
    info[b"pieces"] = bytes(r.randrange(256) for _ in range(20 * np))
    if r.random() < 0.3:
        info[b"private"] = r.choice([0, 1])
    d = {}
    if r.random() < 0.9:
        d[b"announce"] = sm(r.choice([0, 1, 20, 199]))
    if r.random() < 0.3:
        d[b"announce-list"] = [[sm(3)], [sm(2), sm(0)]]
    if r.random() < 0.5:
        d[b"comment"] = sm(r.choice([0, 5, 199]))
    if r.random() < 0.5:
        d[b"created by"] = sm(r.choice([0, 5, 199]))
    if r.random() < 0.7:
        d[b"creation date"] = r.choice([0, 1, 1700000000, 2147483647])
    if r.random() < 0.3:
        d[b"encoding"] = b"UTF-8"
    if r.random() < 0.3:
        d[b"zz-unknown"] = tree(r, 2)
    d[b"info"] = info
    if r.random() < 0.5:
        d = dict(sorted(d.items()))
    return ben(d)


def check(c):
    r = c.rng
    t = vlib.tlc("RecordsMC", spec="Spec", consts={"Big": "TRUE" if c.thorough else "FALSE"}, inv=["CsvLaw", "BenLaw", "EmitRes"], workers=vlib.NPROC, timeout=800)
    c.model(t, "RecordsMC: all small tables and bencode values")
    xs = [x for x in vlib.tlc_lines(t, "RES")]
    cases = []

    def csvcase(rows, lazy=False):
        ps = []
        for row in rows:
            ps += [op("w", v) for v in row] + [op("nl")]
        cases.append(("csvw", ps + [op("dump")]))
        text = b"".join(b",".join(b'"' + bytes(v).replace(b'"', b'""') + b'"' for v in row) + b"\n" for row in rows)
        csvread(text, [len(x) for x in rows], lazy)

    def csvread(text, ns, lazy=False):
        qs = [op("open", text)]
        for n in ns:
            qs += [op("val") for _ in range(n + 1 if not lazy else r.randrange(n + 1))] + [op("next")]
        cases.append(("csv", qs + [op("val"), op("next"), op("val")]))
    tables = [x["v"] for x in xs if x["t"] == "csv"]
    for v in r.sample(tables, min(len(tables), c.n(700, 6000))):
        csvcase(v)
    val = lambda: [r.choice(ALPH) for _ in range(r.choice([0, 0, 1, 2, 3, 8]))]
    for _ in range(c.n(150, 2000)):
        rows = [[val() for _ in range(r.choice([1, 1, 2, 3, 5, 12]))] for _ in range(r.choice([0, 1, 2, 4]))]
        if r.random() < 0.1 and rows:
            rows[0][0] = [r.choice([97, 34, 44]) for _ in range(r.choice([2047, 2048, 4094, 4095, 4096, 4097, 9000]))]
        csvcase(rows, r.random() < 0.3)
    for _ in range(c.n(600, 8000)):         # text not made by the writer
        text = bytes(r.choice(b'ab,,"\n\n\r') for _ in range(r.choice([0, 1, 2, 3, 4, 6, 12])))
        if r.random() < 0.5:
            text = b"\n".join(b",".join(r.choice([b"", b"a", b"b c", b'"q"', b'""', b'"a,b"', b'x"y', b'"\n"', b'"""",', b"\xff"]) for _ in range(r.choice([1, 2, 3, 4]))) for _ in range(r.choice([1, 2, 3])))
            text += r.choice([b"", b"\n", b"\r\n", b"\n\n"])
        if r.random() < 0.3:
            text = text.replace(b"\n", b"\r\n")
        csvread(text, [r.choice([0, 1, 2, 3, 4]) for _ in range(4)])
    for n in (4094, 4095, 4096, 4097, 8191, 8192, 20000):
        csvread(b"x," + b"y" * n + b",z\n", [3])
    # bencode
    docs = [bytes(x["v"]) for x in xs if x["t"] == "ben"]
    for d in r.sample(docs, min(len(docs), c.n(200, 2000))):
        cases.append(("ben", [op("open", d), op("more"), op("type"), op("skip"), op("pos"), op("more"), op("skip"), op("type")]))
    for _ in range(c.n(400, 6000)):
        v = tree(r, r.choice([0, 1, 2, 3, 5]))
        d = ben(v)
        ps = [op("open", d)]
        walk(r, v, ps)
        cases.append(("ben", ps + [op("pos"), op("more"), op("skip")]))
        x = r.random()
        if x < 0.6:      # malformed
            b = bytearray(d)
            for _ in range(r.choice([1, 1, 2])):
                y = r.random()
                i = r.randrange(len(b) + 1)
                if y < 0.4:
                    b = b[:i]
                elif y < 0.7 and i < len(b):
                    b[i] = r.choice(b"0159:eild-x\xff\x00")
                else:
                    b[i:i] = bytes([r.choice(b"0159:eild-x\xff")])
            cases.append(("ben", [op("open", bytes(b))] + ps[1:]))
            cases.append(("ben", [op("open", bytes(b)), op("skip"), op("pos"), op("skip")]))
        ps = [op("fopen", 10 ** 6)] if r.random() < 0.3 else [op("open", r.choice([10 ** 5, 10 ** 5, len(d), len(d), max(0, len(d) - 1), r.randrange(len(d) + 1)]))]
        write(v, ps)
        cases.append(("benw", ps + [op("pos"), op("dump")]))
    for n in ["-9223372036854775808", "9223372036854775807", "1000000000000000000", "-2147483648", "-2147483649", "10", "100", "109", "1000000"]:
        cases.append(("benw", [op("open", 100), op("num", w(n)), op("dump")]))
    for d in (8, 9, 10):
        cases.append(("ben", [op("open", b"l" * d + b"e" * d), op("skip"), op("pos")]))
        cases.append(("ben", [op("open", b"l" * d + b"i5e" + b"e" * d)] + [op("enter")] * d + [op("more"), op("num"), op("more")] + [op("leave")] * d + [op("more")]))
    for d in (1, 5, 10):                # several values in a row, the last one deep
        for pre in ([[]], [[[]], {}], [[1], [2, [3]], b"x"]):
            ps = [op("open", b"".join(map(ben, pre)) + b"l" * d + b"e" * d)]
            for v in pre:
                ps.append(op("more"))
                walk(r, v, ps)
            cases.append(("ben", ps + [op("more")] + [op("enter")] * d + [op("more")] + [op("leave")] * d + [op("more"), op("pos")]))
            cases.append(("ben", ps + [op("skip"), op("pos"), op("more")]))
    for bad in [b"i", b"ie", b"i5", b"i5x", b"i-e", b"5", b"5:", b"5:abcd", b"l", b"li5e", b"d1:a", b"e", b":", b"x", b"-1:a", b"999999999:x", b"99999999999:x", b"\xff", b"l\xffe", b"1\xff", b"d\xff"]:
        for o in (op("skip"), op("buf", 5), op("buf", -1), op("num"), op("enter"), op("type"), op("more"), op("key", 3), op("strsize")):
            cases.append(("ben", [op("open", bad), o, op("pos")]))
    cases.append(("ben", [op("open", b"5:abcde"), op("buf", 4)]))
    cases.append(("ben", [op("open", b"5:abcde"), op("key", 4)]))
    # torrents
    for _ in range(c.n(60, 400)):
        cases.append(("tor", [op("parse", torrent(r))]))
    for _ in range(c.n(40, 300)):
        s = lambda: w("".join(r.choice("abc é/") for _ in range(r.choice([0, 1, 30]))))
        pl, ln = r.choice([(1, 3), (7, 14), (16384, 1), (16384, 32769), (150000000, 3000000000), (199999999, 5000000000), (4, 0)])
        cases.append(("tor", [op("write", s(), s(), s(), w(str(r.choice([0, 1700000000, 2147483647]))), w(str(ln)), s(), pl, [r.randrange(256) for _ in range(20 * ((ln + pl - 1) // pl))])]))
    # conf
    confs = []
    for _ in range(c.n(300, 3000)):
        ls = []
        for _ in range(r.choice([0, 1, 2, 4])):
            k = "".join(r.choice("abk_.-\xff\x80") for _ in range(r.choice([1, 1, 3, 10])))
            v = "".join(r.choice("abv= .;\"\xff\x80") for _ in range(r.choice([1, 2, 5, 20])))
            ls.append(r.choice([k + r.choice([" = ", "=", " =", "= ", " ", "   =   "]) + v + r.choice(["", "", "# c", " # c = d", "#"]), "", "  ", "# comment a = b", "  # x", "\t", k + "=" + v, "  " + k + " = " + v, r.choice([k, k + "=", k + " = ", "= " + v, "#"]) if r.random() < 0.2 else k + " = x"]))
        confs.append("\n".join(ls) + r.choice(["", "\n", "\n\n"]))
    for n, m in ((99, 5), (100, 5), (120, 5), (5, 199), (5, 200), (60, 190), (60, 200), (3, 251), (3, 252), (3, 300), (99, 155), (99, 156)):
        confs.append("a = b\n" + "k" * n + "=" + "v" * m + "\nz = y\n")
        confs.append("k" * n + "=" + "v" * m)
    cc = [("conf", [op("open", w(t))] + [op("next") for _ in range(t.count("\n") + 3)]) for t in confs]

    def judged(cs):
        out = []
        for k, q, o in adt.evaluate(c, "RecordsEval", cs, mem="3g"):
            n = next((i for i in range(len(q)) if o[i] == [{"n": -1}]), len(q))
            c.cov["not_judged"] = c.cov.get("not_judged", 0) + len(q) - n
            out.append((k, q[:n], o[:n]))
        return out
    adt.replay(c, "records", judged(cases), batch=60)
    adt.replay(c, "records", judged(cc), batch=60, dead="")
    c.assumptions += ["text without NUL bytes in CSV and conf", "bencode depth up to ten, numbers of up to 18 digits when read", "CSV text after a closing quote, leading zeros and trailing blanks of conf values are not judged"]
