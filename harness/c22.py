"""C22: HTTP, CGI, XML, SRT, VTT and cue documents are read as written, and bad ones end in an error."""
import re
import vlib
import adt
from adt import op


def w(s):
    return list(s.encode("latin1")) if isinstance(s, str) else list(s)


def word(r, alph, ns):
    return "".join(r.choice(alph) for _ in range(r.choice(ns)))


def headers(r, n=None):
    hs = []
    for _ in range(r.choice([0, 1, 2, 3, 8]) if n is None else n):
        name = r.choice(["Host", "Content-Type", "X", "Accept-Language", word(r, "aB-1 .\xff", [1, 2, 9])])
        val = r.choice(["", "x", "a b", "a: b", "text/html; q=1", ":", " ", word(r, "ab:; ,=\t\xe9\xff", [1, 3, 20, 60])])
        hs.append((name, val))
    return hs


def request(r):
    m = r.choice(["GET", "POST", "HEAD", "get", "X", "DELETE", "VERYLONGM", "VERYLONGME", ""])
    path = r.choice(["/", "/a", "/a/b.html", "//", "/a/", "*", "a", "", "/a.b/c", "/" + word(r, "ab/.%\xff-_", [1, 5, 20])])
    q = r.choice(["", "", "?", "?a=1", "?a=1&b=2", "?a?b", "??", "?" + word(r, "ab=&/?\xff", [1, 5, 20])])
    v = r.choice(["HTTP/1.0", "HTTP/1.1", "HTTP/1.1", "H", "HTTP/1.12", "HTTP/1.123", ""])
    s = "%s %s%s %s\r\n" % (m, path, q, v)
    for n, x in headers(r):
        s += "%s: %s\r\n" % (n, x)
    return s + "\r\n" + r.choice(["", "", "body", "GET / HTTP/1.0\r\n\r\n"])


def response(r):
    s = r.choice(["HTTP/1.0", "HTTP/1.1", "HTTP/1.1", "HTTP/1.2", "HTTP/2.0"]) + " " + r.choice(["200", "404", "500", "000", "999", "20", "2000", "abc"]) + " "
    s += r.choice(["OK", "Not Found", "", "x y z"]) + "\r\n"
    body = word(r, "ab\r\n\xff", [0, 1, 5, 100, 500, 999, 1000, 1001] if r.random() < 0.3 else [0, 1, 5, 30])
    hs = [h for h in headers(r) if h[0] not in ("Content-Length", "Connection")]
    x = r.random()
    if x < 0.6:
        n = len(body) if r.random() < 0.8 else r.choice([0, 1, len(body) + 1, max(0, len(body) - 1), 999, 1000, 100000])
        hs.insert(r.randrange(len(hs) + 1), ("Content-Length", str(n)))
    if x > 0.5 and x < 0.95:
        hs.insert(r.randrange(len(hs) + 1), ("Connection", r.choice(["close", "close", "close", "keep-alive", ""])))
    for n, v in hs:
        s += "%s: %s\r\n" % (n, v)
    return s + "\r\n" + body


def bend(r, s, alph):
    """s with a few changes."""
    s = list(s)
    for _ in range(r.choice([1, 1, 2, 3])):
        i = r.randrange(len(s) + 1)
        x = r.random()
        if x < 0.3:
            s = s[:i]
        elif x < 0.5:
            del s[i:i + 1]
        elif x < 0.75:
            s[i:i] = [r.choice(alph)]
        else:
            s[i:i + 1] = [r.choice(alph)]
    return "".join(s)


def tree(r, d):
    kids = [] if d == 0 else [tree(r, d - 1) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    return (word(r, "abX", [1, 1, 3, 15]), [(word(r, "kvZ", [1, 1, 2, 15]), word(r, "a <>='/\n\xe9\xff", [0, 1, 5, 40])) for _ in range(r.choice([0, 0, 1, 2, 5]))], kids)


def xmltext(r, t):
    sp = lambda: r.choice(["", "", " ", "\n", "\t", "\r\n  "])
    name, at, kids = t
    s = "<" + name + "".join(r.choice([" ", "\n", "  "]) + n + '="' + v + '"' for n, v in at) + sp()
    if not kids and r.random() < 0.5:
        return s + "/>" + sp()
    return s + ">" + sp() + "".join(xmltext(r, k) for k in kids) + "</" + name + ">" + sp()


def xmldoc(r, d):
    return r.choice(["", " ", "\n"]) + r.choice(['<?xml version="1.0"?>', "<??>", "<?x?>"]) + r.choice(["", "\n", "  \n"]) + xmltext(r, tree(r, d))


def xmlwalk(r, n, doc=""):
    names = re.findall(r'([A-Za-z]+)="', doc)
    ps = []
    for _ in range(n):
        ps += [op("name")]
        if r.random() < 0.5:
            x = r.choice(names or ["k"])
            ps.append(op("attr", w(r.choice([word(r, "kvZ", [1, 1, 2]), x, x, x[:-1] or "k", x + "k", (x[:-1] + "Z")]))))
        ps.append(op(r.choice(["enter", "enter", "next", "next", "leave"])))
    return ps + [op("name")]


def clock(r, sep):
    return "%02d:%02d:%02d%s%03d" % (r.choice([0, 0, 1, 12, 99]), r.randrange(60) if r.random() < 0.9 else r.randrange(60, 100), r.randrange(60) if r.random() < 0.9 else r.randrange(60, 100), sep, r.choice([0, 1, 10, 99, 100, 999]))


def srt(r):
    s = r.choice(["", "", "\n", " \n\n"])
    for i in range(r.choice([0, 1, 2, 3, 5])):
        s += "%d\n" % r.choice([i + 1, i + 1, 1, 10, 99999])
        s += clock(r, ",") + " --> " + clock(r, ",") + r.choice(["", "", " ", "  X1:1"]) + "\n"
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            s += r.choice(["hello", "12", "2024", "a -> b", "- x", "", " ", "7 dwarfs", "7  ", "  pad", "<i>x</i>", word(r, "ab 1\xe9\xff", [1, 10, 60]), word(r, "ab 1", [100, 300])]) + "\n"
        s += r.choice(["\n", "\n", "", "\n\n"])
    if r.random() < 0.3:
        s = s.rstrip("\n")
    if r.random() < 0.3:
        s = s.replace("\n", "\r\n")
    return s


def vtt(r):
    s = r.choice(["WEBVTT"] * 8 + ["WEBVTT ", "webvtt", ""]) + "\n"
    for _ in range(r.choice([0, 0, 1, 2])):
        s += r.choice(["Kind: captions", "Language: en", "a: ", "X-Y: a: b", "nocolon"] if r.random() < 0.2 else ["Kind: captions", "Language: en"]) + "\n"
    s += "\n"
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        s += r.choice(["", "", "\n"])
        s += clock(r, ".") + r.choice([" --> "] * 12 + ["-->", " -> "]) + clock(r, ".") + r.choice(["", "", " align:start position:0%", " x", "x"]) + "\n"
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            s += r.choice(["hello", "a<00:00:01.000>b", "<c>x</c> y", "<", ">", "a < b", " ", "  pad  ", word(r, "ab<> \xe9\xff", [1, 10, 60]), word(r, "ab ", [90, 99, 100, 101, 200, 1000])]) + "\n"
        s += r.choice(["\n", "\n", "\n\n"])
    if r.random() < 0.3:
        s = s.rstrip("\n")
    if r.random() < 0.3:
        s = s.replace("\n", "\r\n")
    return s


def cue(r):
    ls = []
    q = lambda: '"' + word(r, "ab c'\xe9\xff", [0, 1, 10, 30, 98, 99, 100] if r.random() < 0.2 else [0, 1, 10]) + '"'
    for _ in range(r.choice([0, 0, 1, 2])):
        ls.append(r.choice(["REM GENRE x", 'REM "a', "PERFORMER " + q(), "TITLE " + q(), "FILE " + q() + " WAVE"]))
    for i in range(r.choice([0, 1, 2, 3, 12] + ([98, 99, 100, 101] if r.random() < 0.05 else []))):
        ls.append("  TRACK %02d AUDIO" % (i + 1))
        for _ in range(r.choice([0, 1, 2])):
            ls.append("    " + r.choice(["TITLE " + q(), "TITLE " + q(), "PERFORMER " + q(), "REM x y"]))
        if r.random() < 0.3:
            ls.append("    INDEX 00 %02d:%02d:%02d" % (r.randrange(100), r.randrange(60), r.randrange(75)))
        if r.random() < 0.9:
            ls.append("\t INDEX 01 %02d:%02d:%02d" % (r.choice([0, 1, 59, 60, 99, 100, 999]), r.randrange(60), r.choice([0, 1, 2, 37, 74, r.randrange(75)])))
    if r.random() < 0.1:
        ls.insert(r.randrange(len(ls) + 1), r.choice(["INDEX 01 00:00:00", "INDEX 02 00:01:00", "NONSENSE x", "TRACK x AUDIO", "TITLE x", "INDEX x", 'TITLE "' + "a" * 100 + '"']))
    s = "\n".join(ls) + r.choice(["\n", "\n", ""])
    if r.random() < 0.3:
        s = s.replace("\n", "\r\n")
    return s


def check(c):
    r = c.rng
    t = vlib.tlc("DocsMC", spec="Spec", consts={"Big": "TRUE" if c.thorough else "FALSE"}, inv=["HttpLaw", "XmlPlace", "XmlLaw", "SrtLaw"], props=["XmlDown"], workers=vlib.NPROC, timeout=800)
    c.model(t, "DocsMC: small requests, trees, subtitles")
    cases = []
    add = lambda k, *ps: cases.append((k, list(ps)))
    # http
    for _ in range(c.n(300, 5000)):
        s = request(r)
        add("http", op("request", w(s)))
        if r.random() < 0.6:
            add("http", op("request", w(bend(r, s, "\r\n: ?/a"))))
    s = "POST /a/b?c=d HTTP/1.1\r\nHost: x\r\nA: \r\n\r\nbody"
    for k in range(len(s) + 1):
        add("http", op("request", w(s[:k])))
    for n in (1, 9, 10, 50, 98, 99, 100, 101, 130):
        add("http", op("request", w("GET / HTTP/1.0\r\n" + "".join("H%d: %d\r\n" % (i, i) for i in range(n)) + "\r\n")))
    for n in (1000, 1021, 1022, 1023, 1024, 1025, 1026, 3000, 4095, 4096, 4097):
        add("http", op("request", w("GET /" + "a" * (n - 1) + " HTTP/1.0\r\n\r\n")))
        add("http", op("request", w("GET /?" + "a" * (n - 2) + " HTTP/1.0\r\n\r\n")))
        add("http", op("request", w("GET / HTTP/1.0\r\nA: " + "v" * n + "\r\nB: 1\r\n\r\n")))
        add("http", op("request", w("GET / HTTP/1.0\r\n" + "n" * n + ": v\r\nB: 1\r\n\r\n")))
        add("http", op("response", w("HTTP/1.0 200 OK\r\nConnection: close\r\nA: " + "v" * n + "\r\nB: 1\r\n\r\nx")))
        add("http", op("response", w("HTTP/1.0 200 OK\r\n" + "n" * n + ": v\r\nConnection: close\r\n\r\nx")))
        add("http", op("response", w("HTTP/1.0 200 " + "n" * n + "\r\nConnection: close\r\n\r\nx")))
    for _ in range(c.n(300, 5000)):
        s = response(r)
        add("http", op("response", w(s)))
        if r.random() < 0.4:
            add("http", op("response", w(bend(r, s, "\r\n: 2a"))))
    for n in (98, 99, 100):
        add("http", op("response", w("HTTP/1.1 200 OK\r\n" + "".join("H%d: %d\r\n" % (i, i) for i in range(n)) + "Content-Length: 3\r\n\r\nabc")))
    for m in ["GET", "get", "gEt", "POST", "Post", "HEAD", "head", "PUT", "", "GE", "GETS", " GET", "HEADER", "POS"]:
        add("http", op("method", w(m)))
    for _ in range(c.n(150, 2000)):
        ps = [op("new", r.choice([1, 2, 3]), w(r.choice(["/", "/a/b", "/x.html", "/" + "p" * r.choice([10, 500, 1022, 1023]), ""])))]
        for _ in range(r.choice([0, 1, 3, 6])):
            x = r.random()
            if x < 0.4:
                ps.append(op("param", w(word(r, "abN_", [1, 1, 4])), [r.choice(b"aZ09 -_.~&=/+%\xff\x01\x00") for _ in range(r.choice([0, 1, 5, 30, 400]))]))
            elif x < 0.8:
                ps.append(op("header", w(r.choice(["Host", "A", "host", "B-c"])), w(word(r, "ab: \xff", [0, 1, 9]))))
            else:
                ps.append(op("get", w(r.choice(["Host", "A", "host", "B-c", "Z"]))))
            if r.random() < 0.2:
                ps.append(op("write"))
        ps += [op("get", w("A")), op("write")]
        add("http", *ps)
    new = op("new", 1, w("/"))
    for n in (1022, 1023, 1024, 2000):
        add("http", new, op("header", w("h" * n), w("x")), op("header", w("a"), w("v" * n)), op("get", w("a")), op("write"))
        add("http", new, op("param", w("a" * n), w("x")), op("write"))
        add("http", new, op("param", w("a"), w("x" * n)), op("write"))
        add("http", new, op("param", w("a"), w("/" * min(n, 1024))), op("write"))
        add("http", op("new", 2, w("/" + "p" * n)), op("write"))
    for n in (99, 100, 101):
        add("http", new, *[op("header", w("h%d" % i), w("%d" % i)) for i in range(n)], op("get", w("h98")), op("get", w("h99")), op("write"))
        add("http", new, *[op("param", w("h%d" % i), w("%d" % i)) for i in range(n)], op("write"))
    for m in (0, 4, -1):
        add("http", op("new", m, w("/")))
    # cgi
    for _ in range(c.n(300, 4000)):
        nl = r.choice(["\n", "\n", "\r\n"])
        s = "".join(n + ":" + r.choice([" ", "", "  ", "\t"]) + v + nl for n, v in headers(r, r.choice([1, 1, 2, 4]))) + nl + r.choice(["", "body", "a: b\n\n", "\n", "\r\n\r\n"])
        add("cgi", op("head", w(s)))
        if r.random() < 0.5:
            add("cgi", op("head", w(bend(r, s, "\r\n: a"))))
    s = "Status: 200\r\nA:b\r\n\r\nx"
    for k in range(len(s) + 1):
        add("cgi", op("head", w(s[:k])))
    for n in (998, 999, 1000, 1001, 3000):
        add("cgi", op("head", w("a: " + "v" * n + "\n\n")))
        add("cgi", op("head", w("n" * n + ": v\nb: c\n\n")))
    for n in (50, 99, 100, 101, 130):
        add("cgi", op("head", w("".join("H%d: %d\n" % (i, i) for i in range(n)) + "\nbody")))
    # xml
    docs = []
    for _ in range(c.n(200, 3000)):
        s = xmldoc(r, r.choice([0, 1, 2, 3, 3, 4]))
        docs.append(s)
        for _ in range(2):
            add("xml", op("open", w(s)), *xmlwalk(r, r.choice([3, 8, 20]), s))
    for n in (14, 15):
        add("xml", op("open", w("<?x?><%s %s=\"v\"/>" % ("n" * n, "a" * n))), op("name"), op("attr", w("a" * n)))
    for n in (63, 64):
        add("xml", op("open", w("<?x?><a" + "".join(" %s=\"%d\"" % (chr(97 + i // 26) + chr(97 + i % 26), i) for i in range(n)) + "/>")), op("attr", w("aa")), op("attr", w("ck")), op("attr", w("cl")))
    for n in (4000, 4095):
        add("xml", op("open", w("<?x?><a b=\"%s\"/>" % ("v" * n))), op("attr", w("b")))
    for d in (3, 4, 5, 6):
        s = "<?x?><r>" + "<a>" * (d - 1) + "</a>" * (d - 1) + "<z/></r>"
        add("xml", op("open", w(s)), *[op("enter")] * d)
        add("xml", op("open", w(s)), op("next"), op("name"))
        add("xml", op("open", w(s)), op("enter"), op("next"), op("name"), op("leave"), op("name"))
        add("xml", op("open", w(s)), op("leave"), op("name"))
    # subtitles
    for _ in range(c.n(300, 4000)):
        s = srt(r)
        n = s.count("-->") + 2
        add("srt", op("open", w(s)), *[op("read")] * n)
        if r.random() < 0.3:
            s = bend(r, s, "\n 1a>")
            add("srt", op("open", w(s)), *[op("read")] * n)
    for n in (900, 998, 999, 1000, 1001, 3000):
        for e in ("\n", "\n\n"):
            h = "1\n00:00:01,000 --> 00:00:02,000\n"
            add("srt", op("open", w(h + "t" * n + e)), op("read"), op("read"))
            add("srt", op("open", w(h + "t" * (n // 2) + "\n" + "u" * (n - n // 2 - 1) + e)), op("read"), op("read"))
    for _ in range(c.n(300, 4000)):
        s = vtt(r)
        n = s.count("-->") + 2
        ps = [op("open", w(s))]
        for _ in range(n):
            ps += [op("read"), op("err")]
        add("vtt", *ps)
        if r.random() < 0.3:
            s = bend(r, s, "\n 1a>")
            add("vtt", op("open", w(s)), *[op("read"), op("err")] * n)
    for n in (97, 98, 99, 100, 101, 102, 199, 200, 201, 399, 400, 401, 1000, 4000):
        for k in (1, 2, 3):
            h = "WEBVTT\n\n00:00:01.000 --> 00:00:02.000\n"
            add("vtt", op("open", w(h + ("t" * n + "\n") * k + "\n" + h[8:] + "x\n")), op("read"), op("read"), op("read"))
    for n in (100, 900, 990, 1000, 1100, 4000):
        add("vtt", op("open", w("WEBVTT\n\n" + "b" * n + "\nx\n")), op("read"), op("err"), op("read"), op("err"))
        add("vtt", op("open", w("WEBVTT\n" + "b" * n + "\n\n")), op("read"), op("err"))
    for _ in range(c.n(250, 3000)):
        s = cue(r)
        add("cue", op("parse", w(s)))
        if r.random() < 0.2:
            add("cue", op("parse", w(bend(r, s, "\n 1a:\""))))
    for f in range(75):
        add("cue", op("parse", w("TRACK 1 AUDIO\nINDEX 01 00:%02d:%02d\n" % (f % 60, f))))
    for n in (97, 98, 99, 100, 101, 300):
        add("cue", op("parse", w('TRACK 1 AUDIO\nTITLE "' + "t" * n + '"\nINDEX 01 00:00:00\n')))
        add("cue", op("parse", w('PERFORMER "' + "t" * n + '"\nTRACK 1 AUDIO\nINDEX 01 00:00:00\n')))
    for n in (99, 100, 101):
        add("cue", op("parse", w("".join("TRACK %02d AUDIO\nTITLE \"%d\"\nINDEX 01 %02d:00:00\n" % (i, i, i) for i in range(n)))))

    def judged(cs):
        out = []
        for k, q, o in adt.evaluate(c, "DocsEval", cs, mem="3g"):
            n = next((i for i in range(len(q)) if o[i] == [{"n": -1}]), len(q))
            c.cov["not_judged"] = c.cov.get("not_judged", 0) + len(q) - n
            out.append((k, q[:n], o[:n]))
        return out
    adt.replay(c, "docs", judged(cases), batch=60, dead="")
    # documents that are not well formed: whatever is answered, no crash and an end
    prog = vlib.build_driver("docs", "asan")
    bad = []
    for s in docs + ["<?x?><a><b>", "<?x?><a", "<?x", "", "<?x?><a></b>", "<?x?><a b=\"", "<?x?>" + "<a>" * 40, "<?x?><a " + "n" * 40 + "=\"v\"/>", "<?x?><" + "n" * 40 + "/>",
                     "<?x?><a b=\"" + "v" * 9000 + "\"/>", "<?x?><a " + " ".join("k=\"v\"" for _ in range(90)) + "/>"]:
        k = "".join
        s2 = bend(r, s, "<>/=\" a\n") if s in docs and r.random() < 0.9 else s
        bad.append(["xml new", adt.line("xml", op("open", w(s2)))] + [adt.line("xml", p) for p in xmlwalk(r, 12)] + ["xml free"])

    def one(ls):
        out, res = vlib.drive(prog, ls, timeout=30, cwd=vlib.tmpdir("dr"))
        err = res.err.decode("utf8", "replace")
        if res.timeout or "Sanitizer" in err or res.rc not in (0, 1):
            return ls, "a malformed document: status %s%s %s" % (res.rc, " (no end)" if res.timeout else "", err[:300])
    for x in vlib.pmap(one, bad):
        if x and len(c.viol) < 6:
            c.violation("xml: " + x[1], {"lines": x[0]})
    c.cov["cases"] += len(bad)
    c.traces(len(bad))
    c.assumptions += ["texts without NUL bytes", "lines of at most about 4090 bytes in subtitles", "headers without a colon on the line, timestamps of other shapes and malformed XML are only checked for a clean end"]
