"""C06: the text of a program: comments and blanks separate tokens and mean nothing else, literals denote what they spell."""
import os, re
import vlib

COMMENTS = ["/* c */", "/**/", "/* \" */", "/* ' */", "/* // */", "/***/", "/* * / */", "/*\n*/", "/* /* */",
            "// line\n", "// \" quote\n", "// /* \n", "// ' \n", "// tail \\\n", "//\n", "/* a\n b\n\tc */", "/* }{ ); */", "// */ \n",
            "/* é ☃ */", "/*/ */", "/*/*/", "/*/ x /*/", "/****/", "/**/ /*/*/", "/* **/", "/*\"/*/", "/*\\*/", "///*\n", "/*//*/"]
BLANKS = [" ", "\t", "\n", "  ", "\r\n", " \n\t "]


def noise(r, p=0.5):
    if r.random() > p:
        return r.choice(["", "", " "])
    return "".join(r.choice(COMMENTS if r.random() < 0.5 else BLANKS) for _ in range(r.randrange(1, 4)))


PIECES = ["a", "Z", "0", "9", "7", "x", "e", "F", " ", "\t", "/", "*", "//", "/*", "*/", "'", "%", "%d", "#", "{", "}", ";", ",", "(", ")",
          "é", "☃", "𝄞", "\n", "\n", "~", "?", "&", "|", "<", "=",
          "\\n", "\\t", "\\r", "\\\\", "\\\"", "\\'", "\\a", "\\b", "\\f", "\\v", "\\?", "??", "??!", "??/", "???=",
          "\\0", "\\1", "\\12", "\\123", "\\377", "\\07", "\\x1", "\\x41", "\\xfF", "\\x0", "\\x00"]


def strpart(r):
    out = ""
    for _ in range(r.choice([0, 1, 1, 2, 3, 5, 9])):
        p = r.choice(PIECES)
        # a hex escape must not run into more than two digits inside one part
        if re.search(r"\\x[0-9a-fA-F]*$", out) and p[0] in "0123456789abcdefABCDEF":
            continue
        out += p
    return out


def strlit(r):
    parts = ['"%s"' % strpart(r) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
    s = parts[0]
    for p in parts[1:]:
        s += "".join(r.choice(BLANKS) for _ in range(r.randrange(0, 3))) + p
    return s


def chrlit(r):
    c = r.choice(list("aZ09 /*\"#%{};~") + ["\\n", "\\t", "\\r", "\\\\", "\\'", "\\\"", "\\0", "\\7", "\\a", "\\b", "\\f", "\\v"])
    return "'%s'" % c


def numlit(r):
    k = r.random()
    if k < 0.25:
        return str(r.choice([0, 1, 7, 10, 99, 1000, 65535, 999999999, r.randrange(10 ** 9)]))
    if k < 0.45:
        v = r.choice([0, 1, 10, 255, 0xABC, 0xE5, 0x1E5, 0x7fffff, r.randrange(2 ** 23)])
        return (r.choice(["0x%x", "0x%X", "0x%06x"]) % v)
    if k < 0.55:
        return "%d%s" % (r.randrange(10 ** 6), r.choice(["U", "L", "UL", "ULL", "LL"]))
    if k < 0.6:
        return "0%o" % r.randrange(1, 8 ** 6)
    if k < 0.7:
        return str(r.randrange(10 ** 10, 9 * 10 ** 18))
    if k < 0.8:
        return "%d.%d" % (r.randrange(2000), r.randrange(1000))
    if k < 0.85:
        return "%d.%d%s" % (r.randrange(100), r.randrange(10), "f")
    m = "%d%s" % (r.randrange(1, 90), r.choice(["", "", ".%d" % r.randrange(10), "."]))
    return m + r.choice("eE") + r.choice(["", "+", "-"]) + r.choice(["0", "1", "2", "02", "03"])


HEAD = """void showb(int id, const char *s, size_t n) {
	printf("%d:", id);
	for (size_t i = 0; i < n; i++) {
		uint8_t c = (uint8_t) s[i];
		printf(" %d", c);
	}
	puts("");
}
void shown(int id, int64_t n) { printf("%d: %ld\\n", id, n); }
void showf(int id, double n) { printf("%d: %ld\\n", id, (int64_t) (n * 1000.0 + 0.04)); }
void showi(int id, int n) { printf("%d: %d\\n", id, n); }
int main() {
"""
TAIL = "\tshowb(-1, \"\", 0);\n\tshown(-1, 0);\n\tshowf(-1, 0.0);\n\tshowi(-1, 0);\n\treturn 0;\n}\n"
FN = {"str": "showb", "chr": "showi", "int": "shown", "big": "shown", "flt": "showf"}


def expect(lit):
    k, v = lit["k"], lit["v"]
    if k == "str":
        return "".join(" %d" % b for b in v + [0])
    if k == "chr":
        return " %d" % (v[0] if v[0] < 128 else v[0] - 256)
    if k == "big":
        return " " + "".join(map(chr, v))
    return " %d" % v[0]


def build_run(src, want_diag=False):
    h = vlib.Home(lib=False)
    with open(h.dir + "/m.c", "wb") as f:
        f.write(src.encode())
    r = h.cmd(["build", "m.c", h.dir + "/p"], cwd=h.dir)
    acc = r.rc == 0 and os.path.exists(h.dir + "/p")
    out = b""
    if acc:
        x = vlib.run([h.dir + "/p"], timeout=20)
        out = x.out
    return acc, out, (r.out + r.err).decode("utf8", "replace")


VARS = ["a", "b", "c"]
OPS = ["+", "-", "*", "<", ">", "<=", ">=", "==", "!=", "&", "|", "^", "&&", "||", "<<", ">>", "=", "+=", "-=", "*=", "&=", "|=", "^=", "<<=", ">>="]


def opexpr(r, d):
    if d == 0 or r.random() < 0.25:
        k = r.random()
        if k < 0.5:
            return [r.choice(VARS)]
        if k < 0.65:
            return [str(r.randrange(1, 5))]
        if k < 0.75:
            return [r.choice(VARS), r.choice(["++", "--"])]
        if k < 0.85:
            return [r.choice(["++", "--"]), r.choice(VARS)]
        return [r.choice(["-", "!", "~"])] + opexpr(r, 0)
    return opexpr(r, d - 1) + [r.choice(OPS)] + opexpr(r, d - 1)


def optable():
    """Every operator written without blanks, with its value for a = 13, b = 3, c = 2 (and a afterwards)."""
    a, b = 13, 3
    t = []
    for op, f in {"+": a + b, "-": a - b, "*": a * b, "/": a // b, "%": a % b, "<<": a << b, ">>": a >> b, "&": a & b, "|": a | b, "^": a ^ b}.items():
        t.append(("a%sb" % op, f, a))
        t.append(("a%s=b" % op, f, f))
        t.append(("a%s(b)" % op, f, a))
    for op, f in {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}.items():
        t.append(("a%sb" % op, int(f), a))
    t += [("a&&b", 1, a), ("a||b", 1, a), ("a=b", b, b), ("a++", a, a + 1), ("a--", a, a - 1), ("++a", a + 1, a + 1), ("--a", a - 1, a - 1), ("-a", -a, a),
          ("!a", 0, a), ("~a", ~a, a), ("a+++b", a + b, a + 1), ("a---b", a - b, a - 1), ("a- -b", a + b, a), ("a-~b", a + 4, a), ("a+ ++b", a + 4, a), ("a<-b", 0, a),
          ("a>-b", 1, a), ("a&&!b", 0, a), ("a==-b", 0, a), ("a=-b", -b, -b), ("a!=-b", 1, a), ("a<<b>>c", 26, a), ("a&b|c", 3, a), ("*&a", a, a), ("a*(*&b)", a * b, a),
          ("p->x", 7, a), ("(*p).x", 7, a), ("q.x", 7, a), ("&q==p", 1, a), ("a-p->x", a - 7, a), ("a>p->x", 1, a), ("arr[c]", 30, a), ("arr[c-1]++", 20, a), ("-arr[0]", -10, a),
          ("sizeof(a)", 4, a), ("a>=b&&b<=c||a>b", 1, a), ("0x1F&a", 13, a), ("a/1", a, a), ("a%0x5", 3, a)]
    return t


def check(c):
    r = c.rng
    rm = vlib.tlc("CheLexMC", spec="Spec", consts={"N": c.n(5, 6), "Emit": "TRUE"},
                  inv=["Tiling", "CommentIsBlank", "BlankInsensitive", "EmitCase"], timeout=2500)
    c.model(rm, "all texts over 10 characters up to length %d" % c.n(5, 6))
    texts = []
    for s in vlib.tlc_lines(rm, "CASE"):
        texts.append("".join(map(chr, s)))
    c.cov["enumerated_literals"] = len(texts)
    for _ in range(c.n(700, 7000)):
        k = r.random()
        lit = strlit(r) if k < 0.5 else chrlit(r) if k < 0.65 else numlit(r)
        texts.append(noise(r) + lit + noise(r, 0.3))
    cases = [{"id": i, "s": [ord(x) for x in t]} for i, t in enumerate(texts)]
    # diagnostics: an undefined name after arbitrary text
    diags = []
    for k in range(c.n(60, 600)):
        t = ""
        for _ in range(r.randrange(0, 4)):
            t += noise(r, 0.9) + r.choice(["puts(%s)" % strlit(r).replace("\\0", "\\1"), "g()", "showc(%s)" % chrlit(r)]) + noise(r, 0.2) + ";"
        t += noise(r, 0.9) + "showc(" + noise(r, 0.5) + "nosuch" + noise(r, 0.3) + ");"
        diags.append(t)
    dcases = [{"id": len(cases) + i, "s": [ord(x) for x in t]} for i, t in enumerate(diags)]
    # compact operators: same meaning as the token list written apart
    comp = []
    for k in range(c.n(120, 1500)):
        ts = opexpr(r, r.choice([1, 2, 2]))
        t = ts[0]
        for x in ts[1:]:
            t += ("" if r.random() < 0.8 else " ") + x
        comp.append(t)
    comp = [t for t in comp if "//" not in t and "/*" not in t]
    ccases = [{"id": len(cases) + len(dcases) + i, "s": [ord(x) for x in t]} for i, t in enumerate(comp)]
    rs = vlib.tlc("CheLexEval", spec="Spec", inv=["EmitRes"], files={"cases.ndjson": vlib.ndjson(cases + dcases + ccases)}, timeout=1500)
    c.model(rs, "lexing of %d texts" % (len(cases) + len(dcases) + len(ccases)))
    res = {x["id"]: x["toks"] for x in vlib.tlc_lines(rs, "RES")}
    assert len(res) == len(cases) + len(dcases) + len(ccases)
    good = []
    for i, t in enumerate(texts):
        tk = res[i]
        if len(tk) == 1 and tk[0]["k"] in FN and all(v >= 0 for v in tk[0]["v"]) and not (tk[0]["k"] == "chr" and len(tk[0]["v"]) != 1):
            good.append(i)
    c.cov["literals"] = len(good)
    assert len(good) > 0.8 * len(texts), (len(good), len(texts))

    def stmt(i):
        t, l = texts[i], res[i][0]
        f = FN[l["k"]]
        # a trailing line comment must not swallow the rest
        if l["k"] == "str":
            return "\t%s(%d, %s\n, sizeof(%s\n));\n" % (f, i, t, t)
        if l["k"] == "big":
            return "\t%s(%d, %s\n);\n" % (f, i, t)
        return "\t%s(%d, %s\n);\n" % (f, i, t)

    batch = [good[k:k + 25] for k in range(0, len(good), 25)]

    def one(b):
        acc, out, err = build_run(HEAD + "".join(stmt(i) for i in b) + TAIL)
        if not acc:
            # which literal is refused
            for i in b:
                a1, _, e1 = build_run(HEAD + stmt(i) + TAIL)
                if not a1:
                    return i, "a legal literal is refused: %r: %s" % (texts[i], e1[-400:])
            return b[0], "literals accepted one by one are refused together: %s" % err[-400:]
        got = {}
        for line in out.decode("latin1").splitlines():
            k, _, v = line.partition(":")
            got[int(k)] = v
        for i in b:
            if got.get(i) != expect(res[i][0]):
                return i, "the literal %r denotes %r, the program has %r" % (texts[i], expect(res[i][0]), got.get(i))
        return None

    bad = [x for x in vlib.pmap(one, batch) if x]
    for i, why in bad[:3]:
        c.violation(why, {"text": texts[i], "tokens": res[i]})

    def dia(k):
        t = diags[k]
        toks = res[dcases[k]["id"]]
        if any(x["k"] == "err" for x in toks) or any(x["k"] in ("str", "chr") and min(x["v"] + [0]) < 0 for x in toks):
            return None
        at = [x for x in toks if x["k"] == "word" and "".join(map(chr, x["v"])) == "nosuch"]
        if len(at) != 1:
            return None
        pre = "void g() {\n\tputs(\"\");\n}\nvoid showc(int c) { printf(\"%d\", c); }\nint main() {\n"
        src = pre + t + "\n\tg();\n\tshowc(1);\n\treturn 0;\n}\n"
        acc, out, err = build_run(src)
        line = at[0]["line"] + pre.count("\n")
        m = re.search(r"^m\.c:(\d+):(\d+): .*\bnosuch\b", err, re.M)
        if acc or not m:
            return k, "an undefined name at %d:%d was not reported: %s" % (line, at[0]["col"], err[-300:])
        if (int(m.group(1)), int(m.group(2))) != (line, at[0]["col"]):
            return k, "undefined name reported at %s:%s, it is at %d:%d" % (m.group(1), m.group(2), line, at[0]["col"])
        return "ok"

    dr = vlib.pmap(dia, range(len(diags)))
    c.cov["diagnostics"] = sum(1 for x in dr if x == "ok")
    for x in [x for x in dr if x not in (None, "ok")][:2]:
        c.violation(x[1], {"text": diags[x[0]]})

    def cmp(k):
        t = comp[k]
        toks = res[ccases[k]["id"]]
        if any(x["k"] == "err" for x in toks):
            return None
        ws = ["".join(map(chr, x["v"])) if x["k"] in ("word", "sym") else str(x["v"][0]) for x in toks]
        sp = " ".join(ws)

        def prog(e):
            return "int main() {\n\tint a = 5;\n\tint b = 3;\n\tint c = 2;\n\tprintf(\"%%d\", (int)(%s));\n\tprintf(\" %%d %%d %%d\\n\", a, b, c);\n\treturn 0;\n}\n" % e
        # undefined evaluation orders are refused by neither or both; compare what is defined
        a1, o1, e1 = build_run(prog(t))
        a2, o2, e2 = build_run(prog(sp))
        if a1 != a2:
            return k, "%r is %s but %r is %s: %s" % (t, "accepted" if a1 else "refused", sp, "accepted" if a2 else "refused", (e1 + e2)[-300:])
        if a1 and o1 != o2:
            return k, "%r gives %r but %r gives %r" % (t, o1, sp, o2)
        return "acc" if a1 else "rej"

    cr = vlib.pmap(cmp, range(len(comp)))
    c.cov["compact_accepted"] = cr.count("acc")
    c.cov["compact_refused"] = cr.count("rej")
    for x in [x for x in cr if x not in (None, "acc", "rej")][:2]:
        c.violation(x[1], {"text": comp[x[0]]})
    def tab(x):
        e, v, a = x
        src = ("typedef { int x; } s_t;\nint main() {\n\tint a = 13;\n\tint b = 3;\n\tint c = 2;\n\ts_t q = { .x = 7 };\n\ts_t *p = &q;\n\tint arr[] = {10,20,30};\n"
               "\tint v=(int)(%s);\n\tprintf(\"%%d %%d\\n\",v,a);\n\treturn (b+c+p->x+arr[0])*0;\n}\n" % e)
        acc, out, err = build_run(src)
        if not acc:
            return "the expression %s is refused: %s" % (e, err[-300:])
        if out != b"%d %d\n" % (v, a):
            return "%s with a = 13, b = 3, c = 2 gives %r, expected %d with a = %d" % (e, out, v, a)
    ot = optable()
    for why in [x for x in vlib.pmap(tab, ot) if x][:2]:
        c.violation(why, {})
    c.cov["operator_table"] = len(ot)
    c.cov["cases"] += len(good) + len(diags) + len(comp) + len(ot)
    c.traces(len(good) + len(diags) + len(comp))
    for i in good[:1] + good[-2:]:
        c.sample({"text": texts[i], "denotes": res[i]})
