"""Rendering of abstract module programs (spec/CheModules.tla) as che sources."""
import os, hashlib
import vlib

MODN = ["main", "alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota"] + ["m%d" % i for i in range(10, 40)]


def h(*a):
    return int(hashlib.md5(repr(a).encode()).hexdigest()[:8], 16)


SHAPES = 15


def shape(i, n, salt):
    return h(salt, i, n) % SHAPES


def call(i, n, salt, q):
    """An int-valued expression calling function n of module i, named q here."""
    return {3: "%s(0)", 4: "%s(\"x\", 1, 2)", 5: "(int) strlen(%s())", 6: "%s(1, 2, 3, 4, 5)", 7: "(int) %s()", 8: "%s(NULL)",
            9: "(int) %s(1)", 10: "%s(NULL, 0, 1)", 11: "(int) *%s()", 12: "%s(1, 2, 3, 4, 5, 6, 7, 8, 9)", 13: "(int) **%s()", 14: "%s(1, 2.5, \"q\", 0)"}.get(shape(i, n, salt), "%s()") % q


def before(i, n, salt, v):
    """The constants declared before n in its enum."""
    return [[n + "_before"], [], [n + "_b%d" % j for j in range(4)] if v > 4 else [], [], []][h(salt, i, n) % 5]


def mshape(i, n, salt):
    return h(salt, i, n) % 5


FIELDS = ["n", "get", "size", "MAX", "val", "N", "b", "size__"]


def item_src(i, it, salt, first=False):
    pub = "pub " if it["pub"] else ""
    n, v = it["n"], it["v"]
    k = it["k"]
    if k == "fn":
        m = shape(i, n, salt)
        if m == 4:
            return "%sint %s(const char *f, ...) { if (!f) { return 0; } return %d; }" % (pub, n, v)
        if m == 5:
            return "%sconst char *%s() { return \"%s\"; }" % (pub, n, "a" * v)
        if m == 6:
            return "%sint %s(int a, b, c, d, e) { return %d + a + b + c + d - e - e; }" % (pub, n, v)
        if m == 7:
            return "%sdouble %s() { return %d; }" % (pub, n, v)
        if m == 8:
            return "%sint %s(int *p) { if (p) { return *p; } return %d; }" % (pub, n, v)
        if m == 9:
            return "%suint64_t %s(uint8_t b) { return %d + b - 1; }" % (pub, n, v)
        if m == 10:
            return "%sint %s(const char *s, size_t x, uint32_t k) { if (s) { return (int) x; } return %d + (int) k - 1; }" % (pub, n, v)
        if m == 11:
            return "uint8_t cell_%s[] = { %d };\n%suint8_t *%s() { return cell_%s; }" % (n, v, pub, n, n)
        if m == 12:
            return "%sint %s(%s) { return %d + %s - 45; }" % (pub, n, ", ".join("int %s" % a for a in "abcdefghi"), v, " + ".join("abcdefghi"))
        if m == 13:
            return "uint8_t cell_%s[] = { %d };\nuint8_t *ptr_%s = NULL;\n%suint8_t **%s() { ptr_%s = cell_%s; return &ptr_%s; }" % (n, v, n, pub, n, n, n, n)
        if m == 14:
            return "%sint %s(uint8_t a, double b, const char *c, int d) { if (b > 9.0 || !c) { return 0; } return %d + (int) a - 1 + d; }" % (pub, n, v)
        if m == 3:
            return "%sint %s(int %s) { return %s + %d; }" % (pub, n, n, n, v)
        if m == 0:
            return "%sint %s() { return %d; }" % (pub, n, v)
        if m == 1:
            return "%sint %s() { int r = %d; return r; }" % (pub, n, v)
        return "%sint %s() { for (int i = 0; i < 1; i++) { if (i > 1) { return 0; } } return %d; }" % (pub, n, v)
    if k == "macro":
        return ["#define %s %d" % (n, v), "#define %s (%d)" % (n, v), "#define %s %d // %s again" % (n, v, n),
                "#define %s_base %d\n#define %s (%s_base + 1)" % (n, v - 1, n, n),
                "#define  %s   (%d + (int) sizeof(\"%s\\\" %s\") - %d)" % (n, v, n, n, 2 * len(n) + 3)][mshape(i, n, salt)]
    if k == "const":
        b = before(i, n, salt, v)
        if h(salt, i, n) % 7 == 3 and not b:
            return "#define size__ %d\n%senum { %s = size__ }" % (v, pub, n) if first else "%senum { %s = %d }" % (pub, n, v)
        if not b:
            return "%senum { %s = %d }" % (pub, n, v)
        return "%senum { %s = %d, %s }" % (pub, b[0], v - len(b), ", ".join(b[1:] + [n]))
    if k == "struct":
        if h(salt, i, n) % 3 == 0:
            f = FIELDS[h(salt, i, n, 1) % len(FIELDS)]
            if first:
                return "#define size__ %d\n%stypedef { char %s[size__]; } %s;" % (v, pub, f, n)
            return "%stypedef { char %s[%d]; } %s;" % (pub, f, v, n)
        return "%stypedef { char b[%d]; } %s;" % (pub, v, n)
    if k == "alias":
        return "%stypedef char %s[%d];" % (pub, n, v)
    return "int %s = %d;" % (n, v)


def ref_src(i, k, r, names, salt):
    """(module-level text, statement text)"""
    q = r["n"] if r["ns"] == 0 else names[r["ns"] - 1].split("/")[-1] + "." + r["n"]
    tag = "r %d %d" % (i, k)
    m = h(salt, i, k, r["n"])
    if r["k"] == "fn":
        e = call(r["ns"] or i, r["n"], salt, q)
        if m % 3 == 0:
            return "", 'int x%d = %s; printf("%s %%d\\n", x%d);' % (k, e, tag, k)
        return "", 'printf("%s %%d\\n", %s);' % (tag, e)
    if r["k"] == "var":
        return "", 'printf("%s %%d\\n", %s);' % (tag, q)
    if r["k"] in ("const", "macro"):
        m %= 4
        if m == 0:
            return "", 'printf("%s %%d\\n", %s);' % (tag, q)
        if m == 1:
            return "", 'char x%d[%s]; printf("%s %%d\\n", (int) sizeof(x%d));' % (k, q, tag, k)
        if m == 2:
            return "enum { loc%d = %s }" % (k, q), 'printf("%s %%d\\n", loc%d);' % (tag, k)
        return "", 'for (int x%d = 0; x%d < 300; x%d++) { switch (x%d) { case %s: { printf("%s %%d\\n", x%d); } } }' % (k, k, k, k, q, tag, k)
    m %= 5
    if m == 0:
        return "", 'printf("%s %%d\\n", (int) sizeof(%s));' % (tag, q)
    if m == 1:
        return "", '%s x%d; printf("%s %%d\\n", (int) sizeof(x%d));' % (q, k, tag, k)
    if m == 2:
        return "", '%s *x%d = NULL; printf("%s %%d\\n", (int) sizeof(*x%d));' % (q, k, tag, k)
    if m == 3:
        return "int loc%d(%s *p) { return (int) sizeof(*p); }" % (k, q), 'printf("%s %%d\\n", loc%d(NULL));' % (tag, k)
    return "typedef { %s f; } loc%d;" % (q, k), 'printf("%s %%d\\n", (int) sizeof(loc%d));' % (tag, k)


def render(prog, names, imports, salt=0, state=False):
    """prog: abstract program. names[i]: file path of module i+1 without .c; imports[i][j]: the text
    of the j-th import line of module i+1. Returns {path: text}."""
    files = {}
    for i, m in enumerate(prog):
        out = ["#import %s" % t for t in imports[i]]
        out.append("int cnt__ = 0;")
        items = list(m["items"])
        pre, stm = [], []
        for k, r in enumerate(m["refs"]):
            a, b = ref_src(i + 1, k + 1, r, names, salt)
            if a:
                pre.append(a)
            stm.append("\t" + b)
        sized = next((j for j, it in enumerate(items) if it["k"] in ("struct", "const") and "size__ " in item_src(i + 1, it, salt, True)), -1)
        body = [item_src(i + 1, it, salt, j == sized) for j, it in enumerate(items)] + pre
        # declaration order must not matter
        if h(salt, i) % 2 and not any(x["k"] in ("struct", "alias") for x in items) and not any("typedef" in x for x in pre) \
                and not any(x.startswith("enum") for x in pre):
            body.reverse()
        keep = []
        for it in items:
            n = it["n"]
            if it["k"] == "macro" and mshape(i + 1, n, salt) == 3:
                keep.append("s += %s_base;" % n)
            if it["k"] in ("const", "var", "macro"):
                keep.append("s += %s;" % n)
            if it["k"] == "const":
                keep += ["s += %s;" % b for b in before(i + 1, n, salt, it["v"])]
            if it["k"] == "fn":
                keep.append("s += %s;" % call(i + 1, n, salt, n))
        funcs = ["pub int keepall__() {\n\tint s = cnt__;\n\t%s\n\treturn s;\n}" % "\n\t".join(keep)]
        ns = [names[j - 1].split("/")[-1] for j in m["imports"]]
        funcs.append("pub void probe__() {\n%s\n%s\n}" % ("\n".join(stm), "\n".join("\t%s.probe__();" % n for n in ns)))
        funcs.append("pub void fan__() {\n\tcnt__++;\n\tprintf(\"f %d %%d\\n\", cnt__);\n%s\n}" % (i + 1, "\n".join("\t%s.fan__();" % n for n in ns)))
        if i == 0:
            funcs.append("int main() {\n\tprobe__();\n\tfan__();\n\tfan__();\n\treturn 0;\n}")
        out += body + funcs
        files[names[i] + ".c"] = "\n".join(out) + "\n"
    return files


def run_prog(files, main="main.c", libfiles=None, want_exports=None, deptree=False):
    """Builds and runs; returns (accepted, stdout lines, details)."""
    hm = vlib.Home(lib=False, shim="w")
    root = hm.dir + "/src"
    for base, fs in ((root, files), (hm.dir + "/lib", libfiles or {})):
        for p, t in fs.items():
            fp = os.path.join(base, p)
            os.makedirs(os.path.dirname(fp), exist_ok=True)
            open(fp, "w").write(t)
    exe = hm.dir + "/prog"
    r = hm.build(main, exe, cwd=root, timeout=60)
    res = {"rc": r.rc, "err": (r.out + r.err).decode("utf8", "replace")[-1500:], "timeout": r.timeout}
    acc = r.rc == 0 and os.path.exists(exe)
    lines = []
    if acc:
        rr = vlib.run([exe], timeout=20)
        lines = rr.out.decode("utf8", "replace").splitlines()
        res["run_rc"] = rr.rc
    if want_exports:
        res["exports"] = {}
        for p in want_exports:
            x = hm.cmd(["exports", p], cwd=root)
            res["exports"][p] = (x.rc, x.out.decode("utf8", "replace"))
    if deptree:
        x = hm.cmd(["deptree", main], cwd=root)
        res["deptree"] = (x.rc, x.out.decode("utf8", "replace"))
    return acc, lines, res
