"""C10: typing of expressions: admissible operand classes, conditions, calls and argument counts."""
import json, os, re
import vlib

P = {"o": "P", "n": 0, "v": False}
A = {"o": "A", "n": 0, "v": False}


def F(n, v=False):
    return {"o": "F", "n": n, "v": v}


def T(b, *ops):
    return {"ops": list(ops), "b": b}


# variables of every kind; declared as parameters of the probing function
PARAMS = [("int", "i", T("int")), ("int8_t", "i8", T("int8_t")), ("int16_t", "i16", T("int16_t")), ("int32_t", "i32", T("int32_t")), ("int64_t", "i64", T("int64_t")),
          ("uint8_t", "u8", T("uint8_t")), ("uint16_t", "u16", T("uint16_t")), ("uint32_t", "u32", T("uint32_t")), ("uint64_t", "u64", T("uint64_t")),
          ("size_t", "z", T("size_t")), ("float", "f", T("float")), ("double", "d", T("double")), ("char", "ch", T("char")), ("bool", "b", T("bool")),
          ("int", "*pi", T("int", P)), ("char", "*s", T("char", P)), ("char", "**ss", T("char", P, P)), ("void", "*vp", T("void", P)),
          ("int", "arr[4]", T("int", A)), ("char", "buf[10]", T("char", A)), ("char", "*sarr[3]", T("char", A, P)), ("double", "mat[2][3]", T("double", A, A)),
          ("st_t", "x", T("st_t")), ("st_t", "*px", T("st_t", P)), ("count_t", "n", T("count_t")), ("deep_t", "n2", T("deep_t")), ("ip_t", "ip", T("ip_t")),
          ("op_t", "*fp", T("op_t", P)), ("vf_t", "*vf", T("vf_t", P)), ("vf2_t", "*vf2", T("vf2_t", P)), ("nf_t", "*nf", T("nf_t", P)), ("hf_t", "*hf", T("hf_t", P)), ("m.num_t", "fn", T("m.num_t")), ("m.rec_t", "fr", T("m.rec_t")), ("m.rec_t", "*fpr", T("m.rec_t", P)),
          ("a5_t", "n5", T("a5_t")), ("p4_t", "p4", T("p4_t")), ("flag_t", "fl", T("flag_t")), ("real_t", "re", T("real_t")),
          ("ip_t", "*ipa[3]", T("ip_t", A, P)), ("count_t", "*np", T("count_t", P)), ("count_t", "na[3]", T("count_t", A)), ("ip_t", "**pip", T("ip_t", P, P))]
ALS = {"a5_t": T("a4_t"), "a4_t": T("a3_t"), "a3_t": T("a2_t"), "a2_t": T("a1_t"), "a1_t": T("size_t"), "p4_t": T("p3_t"), "p3_t": T("p2_t"), "p2_t": T("p1_t"), "p1_t": T("char", P),
       "count_t": T("size_t"), "deep_t": T("count2_t"), "count2_t": T("int"), "ip_t": T("int", P), "op_t": T("int", F(2)), "vf_t": T("double", F(1, True)), "vf2_t": T("int", F(2, True)), "nf_t": T("void", F(0)), "hf_t": T("char", F(1), P), "flag_t": T("bool"), "real_t": T("double")}
STS = {"st_t": {"a": T("int"), "u": T("size_t"), "p": T("int", P), "next": T("st_t", P), "d": T("double"), "v": T("int", A), "c": T("char"), "op": T("op_t", P), "n": T("count_t")}}
FUNS = {"fi": T("int", F(1)), "fz": T("size_t", F(0)), "fv": T("void", F(2)), "fd": T("double", F(2)), "fps": T("st_t", F(1), P), "fvar": T("int", F(1, True)), "fal": T("count_t", F(0)),
        "fp3": T("char", F(3), P, P), "fvar3": T("int", F(3, True)), "f6": T("int", F(6)), "f7": T("int", F(7))}
MODFUNS = {"m.mi": T("int", F(1)), "m.mz": T("size_t", F(0)), "m.mn": T("m.num_t", F(0)), "m.mr": T("m.rec_t", F(0), P), "m.m5": T("int", F(5))}
# the C library: number of arguments and result
LIB = {"strlen": T("size_t", F(1)), "strcmp": T("int", F(2)), "printf": T("int", F(1, True)), "getchar": T("int", F(0)), "sqrt": T("double", F(1)), "pow": T("double", F(2)),
       "memcmp": T("int", F(3)), "toupper": T("int", F(1)), "isdigit": T("bool", F(1)), "strchr": T("char", F(2), P), "fopen": T("FILE", F(2), P), "calloc": T("void", F(2), P),
       "exit": T("void", F(1)), "free": T("void", F(1)), "realloc": T("void", F(2), P), "fgets": T("char", F(3), P), "fread": T("size_t", F(4)), "fprintf": T("void", F(2, True)),
       "abort": T("void", F(0)), "strtof": T("?", F(2)), "strtod": T("?", F(2)), "memset": T("void", F(3)), "memcpy": T("void", F(3)), "puts": T("int", F(1)), "putchar": T("int", F(1)),
       "fseek": T("int", F(3)), "strstr": T("char", F(2), P), "strncmp": T("int", F(3)), "floorf": T("float", F(1)), "snprintf": T("?", F(3, True)), "qsort": T("void", F(4)), "ungetc": T("int", F(2))}
CONSTS = {"K": T("number"), "m.MK": T("number"), "INT_MAX": T("int"), "SIZE_MAX": T("size_t"), "true": T("bool"), "NULL": T("void", P), "stderr": T("FILE", P), "EOF": T("int"), "M_PI": T("double")}
LITS = [("1", T("number")), ("0", T("number")), ("2.5", T("number")), ("0x1F", T("number")), ("'c'", T("char")), ('"str"', T("char", P))]
CASTS = [("int", T("int")), ("size_t", T("size_t")), ("double", T("double")), ("char *", T("char", P)), ("void *", T("void", P)), ("uint8_t", T("uint8_t")), ("count_t", T("count_t")), ("st_t *", T("st_t", P)), ("bool", T("bool")), ("char", T("char"))]
MOD = """pub enum { MK = 3 }
pub typedef size_t num_t;
pub typedef { int *a; size_t u; } rec_t;
rec_t g = {};
pub int mi(int a) { return a; }
pub int m5(int a, b, c, d, e) { return a + b + c + d + e; }
pub size_t mz() { return 1; }
pub num_t mn() { return 1; }
pub rec_t *mr() { return &g; }
"""
PRE = """#import m.c
enum { K = 1 }
typedef { int a; size_t u; int *p; st_t *next; double d; int v[3]; char c; op_t *op; count_t n; } st_t;
typedef size_t count_t;
typedef deep0_t deep_t;
typedef int *ip_t;
typedef int op_t(int, int);
typedef double vf_t(const char *, ...);
typedef int vf2_t(int, char **, ...);
typedef void nf_t();
typedef char *hf_t(op_t *);
typedef bool flag_t;
typedef a4_t a5_t;
typedef a2_t a3_t;
typedef size_t a1_t;
typedef a1_t a2_t;
typedef a3_t a4_t;
typedef char *p1_t;
typedef p3_t p4_t;
typedef p1_t p2_t;
typedef p2_t p3_t;
typedef double real_t;
typedef int deep0_t;
pub int usek() { return K; }
pub int fi(int a) { return a; }
pub int f6(int a, b, c, d, e, f) { return a + b + c + d + e + f; }
pub int f7(int a, b, c, d, double *x, y, int e) { fi(x == NULL); fi((int) y); return a + b + c + d + e; }
pub size_t fz() { return 1; }
pub void fv(int a, b) { fi(a); fi(b); }
pub double fd(double a, b) { return a * b; }
pub st_t *fps(st_t *a) { return a; }
pub int fvar(const char *s, ...) { return (int) s[0]; }
pub int fvar3(int a, b, const char *s, ...) { return a + b + (int) s[0]; }
pub count_t fal() { return m.MK; }
pub char **fp3(char **a, *b, int c) { fi(c); fi((int) *b); return a; }
""".replace("deep0_t", "count2_t")
# pointers to functions, called by name
PTRS = {"fp": "op_t", "vf": "vf_t", "vf2": "vf2_t", "nf": "nf_t", "hf": "hf_t"}
BIN = ["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "=", "+=", "-=", "<<=", "|="]


def leaf(r):
    k = r.random()
    if k < 0.62:
        p = r.choice(PARAMS)
        n = re.sub(r"^\*+|\[.*", "", p[1])
        return {"k": "v", "n": n}, n
    if k < 0.8:
        t, ty = r.choice(LITS)
        return {"k": "lit", "t": ty}, t
    n = r.choice(sorted(CONSTS))
    return {"k": "v", "n": n}, n


def expr(r, d):
    if d <= 0 or r.random() < 0.15:
        return leaf(r)
    k = r.random()
    if k < 0.5:
        op = r.choice(BIN)
        a, ta = expr(r, d - 1)
        b, tb = expr(r, d - 1)
        return {"k": "bin", "op": op, "a": a, "b": b}, "(%s) %s (%s)" % (ta, op, tb)
    if k < 0.62:
        op = r.choice(["-", "~", "!", "&", "*", "*", "++", "--"])
        a, ta = expr(r, d - 1)
        return {"k": "pre", "op": op, "a": a}, "%s(%s)" % (op, ta)
    if k < 0.65:
        a, ta = expr(r, d - 1)
        op = r.choice(["++", "--"])
        return {"k": "post", "op": op, "a": a}, "(%s)%s" % (ta, op)
    if k < 0.72:
        c, t = r.choice(CASTS)
        a, ta = expr(r, d - 1)
        return {"k": "cast", "t": t, "a": a}, "(%s) (%s)" % (c, ta)
    if k < 0.79:
        a, ta = expr(r, d - 1)
        b, tb = expr(r, d - 1)
        return {"k": "idx", "a": a, "b": b}, "(%s)[%s]" % (ta, tb)
    if k < 0.86:
        a, ta = r.choice([({"k": "v", "n": "x"}, "x."), ({"k": "v", "n": "px"}, "px->"), ({"k": "call", "f": {"k": "v", "n": "fps"}, "as": [{"k": "v", "n": "px"}]}, "fps(px)->"),
                          ({"k": "v", "n": "fr"}, "fr."), ({"k": "v", "n": "fpr"}, "fpr->"), ({"k": "call", "f": {"k": "v", "n": "m.mr"}, "as": []}, "m.mr()->"),
                          ({"k": "fld", "a": {"k": "v", "n": "x"}, "f": "next"}, "x.next->")])
        foreign = ta.startswith(("fr", "fpr", "m."))
        f = r.choice(["a", "u"] if foreign else sorted(STS["st_t"]))
        return {"k": "fld", "a": a, "f": f}, ta + f
    if k < 0.9:
        a, ta = expr(r, d - 1)
        return {"k": "sz", "a": a}, "sizeof(%s)" % ta
    fns = {**FUNS, **MODFUNS, **LIB}
    n = r.choice(sorted(fns))
    fe, ft = {"k": "v", "n": n}, n
    arity = fns[n]["ops"][0]
    if r.random() < 0.12:
        fe, ft = r.choice([({"k": "v", "n": "fp"}, "fp"), ({"k": "v", "n": "vf"}, "vf"), ({"k": "v", "n": "vf2"}, "vf2"), ({"k": "v", "n": "nf"}, "nf"), ({"k": "v", "n": "hf"}, "hf"), ({"k": "fld", "a": {"k": "v", "n": "px"}, "f": "op"}, "px->op")])
        arity = ALS[PTRS.get(ft, "op_t")]["ops"][0]
    elif r.random() < 0.08:
        fe, ft = leaf(r)
        if not re.match(r"^[\w.]+$", ft):
            ft = "(%s)" % ft
    na = arity["n"] + (r.choice([0, 0, 1, 2]) if arity["v"] else 0)
    if r.random() < 0.25:
        na = max(0, na + r.choice([-1, 1, 1]))
    as_ = [expr(r, d - 2) for _ in range(na)]
    return {"k": "call", "f": fe, "as": [a for a, _ in as_]}, "%s(%s)" % (ft, ", ".join(t for _, t in as_))


def pairs():
    """Every operator over every pair of operand kinds."""
    lv = [({"k": "v", "n": re.sub(r"^\*+|\[.*", "", p[1])}, re.sub(r"^\*+|\[.*", "", p[1])) for p in PARAMS] + \
         [({"k": "lit", "t": t}, s) for s, t in LITS] + [({"k": "v", "n": n}, n) for n in sorted(CONSTS)]
    for op in ["+", "-", "*", "==", "<", "&&", ">>", "|", "%"]:
        for a, ta in lv:
            for b, tb in lv:
                yield {"k": "bin", "op": op, "a": a, "b": b}, "%s %s %s" % (ta, op, tb)


def check(c):
    t = vlib.tlc("CheTypesMC", spec="Spec", inv=["Commutes", "SameClass", "Widens", "NoMix", "Nested"])
    c.model(t, "CheTypesMC: typing laws over all triples of operand types")
    r = c.rng
    cases = []
    allp = list(pairs())
    for e, s in (allp if c.thorough else r.sample(allp, 1500)):
        cases.append((e, s, "st"))
    # every function with every number of arguments around its own
    arg = {"k": "lit", "t": T("number")}
    for n, ty in sorted({**FUNS, **MODFUNS, **LIB, **{n: T(n, P) for n in PTRS}}.items()):
        a = ty["ops"][0]["n"] if ty["ops"][0]["o"] == "F" else ALS[PTRS[n]]["ops"][0]["n"]
        for na in range(0, a + 4):
            cases.append(({"k": "call", "f": {"k": "v", "n": n}, "as": [arg] * na}, "%s(%s)" % (n, ", ".join(["1"] * na)), "st"))
    for _ in range(c.n(1800, 20000)):
        e, s = expr(r, r.choice([1, 2, 2, 3, 4]))
        cases.append((e, s, r.choice(["st", "st", "st", "if", "loop", "loop"])))
    env = {"vars": {**{re.sub(r"^\*+|\[.*", "", n): t for _, n, t in PARAMS}, **FUNS, **MODFUNS, **LIB, **CONSTS}, "als": ALS, "sts": STS, "foreign": ["m.num_t", "m.rec_t"]}
    tt = vlib.tlc("CheTypesEval", spec="Spec", inv=["EmitRes"], files={"env.ndjson": vlib.ndjson([env]), "cases.ndjson": vlib.ndjson([{"e": e, "w": w} for e, s, w in cases])})
    c.model(tt)
    exp = {x["i"] - 1: x["v"] for x in vlib.tlc_lines(tt, "RES")}
    home = vlib.Home(lib=False)
    pars = ", ".join("%s %s" % (a, b) for a, b, _ in PARAMS)
    use = "".join("\t(void) %s;\n" % re.sub(r"^\*+|\[.*", "", b) for _, b, _ in PARAMS)
    base = vlib.tmpdir("c10")
    line = (PRE + "pub void probe(%s) {\n%s" % (pars, use)).count("\n") + 1

    def body(s, w, j):
        if w == "st":
            return "\t%s;\n" % s
        if w == "if":
            return "\tif (%s) puts(\"\");\n" % s
        return "\twhile (%s) puts(\"\");\n" % s if j % 2 else "\tfor (int q = 0; %s; q++) fi(q);\n" % s

    def genc(stmts, tag):
        d = os.path.join(base, tag)
        os.makedirs(d + "/o")
        open(d + "/m.c", "w").write(MOD)
        open(d + "/a.c", "w").write(PRE + "pub void probe(%s) {\n%s" % (pars, use) + "".join(stmts) + "}\n")
        return home.cmd(["genc", "a.c", "o"], cwd=d)

    # statements the model accepts are checked many to a file, refused ones one by one
    good = [i for i in range(len(cases)) if exp[i] == ""]
    bad = [i for i in range(len(cases)) if exp[i] != ""]
    chunks = [good[k:k + 40] for k in range(0, len(good), 40)]

    def do_good(k):
        ids = chunks[k]
        out = []
        x = genc([body(cases[i][1], cases[i][2], i) for i in ids], "g%d" % k)
        if x.rc == 0:
            return out
        for i in ids:
            y = genc([body(cases[i][1], cases[i][2], i)], "g%d_%d" % (k, i))
            if y.rc != 0:
                out.append((i, y))
        return out or [(ids[0], x)]

    def do_bad(i):
        return i, genc([body(cases[i][1], cases[i][2], i)], "b%d" % i)
    for out in vlib.pmap(do_good, range(len(chunks))):
        for i, y in out:
            if len(c.viol) < 8:
                c.violation("well typed but refused: %s : %s" % (body(cases[i][1], cases[i][2], i).strip(), (y.out + y.err).decode("utf8", "replace")[-300:]), {"stmt": body(cases[i][1], cases[i][2], i)})
    c.traces(len(good))
    for i, y in vlib.pmap(do_bad, bad):
        st = body(cases[i][1], cases[i][2], i)
        diag = (y.out + y.err).decode("utf8", "replace")
        if y.rc == 0:
            what = "ill typed (%s) but accepted: %s" % (exp[i][1:], st.strip())
        elif y.rc != 1:
            what = "the translator crashed (exit %d) on: %s" % (y.rc, st.strip())
        elif not re.search(r"a\.c:%d:\d+: " % line, diag) and exp[i] not in ("!index", "!condition"):
            what = "refused, but the diagnostic does not name line %d: %s" % (line, diag[-300:])
        else:
            c.traces(1)
            continue
        if len(c.viol) < 8:
            c.violation(what, {"stmt": st, "diagnostic": diag[-1000:], "rule": exp[i]})
    c.cov["cases"] += len(cases)
    c.cov["refused"] = len(bad)
    c.sample({"stmt": body(cases[0][1], cases[0][2], 0), "verdict": exp[0]})
    c.cov["bounds"] = "%s operand pairs of 9 operators; %d random expressions of depth <= 4" % ("all" if c.thorough else "1500 sampled", c.n(1800, 20000))
    c.assumptions += ["only the translator's own verdict is judged (che genc), not the C compiler's"]
