"""C01: expressions mean what the source says."""
import json, os, random
import vlib

WORLD = r'''
typedef {
	int x, y;
	int z[2];
	S *next;
} S;
typedef int fn_t(int, int);

int a = 0;
int b = 0;
int c = 0;
int d = 0;
int arr[4] = {0};
int *p = NULL;
int *q = NULL;
int **pp = NULL;
S s = {0};
S *ps = NULL;
S sa[2] = {0};
S *pa = NULL;
uint8_t u = 0;
void *vp = NULL;
fn_t *fp = NULL;
S **psp = NULL;
int nlog = 0;
int logv[1000] = {0};
void *cells[40] = {0};
int tmp[8] = {0};

int add(int x, y) { return x + y + y; }
int neg(int x) { return 0 - x; }
int same(int x) { return x; }
int tick(int x) { logv[nlog] = x; nlog = nlog + 1; return x; }
int *getp(int i) { return &arr[i]; }
S *getst(int i) { return &sa[i]; }

void reset() {
	a = 7; b = 3; c = 2; d = 0 - 5;
	arr[0] = 11; arr[1] = 13; arr[2] = 17; arr[3] = 19;
	p = &arr[1]; q = &arr[3]; pp = &p;
	s.x = 21; s.y = 22; s.z[0] = 23; s.z[1] = 24; s.next = &sa[0];
	ps = &s;
	sa[0].x = 31; sa[0].y = 32; sa[0].z[0] = 33; sa[0].z[1] = 34; sa[0].next = &sa[1];
	sa[1].x = 41; sa[1].y = 42; sa[1].z[0] = 43; sa[1].z[1] = 44; sa[1].next = &s;
	pa = &sa[0];
	u = 200; vp = &arr[1]; fp = add; psp = &ps;
	nlog = 0;
	cells[1] = &a; cells[2] = &b; cells[3] = &c; cells[4] = &d;
	cells[5] = &arr[0]; cells[6] = &arr[1]; cells[7] = &arr[2]; cells[8] = &arr[3];
	cells[9] = &p; cells[10] = &q; cells[11] = &pp;
	cells[12] = &s.x; cells[13] = &s.y; cells[14] = &s.z[0]; cells[15] = &s.z[1]; cells[16] = &s.next;
	cells[17] = &ps;
	cells[18] = &sa[0].x; cells[19] = &sa[0].y; cells[20] = &sa[0].z[0]; cells[21] = &sa[0].z[1]; cells[22] = &sa[0].next;
	cells[23] = &sa[1].x; cells[24] = &sa[1].y; cells[25] = &sa[1].z[0]; cells[26] = &sa[1].z[1]; cells[27] = &sa[1].next;
	cells[28] = &pa; cells[29] = &u; cells[30] = &vp; cells[31] = &fp; cells[32] = &psp;
}
int where(void *x) {
	for (int i = 1; i < 33; i++) {
		if (cells[i] == x) { return i; }
	}
	return 0;
}
void dump(int id, int v) {
	printf("%d %d :", id, v);
	printf(" %d %d %d %d %d %d %d %d", a, b, c, d, arr[0], arr[1], arr[2], arr[3]);
	printf(" %d %d %d", where(p), where(q), where(pp));
	printf(" %d %d %d %d %d", s.x, s.y, s.z[0], s.z[1], where(s.next));
	printf(" %d", where(ps));
	printf(" %d %d %d %d %d", sa[0].x, sa[0].y, sa[0].z[0], sa[0].z[1], where(sa[0].next));
	printf(" %d %d %d %d %d", sa[1].x, sa[1].y, sa[1].z[0], sa[1].z[1], where(sa[1].next));
	printf(" %d %d %d %d %d :", where(pa), u, where(vp), 0, where(psp));
	for (int i = 0; i < nlog; i++) { printf(" %d", logv[i]); }
	puts("");
	if (tmp[0] + same(0) + neg(0) < 0 && tick(0) && getp(0) == NULL && getst(0) == NULL) { puts("never"); }
}
'''
CT = {"ptr": "int *", "arr": "int *", "pp": "int **", "sptr": "S *", "sarr": "S *", "vptr": "void *", "spp": "S **"}


def program(vecs):
    out = [WORLD]
    calls = []
    for v in vecs:
        src = " ".join(v["t"])
        i = v["id"]
        ty = v["ty"]
        if ty in CT:
            out.append("%st%d() { reset(); return %s; }" % (CT[ty], i, src))
            calls.append("\tdump(%d, where(t%d()));" % (i, i))
        elif ty == "void":
            out.append("void t%d() { reset(); %s; }" % (i, src))
            calls.append("\tt%d(); dump(%d, 0);" % (i, i))
        else:
            k = i % 5
            if k == 0:
                body = "return %s;" % src
            elif k == 1:
                body = "int r = %s; return r;" % src
            elif k == 2:
                body = "return same(%s);" % src
            elif k == 3:
                body = "tmp[0] = %s; return tmp[0];" % src
            else:
                body = "int r = 0; r = %s; return r;" % src
            out.append("int t%d() { reset(); %s }" % (i, body))
            calls.append("\tdump(%d, t%d());" % (i, i))
    out.append("int main() {\n%s\n\treturn 0;\n}\n" % "\n".join(calls))
    return "\n".join(out)


def expected(v):
    val = 0 if v["ty"] == "void" else v["v"]
    return "%d %d : %s :%s" % (v["id"], val, " ".join(map(str, v["m"])), "".join(" %d" % x for x in v["log"]))


def run_vecs(c, vecs):
    h = vlib.Home(shim="w")
    src, exe = h.dir + "/e.c", h.dir + "/e"
    open(src, "w").write(program(vecs))
    if os.path.exists(exe):
        os.unlink(exe)
    r = h.build(src, exe, timeout=120)
    if r.rc != 0 or not os.path.exists(exe):
        return None, r
    return vlib.run([exe], timeout=30), r


def check_vecs(c, vecs, limit=3):
    """Runs the vectors on the real translator; returns the list of (vector, why)."""
    bad = []

    def go(vs):
        if len(bad) >= limit:
            return
        rr, br = run_vecs(c, vs)
        if rr is None or rr.rc != 0:
            if len(vs) == 1:
                bad.append((vs[0], "program rejected or crashed: %r" % (br if rr is None else rr)))
                return
            m = len(vs) // 2
            go(vs[:m]); go(vs[m:])
            return
        got = {}
        for line in rr.out.decode("utf8", "replace").splitlines():
            got[line.split(" ", 1)[0]] = line
        for v in vs:
            w = expected(v)
            g = got.get(str(v["id"]))
            if g != w:
                bad.append((v, "expected '%s' got '%s'" % (w, g)))
                if len(bad) >= limit:
                    return
    chunks = [vecs[i:i + 350] for i in range(0, len(vecs), 350)]
    vlib.pmap(go, chunks)
    return bad


# ---- random type-directed trees (filtered and evaluated by the specification)
class Gen:
    def __init__(self, rng):
        self.r = rng

    def num(self):
        return {"k": "num", "n": self.r.choice([0, 1, 2, 3, 5, 7, 10, 64, 100])}

    def V(self, x):
        return {"k": "var", "x": x}

    def par(self, e):
        return {"k": "par", "e": e} if self.r.random() < 0.08 else e

    def small(self, d):
        return self.r.choice([{"k": "num", "n": 0}, {"k": "num", "n": 1}, {"k": "num", "n": 2}, self.V("c"),
                              {"k": "bin", "op": "-", "l": self.V("b"), "r": self.V("c")}])

    def int(self, d):
        r = self.r
        if d <= 0:
            return r.choice([self.num(), self.V(r.choice("abcd")), self.V("u")])
        k = r.random()
        if k < 0.45:
            op = r.choice(["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "-", "/", "+"])
            return self.par({"k": "bin", "op": op, "l": self.int(d - 1), "r": self.int(d - 1)})
        if k < 0.58:
            return self.par({"k": "pre", "op": r.choice(["-", "~", "-"]), "e": self.int(d - 1)})
        if k < 0.68:
            return self.par({"k": "cast", "t": r.choice(["int", "uint8_t", "int8_t", "int16_t"]), "e": r.choice([self.int, self.bool])(d - 1)})
        if k < 0.78:
            return self.par(self.lv(d - 1))
        if k < 0.83:
            return {"k": r.choice(["post", "pre"]), "op": r.choice(["++", "--"]), "e": self.lv(d - 1)}
        if k < 0.93:
            f = r.choice(["add", "neg", "fp", "dfp", "tick"])
            if f == "fp":
                fn = self.V("fp")
            elif f == "dfp":
                fn = {"k": "pre", "op": "*", "e": self.V("fp")}
            else:
                fn = {"k": "fun", "x": f}
            n = 1 if f in ("neg", "tick") else 2
            return {"k": "call", "f": fn, "args": [self.int(d - 1) for _ in range(n)]}
        if k < 0.96:
            return {"k": "bin", "op": "-", "l": self.ptr(d - 1), "r": self.ptr(d - 1)}
        return self.int(d - 1)

    def lv(self, d):
        r = self.r
        if d <= 0:
            return self.V(r.choice("abcd"))
        k = r.randrange(6)
        if k == 0:
            return {"k": "pre", "op": "*", "e": self.ptr(d - 1)}
        if k == 1:
            return {"k": "idx", "a": r.choice([self.ptr(d - 1), self.V("arr")]), "i": self.small(d)}
        if k == 2:
            return {"k": "fld", "e": self.st(d - 1), "f": r.choice(["x", "y"])}
        if k == 3:
            return {"k": "arw", "e": self.sptr(d - 1), "f": r.choice(["x", "y"])}
        if k == 4:
            return {"k": "idx", "a": {"k": "arw", "e": self.sptr(d - 1), "f": "z"}, "i": self.small(d)}
        return {"k": "idx", "a": {"k": "fld", "e": self.st(d - 1), "f": "z"}, "i": self.small(d)}

    def ptr(self, d):
        r = self.r
        if d <= 0:
            return self.V(r.choice(["p", "q"]))
        k = r.randrange(8)
        if k == 0:
            return {"k": "pre", "op": "&", "e": self.lv(d - 1)}
        if k == 1:
            return self.par({"k": "bin", "op": r.choice("+-"), "l": self.ptr(d - 1), "r": self.small(d)})
        if k == 2:
            return self.par({"k": "bin", "op": "+", "l": self.small(d), "r": self.ptr(d - 1)})
        if k == 3:
            return {"k": "pre", "op": "*", "e": self.V("pp")}
        if k == 4:
            return {"k": "cast", "t": "intp", "e": r.choice([self.V("vp"), self.ptr(d - 1)])}
        if k == 5:
            return {"k": "call", "f": {"k": "fun", "x": "getp"}, "args": [self.small(d)]}
        if k == 6:
            return {"k": r.choice(["post", "pre"]), "op": r.choice(["++", "--"]), "e": self.V(r.choice(["p", "q"]))}
        return self.V(r.choice(["p", "q"]))

    def sptr(self, d):
        r = self.r
        if d <= 0:
            return self.V(r.choice(["ps", "pa"]))
        k = r.randrange(7)
        if k == 0:
            return {"k": "pre", "op": "&", "e": self.st(d - 1)}
        if k == 1:
            return {"k": "arw", "e": self.sptr(d - 1), "f": "next"}
        if k == 2:
            return {"k": "fld", "e": self.st(d - 1), "f": "next"}
        if k == 3:
            return {"k": "bin", "op": "+", "l": self.sptr(d - 1), "r": {"k": "num", "n": r.randrange(2)}}
        if k == 4:
            return {"k": "pre", "op": "*", "e": self.V("psp")}
        if k == 5:
            return {"k": "cast", "t": "Sp", "e": r.choice([self.sptr(d - 1), {"k": "pre", "op": "&", "e": {"k": "fld", "e": self.V("s"), "f": "x"}}])}
        return {"k": "call", "f": {"k": "fun", "x": "getst"}, "args": [{"k": "num", "n": r.randrange(2)}]}

    def st(self, d):
        r = self.r
        if d <= 0:
            return self.V("s")
        k = r.randrange(3)
        if k == 0:
            return {"k": "pre", "op": "*", "e": self.sptr(d - 1)}
        if k == 1:
            return {"k": "idx", "a": r.choice([self.V("sa"), self.sptr(d - 1)]), "i": {"k": "num", "n": r.randrange(2)}}
        return self.V("s")

    def bool(self, d):
        r = self.r
        if d <= 0:
            return {"k": "bin", "op": r.choice(["<", ">", "==", "!=", "<=", ">="]), "l": self.V(r.choice("abcd")), "r": self.int(0)}
        k = r.random()
        if k < 0.35:
            return self.par({"k": "bin", "op": r.choice(["<", ">", "==", "!=", "<=", ">="]), "l": self.int(d - 1), "r": self.int(d - 1)})
        if k < 0.75:
            return self.par({"k": "bin", "op": r.choice(["&&", "||"]), "l": r.choice([self.bool, self.bool, self.lv])(d - 1), "r": r.choice([self.bool, self.bool, self.lv])(d - 1)})
        if k < 0.9:
            return {"k": "pre", "op": "!", "e": r.choice([self.bool, self.int])(d - 1)}
        return {"k": "bin", "op": r.choice(["==", "!="]), "l": self.bool(d - 1), "r": self.bool(d - 1)}

    def asg(self, d):
        r = self.r
        op = r.choice(["=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "=", "="])
        if r.random() < 0.15:
            return {"k": "asg", "op": "=", "l": self.V(r.choice(["p", "q"])), "r": self.ptr(d - 1)}
        rhs = self.asg(d - 2) if d > 2 and r.random() < 0.15 else r.choice([self.int, self.int, self.bool])(d - 1)
        return {"k": "asg", "op": op, "l": self.lv(min(d - 1, 3)), "r": rhs}

    def top(self, d):
        return self.r.choice([self.int, self.int, self.int, self.bool, self.asg, self.asg, self.ptr, self.lv])(d)


def check(c):
    # 1. exhaustive adjacency family, enumerated and evaluated by TLC
    r = vlib.tlc("CheExprMC", spec="Spec", consts={"Wide": "TRUE" if c.thorough else "FALSE"},
                 inv=["RoundTrip", "ParTyping", "Sane", "Emit"], timeout=800)
    c.model(r, "CheExprMC Wide=%s: one state per expression of the adjacency family" % c.thorough)
    vecs = vlib.tlc_lines(r, "VEC")
    if len(vecs) < 3000:
        raise vlib.ToolError("too few vectors: %d" % len(vecs))
    vecs.sort(key=lambda v: (v["ty"], v["t"]))
    for i, v in enumerate(vecs):
        v["id"] = i
    report(c, check_vecs(c, vecs))
    c.cov["cases"] += len(vecs)
    c.traces(len(vecs))
    c.sample({"expr": " ".join(vecs[100]["t"]), "value": vecs[100]["v"]})
    # 2. random deep trees, filtered and evaluated by TLC
    for rnd in range(c.n(1, 8)):
        g = Gen(c.rng)
        n = c.n(6000, 12000)
        asts = [g.top(c.rng.randint(2, 6)) for _ in range(n)]
        parts = [asts[k::4] for k in range(4)]
        rs = vlib.pmap(lambda a: vlib.tlc("CheExprEval", spec="Spec", inv=["Emit"], workers=2, mem="2g",
                                          files={"cases.ndjson": vlib.ndjson(a)}, timeout=600), parts, 4)
        vs = []
        for x in rs:
            c.model(x)
            vs += vlib.tlc_lines(x, "VEC")
        vs.sort(key=lambda v: (v["ty"], v["t"]))
        for i, v in enumerate(vs):
            v["id"] = i
        report(c, check_vecs(c, vs))
        c.cov["cases"] += len(vs)
        c.cov["random_trees_generated"] = c.cov.get("random_trees_generated", 0) + n
        c.cov["random_trees_usable"] = c.cov.get("random_trees_usable", 0) + len(vs)
        c.traces(len(vs))
        if vs:
            big = max(vs, key=lambda v: len(v["t"]))
            c.sample({"expr": " ".join(big["t"]), "value": big["v"]})
        if c.viol:
            break


def report(c, bad):
    for v, why in bad:
        c.violation("expression `%s`: %s" % (" ".join(v["t"]), why), {"vector": v, "program": program([v])})
