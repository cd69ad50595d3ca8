"""C02: statements execute in the order and on the paths the source prescribes."""
import os
import vlib

WORLD = r'''
enum { KA = 3, KB = 4 }
int a = 0;
int b = 0;
int c = 0;
int x = 0;
int y = 0;
int tk = 0;

void reset(int arg) { a = arg; b = 2; c = 0; x = 0; y = 0; tk = 0; }
void out(int v) { printf(" o%d", v); }
int f(int v) { printf(" f%d", v); return v; }
int ticks() { tk = tk + 1; printf(" t%d", tk); return tk; }
const char *sf(const char *s) { int n = (int) strlen(s); printf(" s%d", n); return s; }
const char *ident(const char *s) { return s; }
void keep() { if (a + b + c + x + y + KA + KB == 99999) { out(1); f(1); ticks(); sf(""); ident(""); } }
'''


def program(srcs):
    out = [WORLD]
    calls = []
    for i, toks in srcs:
        out.append("int t%d() { %s }" % (i, " ".join(toks)))
        calls.append('\tfor (int k = 0; k < 3; k++) { reset(k); printf("%d %%d:", k); int r = t%d(); printf(" = %%d\\n", r); }' % (i, i))
    # keep main small: gcc is fine with long functions
    out.append("int main() {\n\tkeep();\n%s\n\treturn 0;\n}\n" % "\n".join(calls))
    return "\n".join(out)


def expected(res):
    return "%d %d:%s = %d" % (res["id"], res["arg"], "".join(" %s%d" % (o[0], o[1]) for o in res["out"]), res["ret"])


def run_batch(c, srcs, want, limit=3):
    bad = []

    def go(part):
        if len(bad) >= limit:
            return
        h = vlib.Home(shim="w")
        src, exe = h.dir + "/e.c", h.dir + "/e"
        open(src, "w").write(program(part))
        r = h.build(src, exe, timeout=120)
        rr = None
        if r.rc == 0 and os.path.exists(exe):
            rr = vlib.run([exe], timeout=8)
        if rr is None or rr.rc != 0:
            if len(part) == 1:
                bad.append((part[0], "program rejected, crashed or hung: %r" % (rr or r)))
                return
            m = len(part) // 2
            go(part[:m]); go(part[m:])
            return
        got = {}
        for line in rr.out.decode("utf8", "replace").splitlines():
            got[line.split(":", 1)[0]] = line
        for i, toks in part:
            for w in want[i]:
                key = w.split(":", 1)[0]
                if got.get(key) != w:
                    bad.append(((i, toks), "expected '%s' got '%s'" % (w, got.get(key))))
                    break
            if len(bad) >= limit:
                return
    vlib.pmap(go, [srcs[i:i + 150] for i in range(0, len(srcs), 150)])
    return bad


class Gen:
    def __init__(self, r):
        self.r = r

    def ie(self):
        r = self.r
        k = r.randrange(8)
        if k < 2:
            return {"k": "num", "n": r.randrange(6)}
        if k < 4:
            return {"k": "var", "x": r.choice("abcxy")}
        if k == 4:
            return {"k": "add", "x": r.choice("abcxy"), "n": r.randrange(1, 4)}
        if k == 5:
            return {"k": "mod", "x": r.choice("abc"), "n": r.randrange(2, 5)}
        if k == 6:
            return {"k": "call", "n": r.randrange(6)}
        return {"k": "ticks"}

    def cond(self, d=2):
        r = self.r
        if d and r.random() < 0.3:
            return {"k": r.choice(["and", "or"]), "l": self.cond(d - 1), "r": self.cond(d - 1)}
        k = r.randrange(6)
        if k == 0:
            return {"k": r.choice(["var", "not"]), "x": r.choice("abcxy")}
        if k == 1 and r.random() < 0.5:
            return {"k": r.choice(["tru", "fls"])}
        return {"k": "cmp", "l": self.ie(), "op": r.choice(["<", ">", "==", "!=", "<=", ">="]), "n": r.randrange(6)}

    def body(self, d, loop, brk, declared=()):
        r = self.r
        n = 10 if d <= 0 and r.random() < 0.06 else r.choice([0, 1, 1, 2, 2, 3])
        ss = []
        names = set()
        for _ in range(n):
            ss += self.stmt(d, loop, brk, names)
        return {"ss": ss, "br": r.random() < 0.5}

    def stmt(self, d, loop, brk, names):
        r = self.r
        k = r.random()
        if d <= 0 or k < 0.25:
            j = r.randrange(9)
            if j < 3:
                return [{"k": "out", "e": self.ie()}]
            if j == 3:
                return [{"k": "set", "x": r.choice("abcxy"), "e": self.ie()}]
            if j == 4:
                return [{"k": r.choice(["inc", "dec"]), "x": r.choice("bcxy")}]
            if j == 5:
                free = [v for v in "cxy" if v not in names]
                if free:
                    v = r.choice(free)
                    names.add(v)
                    e = self.ie()
                    if e.get("x") == v:
                        e = {"k": "num", "n": 7}
                    return [{"k": "decl", "x": v, "e": e}, {"k": "out", "e": {"k": "var", "x": v}}]
            if j == 6 and brk:
                return [{"k": "brk"}]
            if j == 7 and loop:
                return [{"k": "cont"}]
            if j == 8 and r.random() < 0.4:
                return [{"k": "ret", "e": self.ie()}]
            return [{"k": "out", "e": {"k": "num", "n": r.randrange(100)}}]
        if k < 0.5:
            e = r.random() < 0.6
            return [{"k": "if", "c": self.cond(), "A": self.body(d - 1, loop, brk), "B": self.body(d - 1, loop, brk) if e else {"ss": [], "br": True}, "hasElse": e}]
        if k < 0.6:
            b = self.body(d - 1, True, True)
            v = r.choice("bcxy")
            b["ss"] = [{"k": "inc", "x": v}] + b["ss"]
            lim = {"k": "cmp", "l": {"k": "var", "x": v}, "op": "<", "n": r.randrange(2, 7)}
            if r.random() < 0.3:
                lim = {"k": "and", "l": lim, "r": self.cond(0)}
            return [{"k": "while", "c": lim, "B": b}]
        if k < 0.72:
            kind = r.choice(["for", "forx", "forn"])
            v = r.choice("cxy")
            n = r.randrange(1, 5)
            st = {"k": "inc", "x": v}
            cond = {"k": "cmp", "l": {"k": "var", "x": v}, "op": "<", "n": n}
            init = {"k": "num", "n": 0}
            if r.random() < 0.2:
                st = {"k": "dec", "x": v}
                cond = {"k": "cmp", "l": {"k": "var", "x": v}, "op": ">", "n": 0}
                init = {"k": "num", "n": n}
            elif r.random() < 0.2:
                st = {"k": "set", "x": v, "e": {"k": "add", "x": v, "n": 2}}
            s = {"k": kind, "x": v, "init": init, "c": cond, "step": st, "B": self.body(d - 1, True, True)}
            if r.random() < 0.1:
                s["step"] = {"k": "none"}
                s["B"]["ss"].insert(0, {"k": "inc", "x": v})
                s["B"]["br"] = True
                s["c"] = {"k": "cmp", "l": {"k": "var", "x": v}, "op": "<", "n": n}
            return [s]
        long = d <= 2 and r.random() < 0.3
        ncase = r.choice([1, 2, 3, 5]) if long else r.randrange(0, 4)
        d = min(d, 1) if long else d
        hasdef = r.random() < 0.6 or ncase == 0
        if k < 0.88:
            pool = [{"k": "num", "n": i} for i in range(20 if long else 6) if i not in (3, 4, 10)] + [{"k": "id", "x": "KA"}, {"k": "id", "x": "KB"},
                    {"k": "chr", "s": "a", "n": 97}, {"k": "chr", "s": "\\n", "n": 10}]
            r.shuffle(pool)
            cases = []
            for _ in range(ncase):
                nv = r.choice([4, 5, 9]) if long else r.choice([1, 1, 2, 3])
                vals, pool = pool[:nv], pool[nv:]
                if vals:
                    cases.append({"vals": vals, "B": self.body(d - 1, loop, True)})
            e = self.ie()
            if r.random() < 0.1:
                e = {"k": "num", "n": r.choice([97, 10])}
            elif long and cases:
                v = r.choice(r.choice(cases)["vals"])
                e = {"k": "num", "n": v.get("n", 3)}
            return [{"k": "sw", "e": e, "cases": cases, "def": self.body(d - 1, loop, True), "hasDef": hasdef}]
        words = ["", "a", "b", "ab", "abc", "A", "x y"]
        if long:
            words += ["%s%d" % (w, i) for w in ("k", "kk") for i in range(6)]
        r.shuffle(words)
        subj = r.choice(words)
        cases = []
        for _ in range(ncase):
            nv = r.choice([4, 5, 9]) if long else r.choice([1, 1, 2, 3])
            vals, words = words[:nv], words[nv:]
            if vals:
                cases.append({"vals": vals, "B": self.body(d - 1, loop, False)})
        return [{"k": "sws", "e": {"k": r.choice(["str", "strf"]), "s": subj}, "cases": cases, "def": self.body(d - 1, loop, False), "hasDef": hasdef}]

    def prog(self):
        ss = []
        names = set()
        for _ in range(self.r.randint(1, 4)):
            ss += self.stmt(self.r.randint(1, 4), False, False, names)
        return ss


def one_source(c, src, wide, cases, maxsteps, label):
    files = {"cases.ndjson": vlib.ndjson(cases)} if cases is not None else {}
    r = vlib.tlc("CheStmtRun", spec="Spec", consts={"Src": '"%s"' % src, "Wide": "TRUE" if wide else "FALSE", "MaxSteps": maxsteps},
                 inv=["EndsByReturn", "EmitSrc", "EmitRes"], props=["OutGrows"] if src == "enum" and not wide else None,
                 files=files, timeout=850)
    c.model(r, label)
    srcs = {v["id"]: v["t"] for v in vlib.tlc_lines(r, "SRC")}
    want = {}
    for v in vlib.tlc_lines(r, "RES"):
        want.setdefault(v["id"], []).append(expected(v))
    ids = sorted(i for i in srcs if len(want.get(i, [])) == 3)      # terminating for all arguments
    batch = [(i, srcs[i]) for i in ids]
    for (i, toks), why in run_batch(c, batch, want):
        c.violation("program `%s`: %s" % (" ".join(toks)[:700], why), {"tokens": toks, "expected": want[i], "program": program([(i, toks)])})
    c.cov["cases"] += len(batch)
    c.traces(3 * len(batch))
    if batch:
        k = batch[len(batch) // 2]
        c.sample({"program": " ".join(k[1])[:300], "behaviour": want[k[0]][1]})


def check(c):
    one_source(c, "enum", False, None, 300, "CheStmtRun nesting family, depth 2")
    for rnd in range(c.n(1, 10)):
        g = Gen(c.rng)
        one_source(c, "file", False, [g.prog() for _ in range(c.n(1800, 4000))], 250, "random programs")
        if c.viol:
            return
    if c.thorough:
        one_source(c, "enum", True, None, 300, "CheStmtRun nesting family, depth 3 (while/switch outermost)")
