"""C05: undefined, unused and duplicate names, unused imports and missing returns are refused."""
import os, re
import vlib

NM = ["x", "y", "z", "w", "cnt", "total", "_u", "_x1", "X", "a_rather_long_name_for_a_variable"]


class Gen:
    def __init__(self, r, dirty):
        self.r, self.dirty = r, dirty

    def pick(self, env, dflt=""):
        r = self.r
        if r.random() < self.dirty:
            return r.choice(NM + ["nosuch", "Q"])
        vis = [n for sc in env for n in sc]
        if not vis:
            return dflt
        return r.choice(vis)

    def block(self, env, d, void, pend):
        r = self.r
        env = env + [[]]
        ss = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            ss.append(self.stmt(env, d, void))
        # use what was declared, most of the time
        for n in list(env[-1]):
            if r.random() > self.dirty:
                ss.append({"k": "use", "x": n})
        return ss

    def stmt(self, env, d, void):
        r = self.r
        k = r.random()
        if d > 0 and k < 0.35:
            t = r.choice(["if", "if", "for", "while", "sw"])
            if t == "if":
                s = {"k": "if", "c": self.pick(env), "A": self.block(env, d - 1, void, None), "hasElse": r.random() < 0.5, "B": []}
                if s["hasElse"]:
                    s["B"] = self.block(env, d - 1, void, None)
                return s
            if t == "while":
                return {"k": "while", "c": self.pick(env), "A": self.block(env, d - 1, void, None)}
            if t == "for":
                x = r.choice(NM)
                cond = x if r.random() > self.dirty else self.pick(env)
                return {"k": "for", "x": x, "cond": cond, "A": self.block(env + [[x]], d - 1, void, None)}
            s = {"k": "sw", "x": self.pick(env), "cases": [], "hasDef": r.random() < 0.6, "def": []}
            labels = [c for c in self.consts]
            r.shuffle(labels)
            for j in range(r.randrange(1, 3)):
                lbl = ""
                if labels and r.random() < 0.5:
                    lbl = labels.pop()
                elif r.random() < self.dirty:
                    lbl = "NOLBL"
                s["cases"].append({"lbl": lbl, "A": self.block(env, d - 1, void, None)})
            if s["hasDef"]:
                s["def"] = self.block(env, d - 1, void, None)
            return s
        if k < 0.6:
            x = r.choice(NM)
            if x in env[-1] and r.random() > self.dirty:
                return {"k": "use", "x": self.pick(env)}
            ini = self.pick(env)
            if ini == x:
                ini = ""
            env[-1].append(x)
            return {"k": "decl", "x": x, "ini": ini}
        if k < 0.7 and self.callees:
            return {"k": "call", "ns": "", "f": r.choice(self.callees)}
        if k < 0.75 and self.imps:
            return {"k": "call", "ns": r.choice(self.imps), "f": "go"}
        if k < 0.78 and r.random() < self.dirty:
            return {"k": "call", "ns": r.choice(["", "ua", "ub"]), "f": "go"}
        return {"k": "use", "x": self.pick(env)}

    def ending(self, env, d):
        r = self.r
        if r.random() < self.dirty * 0.5:
            return []
        k = r.random()
        ret = {"k": "ret", "x": self.pick(env)}
        if d <= 0 or k < 0.6:
            return [ret]
        if k < 0.75:
            return [{"k": "if", "c": self.pick(env), "A": self.ending(env, d - 1), "hasElse": r.random() < 0.8, "B": self.ending(env, d - 1)}]
        if k < 0.85:
            return [{"k": "panic"}]
        if k < 0.92:
            return [{"k": "loop", "A": [{"k": "if", "c": self.pick(env), "A": [ret], "hasElse": False, "B": []}]}]
        return [{"k": "sw", "x": self.pick(env), "cases": [{"lbl": "", "A": self.ending(env, d - 1)} for _ in range(r.randrange(1, 4))], "hasDef": True, "def": self.ending(env, d - 1)}]

    def module(self):
        r = self.r
        imps = [n for n in ("ua", "ub") if r.random() < 0.5]
        self.imps = imps
        names = ["K1", "K2", "_K3"]
        consts = [{"n": n, "pub": r.random() < 0.3} for n in names if r.random() < 0.5]
        self.consts = [c["n"] for c in consts]
        vs = [{"n": n} for n in r.sample(NM, r.randrange(0, 3))]
        fnn = ["fa", "fb", "fc"][:r.randrange(1, 4)]
        if r.random() < self.dirty * 0.3:
            fnn.append(r.choice(fnn))
        if vs and r.random() < self.dirty * 0.3:
            vs.append({"n": vs[0]["n"]})
        fns = []
        for i, n in enumerate(fnn):
            self.callees = [x for x in fnn[i + 1:] if x != n]
            pub = r.random() < 0.3
            void = r.random() < 0.5
            ps = r.sample(NM, r.randrange(0, 3))
            if len(ps) > 1 and r.random() < self.dirty * 0.2:
                ps[1] = ps[0]
            env = [[v["n"] for v in vs] + self.consts, ps]
            body = self.block(env, 2, void, None)
            body = [s for s in body if not (s["k"] == "decl" and s["x"] in ps and r.random() > self.dirty)]
            for p in ps:
                if r.random() > self.dirty * 0.5:
                    body.insert(0, {"k": "use", "x": p})
            if not void:
                body += self.ending(env, 1)
            fns.append({"n": n, "pub": pub, "params": [{"n": p} for p in ps], "void": void, "body": body})
        # main uses what is private, most of the time
        body = []
        for v in vs:
            if r.random() > self.dirty * 0.5:
                body.append({"k": "use", "x": v["n"]})
        for x in consts:
            if r.random() > self.dirty * 0.5:
                body.append({"k": "use", "x": x["n"]})
        for f in dict.fromkeys(fnn):
            if r.random() > self.dirty * 0.5:
                body.append({"k": "call", "ns": "", "f": f})
        for i in imps:
            if r.random() > self.dirty * 0.5:
                body.append({"k": "call", "ns": i, "f": "go"})
        body.append({"k": "ret", "x": ""})
        fns.append({"n": "main", "pub": True, "params": [], "void": False, "body": body})
        return {"imports": imps, "consts": consts, "vars": vs, "fns": fns}


def inject(r, m):
    """One fault (or none) put into a module; the specification says which it is."""
    fns = m["fns"]
    f = r.choice(fns)
    blocks = []

    def walk(ss):
        blocks.append(ss)
        for s in ss:
            for k in ("A", "B", "def"):
                if isinstance(s.get(k), list) and not (k == "B" and not s.get("hasElse")) and not (k == "def" and not s.get("hasDef")):
                    walk(s[k])
            for c in s.get("cases", []):
                walk(c["A"])
    walk(f["body"])
    k = r.randrange(13)
    b = r.choice(blocks)
    if k == 0:
        # a second definition after the first was used
        ds = [(bb, i) for bb in blocks for i, s in enumerate(bb) if s["k"] == "decl"]
        if ds:
            bb, i = r.choice(ds)
            bb.insert(i + 1, {"k": "use", "x": bb[i]["x"]})
            bb.insert(r.randrange(i + 2, len(bb) + 1), {"k": "decl", "x": bb[i]["x"], "ini": ""})
    elif k == 1:
        b.insert(r.randrange(len(b) + 1), {"k": "decl", "x": r.choice(["fresh", "_fresh"]), "ini": ""})
    elif k == 2:
        b.insert(r.randrange(len(b) + 1), {"k": "use", "x": r.choice(["nosuch", "_nosuch", "X1"])})
    elif k == 3:
        m["consts"].append({"n": r.choice([x["n"] for x in m["consts"]] + [f["n"]]), "pub": r.random() < 0.5})
    elif k == 4:
        m["vars"].append({"n": r.choice([x["n"] for x in m["consts"] + m["vars"]] + [x["n"] for x in fns])})
    elif k == 5:
        m["vars"].append({"n": r.choice(["spare", "_spare"])})
    elif k == 6:
        m["consts"].append({"n": r.choice(["SPARE", "_SPARE"]), "pub": r.random() < 0.3})
    elif k == 7:
        g = {"n": r.choice(["spare", "_spare"]), "pub": r.random() < 0.3, "params": [], "void": True, "body": []}
        fns.insert(r.randrange(len(fns)), g)
    elif k == 8 and f["n"] != "main":
        f["params"].append({"n": r.choice(["_p", "spare"])})
    elif k == 9:
        rets = [(bb, i) for bb in blocks for i, s in enumerate(bb) if s["k"] in ("ret", "panic", "loop")]
        if rets:
            bb, i = r.choice(rets)
            if bb[i]["k"] == "ret" and bb[i]["x"]:
                bb[i] = {"k": "use", "x": bb[i]["x"]}
            elif bb[i]["k"] != "loop":
                del bb[i]
    elif k == 12:
        extra = [n for n in ("ua", "ub") if n not in m["imports"]]
        m["imports"] += extra[:1]
    elif k == 10:
        # a name of an inner block used after it
        for s in list(b):
            for kk in ("A", "B"):
                for q in s.get(kk) or []:
                    if q["k"] == "decl":
                        b.append({"k": "use", "x": q["x"]})
                        return
    elif k == 11:
        # hidden by an inner definition and so unused
        ds = [(bb, i) for bb in blocks for i, s in enumerate(bb) if s["k"] == "decl"]
        if ds:
            bb, i = r.choice(ds)
            x = bb[i]["x"]
            for q in bb[i + 1:]:
                if q["k"] == "use" and q["x"] == x:
                    bb[bb.index(q)] = {"k": "if", "c": "", "A": [{"k": "decl", "x": x, "ini": ""}, q], "hasElse": False, "B": []}


USES = ['printf("%%d", %s);', 'printf("%%d", %s);', 'printf("%%d", (%s));', 'printf("%%d", -%s);', 'printf("%%d", ~%s + 1);', 'printf("%%d", isdigit(%s));',
        'printf("%%d", (int) %s);', 'printf("%%d", getchar() && %s == 3);', 'if (%s == 1) { puts("y"); }', 'if (getchar() > 0) { puts("y"); } else if (%s > 2) { puts("z"); }',
        'while (getchar() > %s) { break; }', 'for (; getchar() > 5; printf("%%d", %s)) { break; }', 'for (; %s > 5;) { break; }', 'printf("%%d", 2 * (1 + %s));',
        'switch (getchar()) { case 1: { printf("%%d", %s); } default: {} }', 'printf("%%s", "abcdefgh" + %s);', 'printf("%%d %%d", 1, %s);']


def render(m, r):
    """Source text; fills in the line numbers ("ln") of the abstract module."""
    out = []
    argc = {f["n"]: len(f["params"]) for f in m["fns"]}

    def ln():
        return len(out) + 1

    def em(t):
        out.append(t)

    def blk(ss, ind, fnvoid):
        for s in ss:
            st(s, ind, fnvoid)

    def st(s, ind, v):
        t = "\t" * ind
        s["ln"] = ln()
        k = s["k"]
        if k == "use":
            em(t + r.choice(USES) % (s["x"] or "0"))
        elif k == "decl":
            em(t + r.choice(["int %s = %s;", "int %s = %s;", "int %s = 1 + %s;", "int %s = (int) %s;", "int %s = 2 * (3 - %s);"]) % (s["x"], s["ini"] or "1"))
        elif k == "if":
            em(t + "if (%s > getchar()) {" % (s["c"] or "getchar()"))
            blk(s["A"], ind + 1, v)
            if s["hasElse"]:
                em(t + "} else {")
                blk(s["B"], ind + 1, v)
            em(t + "}")
        elif k == "while":
            em(t + "while (%s > getchar()) {" % (s["c"] or "getchar()"))
            blk(s["A"], ind + 1, v)
            em(t + "}")
        elif k == "loop":
            em(t + "while (true) {")
            blk(s["A"], ind + 1, v)
            em(t + "}")
        elif k == "for":
            em(t + "for (int %s = 0; %s < getchar();) {" % (s["x"], s["cond"] or "getchar()"))
            blk(s["A"], ind + 1, v)
            em(t + "}")
        elif k == "sw":
            em(t + "switch (%s) {" % (s["x"] + " + 0" if s["x"] else "getchar()"))
            for j, c in enumerate(s["cases"]):
                c["ln"] = ln()
                em(t + "\tcase %s: {" % (c["lbl"] or str(1000 + j)))
                blk(c["A"], ind + 2, v)
                em(t + "\t}")
            if s["hasDef"]:
                em(t + "\tdefault: {")
                blk(s["def"], ind + 2, v)
                em(t + "\t}")
            em(t + "}")
        elif k == "call":
            f = s["f"]
            if s["ns"]:
                em(t + (r.choice(NSUSES) % {"n": s["ns"]} if f == "go" and s["ns"] in m["imports"] else "%s.%s();" % (s["ns"], f)))
            else:
                em(t + "%s(%s);" % (f, ", ".join(["1"] * argc.get(f, 0))))
        elif k == "ret":
            x = s["x"] or "0"
            em(t + ("return;" if v == "void" else 'printf("%%d", %s); return NULL;' % x if "*" in v else r.choice(["return %s;", "return %s;", "return (%s + 1);", "return (int) %s;"]) % x))
        elif k == "panic":
            em(t + 'panic("stop");')
    for n in m["imports"]:
        em("#import %s.c" % n)
    for j, c in enumerate(m["consts"]):
        c["ln"] = ln()
        em("%senum { %s = %d }" % ("pub " if c["pub"] else "", c["n"], j + 1))
    for v in m["vars"]:
        v["ln"] = ln()
        em("int %s = 1;" % v["n"])
    for f in m["fns"]:
        f["ln"] = ln()
        for p in f["params"]:
            p["ln"] = ln()
        typ = "void" if f["void"] else "int" if f["n"] == "main" else r.choice(["int", "int", "int", "void *", "void **", "char *", "size_t", "double", "bool"])
        ps = "".join((", " if i and r.random() < 0.5 else ", int " if i else "int ") + p["n"] for i, p in enumerate(f["params"]))
        em("%s%s %s(%s) {" % ("pub " if f["pub"] and f["n"] != "main" else "", typ, f["n"], ps))
        blk(f["body"], 1, typ)
        em("}")
    return "\n".join(out) + "\n"


def wrap_enum(m, k):
    """A module of the exhaustive family, with a main."""
    m["fns"].append({"n": "main", "pub": True, "params": [], "void": False, "body": [{"k": "ret", "x": "", "ln": 0}], "ln": 0})
    return m


def soft(m, n):
    """The function ends with a loop whose body ends by returning: whether control passes it is left to the C compiler."""
    def wh(ss):
        if not ss:
            return False
        s = ss[-1]
        if s["k"] == "while":
            return True
        return any(wh(x) for x in [s.get("A"), s.get("B"), s.get("def")] + [c["A"] for c in s.get("cases", [])] if x)
    return any(f["n"] == n and wh(f["body"]) for f in m["fns"])


# ways to need a module
NSUSES = ["%(n)s.go();", "%(n)s.go();", "%(n)s.go();", "putchar(%(n)s.K);", "putchar((int) sizeof(%(n)s.t));", "if (getchar() > 0) { %(n)s.t *zq = NULL; if (zq == NULL) puts(\"\"); }",
          "switch (getchar()) { case %(n)s.K: { puts(\"\"); } }", "if (getchar() > 0) { %(n)s.al_t zq = 0; putchar(zq); }"]
DIAG = re.compile(r"^([^:\n]*):(\d*):?(\d*):? (.*)$")


def check(c):
    rm = vlib.tlc("CheScopeMC", spec="Spec", consts={"Emit": "TRUE"}, inv=["UndefinedSound", "UnusedSound", "DuplicateSound", "EmitCase"])
    c.model(rm, "scope walk, all functions of the small family")
    r = c.rng
    en = vlib.tlc_lines(rm, "CASE")
    r.shuffle(en)
    cases = []
    for k, m in enumerate(en[:c.n(500, len(en))]):
        m = wrap_enum(m, k)
        cases.append({"id": "e%d" % k, "m": m})
    for k in range(c.n(900, 9000)):
        g = Gen(r, r.choice([0, 0, 0, 0.03, 0.1]))
        m = g.module()
        if g.dirty == 0 and r.random() < 0.7:
            inject(r, m)
        cases.append({"id": "r%d" % k, "m": m})
    src = {}
    for x in cases:
        src[x["id"]] = render(x["m"], r)
    rs = vlib.tlc("CheScopeEval", spec="Spec", inv=["EmitRes"], files={"cases.ndjson": vlib.ndjson(cases)})
    c.model(rs, "fault sets of %d modules" % len(cases))
    res = {x["id"]: x for x in vlib.tlc_lines(rs, "RES")}
    assert len(res) == len(cases)
    stop = []

    def one(case):
        if len(stop) >= 3:
            return None
        want = res[case["id"]]
        fl = want["faults"]
        if want["unclear"] and not fl:
            return None
        h = vlib.Home(lib=False)
        d = h.dir
        open(d + "/ua.c", "w").write("pub enum { K = 65 }\npub typedef { int a; } t;\npub typedef int al_t;\npub void go() { puts(\"a\"); }\n")
        open(d + "/ub.c", "w").write("pub enum { K = 65 }\npub typedef { int a; } t;\npub typedef int al_t;\npub void go() { puts(\"b\"); }\n")
        open(d + "/main.c", "w").write(src[case["id"]])
        if fl:
            r = h.cmd(["build", "main.c", d + "/p"], cwd=d)
        else:
            r = h.cmd(["build", "main.c", d + "/p"], cwd=d)
        err = (r.err + r.out).decode("utf8", "replace")
        acc = r.rc == 0 and os.path.exists(d + "/p")
        why = None
        if acc != (not fl):
            why = ("accepted although %s" % fl) if acc else "a correct program was rejected: %s" % err[-500:]
        elif fl and not want["unclear"]:
            hard = [f for f in fl if f["kind"] != "redeclared" and not (f["kind"] == "noreturn" and soft(case["m"], f["n"]))]
            if len(hard) == len(fl):
                lines = r.err.decode("utf8", "replace").splitlines()
                ok = False
                for line in lines:
                    mm = re.match(r"^(.*?):(\d+):(\d+): (.*)$", line)
                    if not mm:
                        continue
                    for f in hard:
                        if re.search(r"\b%s\b" % re.escape(f["n"]), mm.group(4)) and os.path.basename(mm.group(1)) == "main.c" \
                                and (f["kind"] == "unusedimport" or int(mm.group(2)) == f["ln"]):
                            ok = True
                if not ok:
                    why = "no diagnostic for any of %s; got: %s" % (hard[:5], err[-500:])
        if why:
            stop.append(1)
            return case, why
        return None

    bad = [x for x in vlib.pmap(one, cases) if x]
    c.cov["cases"] += len(cases)
    c.traces(len(cases))
    kinds = {}
    for x in res.values():
        for f in x["faults"]:
            kinds[f["kind"]] = kinds.get(f["kind"], 0) + 1
    c.cov["faults_by_kind"] = kinds
    c.cov["faultless"] = sum(1 for x in res.values() if not x["faults"])
    for x in cases[-2:]:
        c.sample({"source": src[x["id"]][:500], "faults": res[x["id"]]["faults"][:6]})
    for case, why in bad:
        c.violation(why, {"source": src[case["id"]], "faults": res[case["id"]]})
