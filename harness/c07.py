"""C07: every source text gets a verdict: no hang, no crash, exit 0 exactly with an executable, no non-program accepted."""
import glob, os, re
import vlib

KW = ["break", "case", "const", "continue", "default", "else", "enum", "for", "if", "pub", "return", "sizeof", "struct", "switch",
      "typedef", "union", "while"]
BTY = ["char", "double", "float", "int", "void", "ptrdiff_t", "size_t", "int16_t", "int32_t", "int64_t", "int8_t", "uint16_t", "uint32_t",
       "uint64_t", "uint8_t", "bool", "FILE"]
SYMS = ["<<=", ">>=", "...", "++", "--", "->", "<<", ">>", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "&=", "^=", "|=", "==", "!=",
        "!", "~", "&", "^", "*", "/", "%", "=", "|", ":", ",", "<", ">", "+", "-", "{", "}", ";", "[", "]", "(", ")", ".", "?"]
TOK = re.compile(r'(?P<line>#[^\n]*)|(?P<com>//[^\n]*|/\*.*?\*/)|(?P<str>"(?:\\.|[^"\\])*"(?:\s*"(?:\\.|[^"\\])*")*)|(?P<chr>\'(?:\\.|[^\'\\])\')'
                 r'|(?P<num>0x[0-9a-fA-F]+[UL]*|\d+(?:\.\d*)?(?:[eE][-+]?\d+)?[ULf]*)|(?P<word>[A-Za-z_]\w*!?)|(?P<sym>%s)|(?P<ws>\s+)|(?P<bad>.)'
                 % "|".join(re.escape(x) for x in SYMS), re.S)

SINK = r'''#define LIM 4
typedef int num_t;
typedef int op_t(int, int);
typedef int trio_t[3];
typedef {
	int a, b;
	num_t *p;
	union { int i; char c; } u;
	char name[8];
} rec_t;
pub typedef { int x; } pt_t;
enum { E1, E2 = 5, E3, }
pub enum { P1 = 1 + 2, P2 };
int g = 1;
int arr[] = { 1, 2, 3, };
int mat[2][2] = { {1, 2}, {3, 4} };
const char *names[] = { "a", "b" "c" };
int add(int a, b) {
	return a + b;
}
int vsum(int n, ...) {
	return n;
}
pub int twice(pt_t *p) {
	if (!p) {
		return -1;
	} else if (p->x > 3) {
		return p->x << 1;
	} else {
		p->x *= 2;
		p->x -= (p->x & 1) | 0;
	}
	return p->x;
}
void nop() {
	return;
}
int main(int argc, char *argv[]) {
	rec_t r = { .a = 1, .b = E2 };
	rec_t *q = &r;
	op_t *f = &add;
	trio_t t = {};
	t[0] = vsum(1, 2, 3);
	char c = 'x';
	const char *s = "hi\n";
	r.p = &r.a;
	*r.p = f(2, 3) * (r.b + 1) / 2 % 7;
	q->u.i = sizeof(rec_t) > 4 && sizeof(r) != 0;
	int i = 0;
	while (i < LIM) i++;
	while (true) {
		if (i++ > 6) break;
		if (i == 5) {
			continue;
		}
	}
	for (i = 0; i < 3; i++) {
		g += arr[i];
	}
	for (int k = 0; k < 2; k++) g ^= mat[k][1];
	for (;;) {
		break;
	}
	switch (i) {
		case 1, 2: { g = 1; }
		case E3: { g = 2; }
		case 'c': {}
		default: { g++; }
	}
	switch str (s) {
		case "hi\n": { puts(names[1]); }
		case "a", "b": { nop(); }
		default: { panic("no %d", 1); }
	}
	pt_t *pt = calloc!(1, sizeof(pt_t));
	pt->x = (int) c + (num_t) 0x1F - ~g;
	printf("%d %d %d %zu %d\n", twice(pt), -r.a, !g || g >= 1, nelem(arr), P2 + E1);
	uint32_t w = 1U << 3 >> 1;
	w <<= 2;
	w |= 1;
	--w;
	printf("%u %s %f %d %d %d\n", w, argv[0] + 0 * argc, 1.5e3 + 2.0f, t[0], P1, q == &r);
	free(pt);
	return 0;
}
'''


def tokenize(text, types, nss, nstypes):
    """list of (kind, text); kind is the spec's token; lines (#...) are kept apart as kind None"""
    out = []
    for m in TOK.finditer(text):
        k, x = m.lastgroup, m.group()
        if k in ("ws", "com"):
            continue
        if k == "bad":
            return None
        if k == "line":
            out.append((None, x + "\n"))
        elif k == "word":
            if x in KW:
                out.append((x, x))
            elif x.endswith("!") and x != "calloc!":
                out.append(("id", x[:-1]))
                out.append(("!", "!"))
            else:
                out.append(("ty" if x in types else "wstr" if x == "str" else "id", x))
        elif k == "sym":
            out.append((x, x))
        else:
            out.append((k, x))
    # ns.name becomes one token
    res, i = [], 0
    while i < len(out):
        k, x = out[i]
        if k == "id" and x in nss and i + 2 < len(out) and out[i + 1][1] == "." and out[i + 2][0] in ("id", "ty", "wstr"):
            nm = out[i + 2][1]
            res.append(("ty" if nm in nstypes.get(x, ()) else "id", x + "." + nm))
            i += 3
            continue
        res.append((k, x))
        i += 1
    return res


def load(path):
    text = open(path, encoding="utf8").read()
    return prep(text, os.path.dirname(path))


def typedefs(text):
    t = set(re.findall(r"^#type\s+(\w+)", text, re.M))
    ws = [m.group() for m in TOK.finditer(text) if m.lastgroup not in ("ws", "com", "line")]
    for i, w in enumerate(ws):
        if w != "typedef":
            continue
        j, depth, name = i + 1, 0, None
        while j < len(ws) and not (ws[j] == ";" and depth == 0):
            if ws[j] in "({[":
                depth += 1
            elif ws[j] in ")}]":
                depth -= 1
            elif depth == 0 and re.match(r"[A-Za-z_]", ws[j]):
                name = ws[j]
            j += 1
        if name:
            t.add(name)
    return t


def prep(text, d):
    types = set(BTY) | typedefs(text)
    nss, nst = {"OS"}, {}
    for imp in re.findall(r"^#import\s+(\S+)", text, re.M):
        p = os.path.join(d, imp) if imp.endswith(".c") else os.path.join(vlib.REPO, "lib", imp + ".c")
        ns = os.path.basename(p)[:-2]
        nss.add(ns)
        try:
            nst[ns] = typedefs(open(p, encoding="utf8").read())
        except OSError:
            return None
    toks = tokenize(text, types, nss, nst)
    if toks is None:
        return None
    return {"toks": toks, "nss": nss, "text": text, "dir": d}


def render(toks):
    out, line = [], ""
    for k, x in toks:
        if k is None:
            out.append(line)
            out.append(x.rstrip("\n"))
            line = ""
        else:
            line += x + " "
            if x in (";", "{", "}"):
                out.append(line)
                line = ""
    out.append(line)
    return "\n".join(out) + "\n"


INS = ["id", "num", "str", "chr", "ty"] + KW + SYMS
TXT = {"id": "i", "num": "1", "str": '"q"', "chr": "'q'", "ty": "int"}


def mutate(r, toks):
    toks = list(toks)
    pos = [i for i, (k, _) in enumerate(toks) if k is not None]
    for _ in range(r.choice([1, 1, 1, 2])):
        i = r.choice([i for i in pos if i < len(toks)] or [0])
        m = r.random()
        if m < 0.25:
            del toks[i]
        elif m < 0.4:
            toks.insert(i, toks[r.choice(pos) % len(toks)])
        elif m < 0.6:
            k = r.choice(INS)
            toks.insert(i, (k, TXT.get(k, k)))
        elif m < 0.8:
            k = r.choice(INS)
            toks[i] = (k, TXT.get(k, k))
        elif m < 0.9 and i + 1 < len(toks):
            toks[i], toks[i + 1] = toks[i + 1], toks[i]
        elif m < 0.95:
            j = min(len(toks), i + r.randrange(1, 6))
            del toks[i:j]
        else:
            toks = toks[:i]
        if not toks:
            break
    return toks


def unsure(toks, nss):
    """text whose tokens would be read differently from the list"""
    for i, (k, x) in enumerate(toks):
        if k == "id" and x in nss:
            return True
        if k == "str" and i and toks[i - 1][0] == "str":
            return True          # adjacent strings are one literal
        if k == "typedef" or k == "struct":
            pass
    return False


def verdict(src, d=None, name="m.c", raw=None):
    h = vlib.Home(lib=True)
    wd = h.dir + "/w"
    os.makedirs(wd)
    if d:
        for g in glob.glob(d + "/*.c"):
            os.symlink(g, wd + "/" + os.path.basename(g))
        for g in glob.glob(d + "/*"):
            if os.path.isdir(g):
                os.symlink(g, wd + "/" + os.path.basename(g))
    p = wd + "/" + name
    if os.path.lexists(p):
        os.unlink(p)
    with open(p, "wb") as f:
        f.write(raw if raw is not None else src.encode())
    r = h.cmd(["build", p, wd + "/prog.out"], cwd=wd, timeout=60)
    exe = os.path.exists(wd + "/prog.out")
    err = (r.err + r.out).decode("utf8", "replace")
    why = None
    if r.timeout:
        why = "the build did not end within 60 s"
    elif r.rc not in (0, 1):
        why = "the build crashed (status %s): %s" % (r.rc, err[-400:])
    elif (r.rc == 0) != exe:
        why = "exit status %d but the executable %s" % (r.rc, "exists" if exe else "was not produced")
    elif r.rc == 1 and not err.strip():
        why = "refused without a diagnostic"
    import shutil
    shutil.rmtree(h.dir, ignore_errors=True)
    return r.rc == 0, why


def check(c):
    r = c.rng
    n = c.n(3, 4)
    rm = vlib.tlc("CheGrammarMC", spec="Spec", consts={"N": n, "Emit": "TRUE"}, inv=["GBalanced", "GCut", "GCompose", "EmitCase"], timeout=2500)
    c.model(rm, "all token strings up to length %d in a function body" % n)
    cases = []          # (id, tokens kinds for the spec, source, dir, name)

    def add(toks, nss, d=None, name="m.c", only="grammar"):
        if only == "grammar" and unsure(toks, nss):
            only = "none"
        cases.append({"id": len(cases), "t": [k for k, _ in toks if k is not None], "only": only, "src": render(toks), "dir": d, "name": name})

    sink = prep(SINK, "/nonexistent")
    T = sink["toks"]
    ok0, why0 = verdict(render(T))
    if not ok0:
        raise vlib.ToolError("the base program is refused: %s" % why0) if why0 is None else vlib.ToolError(why0)
    body = [i for i, (k, _) in enumerate(T) if k is not None]
    for i in body:
        add(T[:i] + T[i + 1:], sink["nss"])
        if c.thorough or r.random() < 0.5:
            add(T[:i], sink["nss"])
        if c.thorough or r.random() < 0.3:
            add(T[:i] + [T[i]] + T[i:], sink["nss"])
    for _ in range(c.n(800, 15000)):
        add(mutate(r, T), sink["nss"])
    # words that begin or end like the language's own
    for i in body:
        k, x = T[i]
        if k in KW or x in ("str", "calloc!", "panic", "nelem") or (k == "ty" and x in BTY):
            for y in {x.rstrip("!") + "x", x[:-1], x.upper(), "_" + x} - {""}:
                if y in KW or y in BTY:
                    continue
                add(T[:i] + [("id", y)] + T[i + 1:], sink["nss"])
    # enumerated bodies
    en = vlib.tlc_lines(rm, "CASE")
    r.shuffle(en)
    for x in en[:c.n(1500, 15000)]:
        toks = [("ty", "int"), ("id", "i"), ("=", "="), ("num", "1"), (";", ";"), ("ty", "int"), ("id", "main"), ("(", "("), (")", ")"), ("{", "{")]
        toks += [(k, TXT.get(k, k)) for k in x["t"]] + [("id", "puts"), ("(", "("), ("str", '"x"'), (")", ")"), (";", ";"),
                                                         ("return", "return"), ("id", "i"), (";", ";"), ("}", "}")]
        add(toks, set())
    # the repository's own sources
    files = sorted(glob.glob(vlib.REPO + "/samples/*/main.c") + glob.glob(vlib.REPO + "/lib/*.c") + glob.glob(vlib.REPO + "/lib/*/*.c")
                   + glob.glob(vlib.REPO + "/prog/*/*.c"))
    bases = []
    for f in files:
        try:
            b = load(f)
        except (OSError, UnicodeDecodeError):
            continue
        if b and 20 < len(b["toks"]) < 900:
            b["name"] = os.path.basename(f)
            bases.append(b)
    for _ in range(c.n(500, 6000)):
        b = r.choice(bases)
        add(mutate(r, b["toks"]), b["nss"], b["dir"], b["name"])
    recs = [{"id": x["id"], "t": x["t"], "only": x["only"]} for x in cases if x["only"] != "none"]
    # whole sources must be programs for the grammar (guards the specification and the tokenizer)
    for k, b in enumerate(bases):
        recs.append({"id": -1 - k, "t": [k for k, _ in b["toks"] if k is not None], "only": "grammar"})
    recs.append({"id": -1 - len(bases), "t": [k for k, _ in T if k is not None], "only": "grammar"})
    rs = vlib.tlc("CheGrammarEval", spec="Spec", inv=["EmitRes"], files={"cases.ndjson": vlib.ndjson(recs)}, timeout=2500)
    c.model(rs, "grammar verdict of %d token sequences" % len(recs))
    g = {x["id"]: x["g"] for x in vlib.tlc_lines(rs, "RES")}
    nongram = [b["dir"] + "/" + b["name"] for k, b in enumerate(bases) if not g[-1 - k]]
    c.cov["sources_outside_the_grammar"] = nongram
    badset = set(nongram)
    if not g[-1 - len(bases)]:
        raise vlib.ToolError("the base program is not in the grammar")
    if len(nongram) > len(bases) // 4:
        raise vlib.ToolError("the grammar does not cover the repository's sources: %s" % nongram[:5])
    stop = []

    def one(x):
        if len(stop) >= 3:
            return None
        acc, why = verdict(x["src"], x["dir"], x["name"])
        if why is None and acc and x["only"] == "grammar" and not g[x["id"]] and (x["dir"] or "") + "/" + x["name"] not in badset:
            why = "accepted although the token sequence is not a program"
        if why:
            stop.append(1)
            return why, {"source": x["src"], "dir": x["dir"], "name": x["name"]}
        return "acc" if acc else "ref"

    res = vlib.pmap(one, cases)
    # byte level: cuts and stray bytes
    texts = [SINK] + [b["text"] for b in r.sample(bases, min(len(bases), 12))]

    def byte(k):
        if len(stop) >= 3:
            return None
        rr = vlib.random.Random("%d/%d" % (c.seed, k))
        t = rr.choice(texts).encode()
        m = rr.random()
        i = rr.randrange(len(t))
        if m < 0.5:
            t = t[:i]
        elif m < 0.8:
            t = t[:i] + bytes([rr.choice([0, 1, 34, 39, 92, 35, 36, 64, 96, 127, 128, 255, 195, 10, 123, 125])]) + t[i:]
        elif m < 0.9:
            t = t[:i] + t[i + 1:]
        else:
            t = t[:i] + rr.choice([b"/*", b"\"", b"'", b"1e", b"0x", b"'\\", b"\"\\", b"#define", b"#type", b"#import", b"typedef {", b"enum {"])
        _, why = verdict(None, raw=t)
        if why:
            stop.append(1)
            return why, {"source_bytes": t.decode("latin1")}
        return None

    nb = c.n(300, 4000)
    res2 = vlib.pmap(byte, range(nb))
    c.cov["cases"] += len(cases) + nb
    c.cov["ungrammatical"] = sum(1 for x in cases if x["only"] == "grammar" and not g[x["id"]])
    c.cov["accepted"] = res.count("acc")
    c.cov["refused"] = res.count("ref")
    c.traces(len(cases))
    c.sample({"tokens": " ".join(cases[0]["t"][:40]), "program": g.get(0)})
    for x in [x for x in res + res2 if isinstance(x, tuple)][:3]:
        c.violation(x[0], x[1])
