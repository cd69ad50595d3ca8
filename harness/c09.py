"""C09: the commands: test runner verdicts, totals and status; run, install, build, genc, exports, deptree."""
import os, re, shutil
import vlib


def parse_test_output(out, paths):
    """Recorded output -> events. Text of the tests themselves is attached to their verdict."""
    ev = []
    cur = None          # failing test whose output follows
    mode = None
    for line in out.split("\n"):
        m = re.match(r"(OK|FAIL) (\S+?\.test\.c)(?:: (.*))?$", line)
        if m and m.group(2) in paths:
            ev.append({"e": "ok" if m.group(1) == "OK" else "fail", "p": m.group(2), "o": m.group(3) or ""})
            cur = ev[-1] if m.group(1) == "FAIL" else None
            mode = None
            continue
        m = re.match(r"(\d+) tests$", line)
        if m:
            ev.append({"e": "dir", "n": int(m.group(1))})
            cur = None
            continue
        m = re.match(r"fails: (\d+), total: (\d+)$", line)
        if m:
            ev.append({"e": "sum", "fails": int(m.group(1)), "total": int(m.group(2))})
            continue
        m = re.match(r"OK (\d+) tests$", line)
        if m:
            ev.append({"e": "sum", "fails": 0, "total": int(m.group(1))})
            continue
        if line == "stdout:":
            mode = "o"
            continue
        if line == "stderr:":
            mode = "e"
            continue
        if mode == "o" and cur is not None and line:
            cur["o"] += line
    return ev


def mktest(r, kind, i):
    o = "out%d" % i if r.random() < 0.6 else ""
    body = 'printf("%s\\n");' % o if o else ""
    if kind == "ok":
        return "int main() {\n\t%s\n\treturn 0;\n}\n" % body, o
    if kind == "fail":
        return "int main() {\n\t%s\n\treturn %d;\n}\n" % (body, r.choice([1, 2, 42, 255])), o
    if kind == "sig":
        return "int main() {\n\tint *p = NULL;\n\t*p = 1;\n\treturn *p;\n}\n", ""
    return r.choice(["int main() {\n\treturn nosuch;\n}\n", "int main() {\n\tint x = 1;\n\treturn 0;\n}\n", "int main( {", "int main() {\n\tint *p = 5;\n\treturn *p;\n}\n"]), ""


def runner_cases(c, home):
    r = c.rng
    cases = []
    for i in range(c.n(16, 120)):
        root = vlib.tmpdir("c09")
        dirs, args = [], []
        for d in range(r.choice([1, 1, 2])):
            top = "d%d" % d
            os.makedirs(os.path.join(root, top))
            tests = []
            subs = [top]
            for s in range(r.randrange(0, 3)):
                p = r.choice(subs) + "/s%d" % s
                os.makedirs(os.path.join(root, p))
                subs.append(p)
            for t in range(r.randrange(1 if i == 3 else 0, 6)):
                k = r.choice(["ok", "ok", "ok", "fail", "sig"] + (["nc"] if i % 4 == 3 else []))
                if i == 3 and t == 0:
                    k = "nc"
                src, o = mktest(r, k, t)
                p = "%s/t%d.test.c" % (r.choice(subs), t)
                open(os.path.join(root, p), "w").write(src)
                tests.append({"p": p, "k": k, "o": o})
            for name, text in (("x.c", "int main( {"), ("test.c", "int main() { return 1; }"), ("a.test.h", ""), ("notes.test.c.txt", "x")):
                if r.random() < 0.5:
                    open(os.path.join(root, r.choice(subs), name), "w").write(text)
            dirs.append(tests)
            args.append(top)
        x = home.cmd(["test"] + args, cwd=root, timeout=120)
        paths = {t["p"] for ts in dirs for t in ts}
        ev = parse_test_output(x.out.decode("utf8", "replace"), paths) + [{"e": "exit", "code": x.rc}]
        cases.append({"k": "test", "dirs": dirs, "ev": ev, "info": x.out.decode("utf8", "replace")[-3000:]})
    return cases


def binary_output(c, home):
    """A test may print any bytes: its verdict and the tests after it must not be lost."""
    root = vlib.tmpdir("c09b")
    os.makedirs(root + "/d")
    open(root + "/d/a.test.c", "w").write('int main() {\n\tputs("\\xff\\xfe");\n\treturn 0;\n}\n')
    open(root + "/d/b.test.c", "w").write('int main() {\n\tputs("fine");\n\treturn 0;\n}\n')
    x = home.cmd(["test", "d"], cwd=root, timeout=60)
    c.cov["cases"] += 1
    if x.rc != 0 or b"OK d/a.test.c" not in x.out or b"OK d/b.test.c: fine" not in x.out:
        key = "binary-output-aborts" if x.rc == 101 and b"Utf8Error" in x.err else None
        c.violation("che test with a test printing bytes that are not UTF-8: %r" % x, {"got": repr(x)}, key=key)


def many_case(c):
    """More failures than a status byte holds. The C compiler is a stand-in producing a failing program."""
    h = vlib.Home(lib=False)
    os.makedirs(h.dir + "/bin")
    with vlib.XLOCK, open(h.dir + "/bin/c99", "w") as f:
        f.write('#!/bin/sh\nwhile [ $# -gt 0 ]; do [ "$1" = -o ] && out="$2"; shift; done\ncp /bin/false "$out"\n')
    os.chmod(h.dir + "/bin/c99", 0o755)
    h.env["PATH"] = h.dir + "/bin:" + vlib.ENV["PATH"]
    out = []
    for n in (255, 256, 257):
        root = vlib.tmpdir("c09many")
        os.makedirs(root + "/d")
        ts = []
        for i in range(n):
            p = "d/t%d.test.c" % i
            open(os.path.join(root, p), "w").write("int main() { return 1; }\n")
            ts.append({"p": p, "k": "fail", "o": ""})
        x = h.cmd(["test", "d"], cwd=root, timeout=120)
        ev = parse_test_output(x.out.decode("utf8", "replace"), {t["p"] for t in ts}) + [{"e": "exit", "code": x.rc}]
        out.append({"k": "test", "dirs": [ts], "ev": ev, "info": "%d failing tests, exit %d" % (n, x.rc)})
    return out


def exports_cases(c, home):
    r = c.rng
    cases = []
    for i in range(c.n(40, 300)):
        els, src = [], []
        names = ["n%d" % k for k in range(20)]
        r.shuffle(names)
        for _ in range(r.randrange(0, 7)):
            pub = r.random() < 0.6
            P = "pub " if pub else ""
            k = r.random()
            n = names.pop()
            if k < 0.25:
                ns = [n] + [names.pop() for _ in range(r.randrange(0, 3)) if names]
                els.append({"k": "enum", "pub": pub, "ns": ns})
                src.append("%senum { %s }" % (P, ", ".join(x + r.choice(["", " = %d" % r.randrange(9)]) for x in ns)))
                if not pub:
                    src.append("pub int use_%s() { return %s; }" % (n, " + ".join(ns)))
                    els.append({"k": "fn", "pub": True, "n": "use_" + n, "sig": "int use_%s()" % n})
            elif k < 0.5:
                els.append({"k": "type", "pub": pub, "n": n})
                src.append(P + r.choice(["typedef { int a, b; } %s;", "typedef int %s;", "typedef int %s(int);", "typedef int %s[4];"]) % n)
            else:
                ret = r.choice(["int", "void", "char *", "const char *", "size_t "])
                ps, txt = [], []
                for j in range(r.randrange(0, 4)):
                    t = r.choice(["int a%d", "const char *a%d", "double a%d", "char **a%d", "int a%d[3]", "uint8_t *a%d"]) % j
                    if j and r.random() < 0.3 and t.split(" ")[0] == txt[-1][0]:
                        pass
                    txt.append((t.split(" ")[0], t))
                    ps.append(t)
                shown, last = [], None
                for t in ps:
                    m = re.match(r"((?:const )?\w+) (.*)", t)
                    if last == m.group(1) and r.random() < 0.5:
                        shown.append(m.group(2))
                    else:
                        shown.append(t)
                    last = m.group(1)
                vararg = bool(ps) and r.random() < 0.3
                if vararg:
                    shown.append("...")
                sig = "%s%s%s(%s)" % (ret, "" if ret[-1] in "* " else " ", n, ", ".join(shown))
                body = " ".join("(void) a%d;" % j for j in range(len(ps)))
                rr = "" if ret == "void" else " return 0;"
                els.append({"k": "fn", "pub": pub, "n": n, "sig": sig})
                src.append("%s%s { %s%s }" % (P, sig, body, rr))
                if not pub:
                    call = "%s(%s);" % (n, ", ".join("NULL" if re.search(r"[*\[]", t) else "0" for t in ps))
                    src.append("pub void use_%s() { %s }" % (n, call))
                    els.append({"k": "fn", "pub": True, "n": "use_" + n, "sig": "void use_%s()" % n})
        d = vlib.tmpdir("c09e")
        open(d + "/m.c", "w").write("\n".join(src) + "\n")
        x = home.cmd(["exports", "m.c"], cwd=d)
        sec, got = None, {"constants": [], "types": [], "functions": []}
        for line in x.out.decode("utf8", "replace").split("\n"):
            if line in got:
                sec = line
            elif line.startswith("\t") and sec:
                got[sec].append(line.strip())
        cases.append({"k": "exports", "els": els, "got": got, "rc": x.rc, "src": "\n".join(src), "info": (x.out + x.err).decode("utf8", "replace")})
    return cases


def squeeze(s):
    return re.sub(r"\s+", "", s)


def deptree_cases(c, home):
    r = c.rng
    cases = []
    for i in range(c.n(20, 150)):
        d = os.path.realpath(vlib.tmpdir("c09d"))
        n = r.randrange(1, 6)
        imp = {}
        for k in range(n):
            later = ["m%d" % j for j in range(k + 1, n)]
            imp["m%d" % k] = r.sample(later, r.randrange(0, min(3, len(later)) + 1))
        for m, im in imp.items():
            body = "pub int go() { return 1%s; }\n" % "".join(" + %s.go()" % x for x in im)
            if m == "m0":
                body = "int main() { return 0%s; }\n" % "".join(" * %s.go()" % x for x in im)
            open("%s/%s.c" % (d, m), "w").write("".join("#import %s.c\n" % x for x in im) + body)
        x = home.cmd(["deptree", d + "/m0.c"], cwd=d)
        got = []
        for line in x.out.decode("utf8", "replace").rstrip("\n").split("\n"):
            m = re.match(r"( *)(?:- )?(\S+)$", line)
            if m:
                got.append([len(m.group(1)) // 2, os.path.basename(m.group(2)).replace(".c", "")])
        cases.append({"k": "deptree", "imports": imp, "root": "m0", "got": got, "rc": x.rc, "dir": d, "info": (x.out + x.err).decode("utf8", "replace")})
    return cases


ECHO = """#import h.c
int main(int argc, char **argv) {
	printf("%%d args\\n", argc - 1);
	for (int i = 1; i < argc; i++) printf("[%%s]\\n", argv[i]);
	char buf[100] = {};
	if (fgets(buf, 100, stdin)) printf("in %%s", buf);
	fprintf(stderr, "err\\n");
	return h.code(%d);
}
"""


def many_exports(c, home):
    """Several paths: each is listed in order; refused ones make the status 1 and do not hide the others."""
    r = c.rng
    for i in range(c.n(10, 60)):
        d = vlib.tmpdir("c09m")
        n = r.choice([2, 3, 6, 9, 12])
        broken = set(r.sample(range(n), r.choice([0, 0, 1, 2]))) if n > 2 else set()
        for k in range(n):
            open("%s/m%d.c" % (d, k), "w").write(r.choice(["pub int f%d( {", "pub int f%d() { return 1; }\n}", "#import nosuch.c\npub int f%d() { return 1; }\n"]) % k
                                                 if k in broken else "pub int f%d() { return %d; }\n" % (k, k))
        x = home.cmd(["exports"] + ["m%d.c" % k for k in range(n)], cwd=d)
        got = re.findall(r"\bf(\d+)\b", x.out.decode("utf8", "replace"))
        first = min(broken) if broken else n
        want = [str(k) for k in range(n) if k not in broken]
        c.cov["cases"] += 1
        if x.rc != (1 if broken else 0) or not (got == want or (broken and got == [str(k) for k in range(first)])) or (broken and not x.err):
            c.violation("che exports of %d files, of which %s are refused: %r" % (n, sorted(broken), x), {"got": repr(x)})


def commands(c, home):
    """run / build / install / genc / usage: same program, same observable behaviour."""
    r = c.rng
    nonlocal_bad = []

    def bad(what, info):
        c.violation(what, info)

    for i in range(c.n(5, 40)):
        d = vlib.tmpdir("c09r")
        code = r.choice([0, 1, 2, 7, 100, 255])
        open(d + "/h.c", "w").write("pub int code(int x) {\n\treturn x;\n}\n")
        args = [r.choice(["a", "", "two words", "-x", "--help", "é", "*", "$HOME"]) for _ in range(r.randrange(0, 4))]
        want = ("%d args\n" % len(args) + "".join("[%s]\n" % a for a in args) + "in hello\n").encode()
        name = ["p%d", "p.q%d", "p.v1.%d", "p-%d", "_p%d"][i % 5] % i
        open(d + "/" + name + ".c", "w").write(ECHO % code)
        src = name + ".c"
        stdin = b"hello\n"
        c.cov["cases"] += 1

        def same(x, how):
            if (x.rc, x.out) != (code, want) or b"err" not in x.err:
                bad("%s: expected exit %d and %r, got %r" % (how, code, want, x), {"args": args, "got": repr(x)})
        with vlib.XLOCK:
            same(home.cmd(["run", src] + args, cwd=d, stdin=stdin), "che run")
            # a refused program must not run anything, in particular not the last one built
            open(d + "/broken.c", "w").write("int main() {\n\treturn nosuch;\n}\n")
            x = home.cmd(["run", "broken.c"] + args, cwd=d, stdin=stdin)
            if x.rc != 1 or x.out or not x.err:
                bad("che run on a refused program: %r" % x, {"got": repr(x)})
        x = home.cmd(["build", src], cwd=d)
        if x.rc or not os.path.exists(os.path.join(d, name)):
            bad("che build %s left no ./%s: %r" % (src, name, x), {})
        else:
            same(vlib.run([os.path.join(d, name)] + args, cwd=d, stdin=stdin), "che build")
        x = home.cmd(["install", src], cwd=d)
        inst = os.path.join(home.dir, "bin", name)
        if x.rc or not os.path.exists(inst):
            bad("che install left no $CHELANG_HOME/bin/%s: %r" % (name, x), {})
        else:
            same(vlib.run([inst] + args, cwd=d, stdin=stdin), "che install")
        x = home.cmd(["install", "broken.c"], cwd=d)
        if x.rc != 1 or os.path.exists(os.path.join(home.dir, "bin", "broken")):
            bad("che install of a refused program: %r" % x, {})
        x = home.cmd(["genc", src, "gen"], cwd=d)
        cs = sorted(f for f in os.listdir(d + "/gen") if f.endswith(".c")) if os.path.isdir(d + "/gen") else []
        if x.rc or len(cs) != 2:
            bad("che genc did not write one C file per module: %r %r" % (x, cs), {})
        else:
            g = vlib.run(["c99", "-w"] + [d + "/gen/" + f for f in cs] + ["-o", d + "/g.out", "-lm"], cwd=d)
            if g.rc:
                bad("the C code of che genc does not compile: %r" % g, {})
            else:
                same(vlib.run([d + "/g.out"] + args, cwd=d, stdin=stdin), "che genc")
        x = home.cmd(["genc", "broken.c", "gen2"], cwd=d)
        if x.rc != 1 or not x.err:
            bad("che genc on a refused program: %r" % x, {})
    for args in (["nosuchcommand"], [], ["bild", "x.c"], ["build"], ["run"], ["deptree"], ["install"], ["build", "a", "b", "c"]):
        x = home.cmd(args)
        c.cov["cases"] += 1
        if x.rc != 1 or not x.err:
            bad("che %s: expected a usage message and status 1, got %r" % (" ".join(args), x), {"args": args})


def check(c):
    r = vlib.tlc("CheCmdMC", spec="Spec", consts={"MaxTests": c.n(2, 3)}, inv=["NoErr", "ExitMeansAllPass", "CountsAll"], props=["Ends"])
    c.model(r, "CheCmdMC: test runner over all kinds of up to %d tests in two directories, any order" % c.n(2, 3))
    keep = os.path.exists("/tmp/chebuild")
    home = vlib.Home(lib=False)
    os.makedirs(home.dir + "/bin", exist_ok=True)
    cases = runner_cases(c, home) + many_case(c) + exports_cases(c, home) + deptree_cases(c, home)
    strip = lambda x: {k: v for k, v in x.items() if k not in ("info", "src", "got", "rc", "dir")}
    t = vlib.tlc("CheCmdEval", spec="Spec", inv=["EmitRes"], files={"cases.ndjson": vlib.ndjson([strip(x) for x in cases])})
    c.model(t)
    res = {x["i"] - 1: x["r"] for x in vlib.tlc_lines(t, "RES")}
    for i, x in enumerate(cases):
        c.cov["cases"] += 1
        e = res[i]
        if x["k"] == "test":
            if e["a"]:
                key = "nocompile-not-counted" if not e["b"] and any(t["k"] == "nc" for d in x["dirs"] for t in d) else None
                c.violation("che test: %s" % e["a"], {"dirs": x["dirs"], "events": x["ev"], "output": x["info"]}, key=key)
                continue
        elif x["k"] == "exports":
            g = x["got"]
            if x["rc"] or g["constants"] != e["consts"] or g["types"] != e["types"] or \
               [squeeze(s) for s in g["functions"]] != [squeeze(s) for s in e["fns"]]:
                c.violation("che exports printed %r, the module exports %r" % (g, e), {"source": x["src"], "output": x["info"]})
                continue
        else:
            want = [[n["d"], n["m"]] for n in e["tree"]]
            if x["rc"] or x["got"] != want:
                c.violation("che deptree printed %r, the imports form %r" % (x["got"], want), {"imports": x["imports"], "output": x["info"]})
                continue
        c.traces(1)
    commands(c, home)
    many_exports(c, home)
    binary_output(c, home)
    if not keep and os.path.exists("/tmp/chebuild"):
        os.unlink("/tmp/chebuild")
    c.sample({"dirs": cases[0]["dirs"], "events": cases[0]["ev"]})
    c.cov["bounds"] = "runner model: all kinds of <=%d tests per directory; recorded runs: <=2 directories, <=5 tests each, 255..257 failing tests" % c.n(2, 3)
    c.assumptions += ["directories given to che test exist and are readable"]
