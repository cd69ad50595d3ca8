"""C18: command line options are read as declared; subcommands are dispatched."""
import vlib
import adt
from adt import op


def decl(t, c, desc=b"about"):
    return op("decl", ord(t), list(c.encode()), list(desc))


def word(s):
    return list(s) if isinstance(s, (bytes, list)) else list(s.encode())


NUMS = ["0", "1", "-1", "12", "007", "-0", "-", "", "+5", "1x", "x1", " 1", "1 ", "2147483647", "2147483648", "-2147483648", "-2147483649",
        "99999999999", "4294967297", "-5", "18446744073709551616", "9999999999999999999", "00000000000000000000012", "1.5", "--3"]


def check(c):
    r = c.rng
    t = vlib.tlc("OptMC", spec="Spec", consts={"L": c.n(3, 4)}, inv=["RestLaw", "TailLaw", "FailLaw", "CountLaw", "EmitRes"], workers=vlib.NPROC, timeout=800)
    c.model(t, "OptMC: all argument lists up to length %d over 13 words" % c.n(3, 4))
    xs = [x["x"] for x in vlib.tlc_lines(t, "RES")]
    D = [decl("b", "b"), decl("s", "s"), decl("i", "i"), decl("b", "c")]
    small = [x for x in xs if len(x) <= 2]
    large = [x for x in xs if len(x) > 2]
    cases = [("o", D + [op("parse", *x)]) for x in small + r.sample(large, min(len(large), c.n(500, 4000)))]
    for n in NUMS:
        for t in "izsf":
            cases.append(("o", [decl(t, "k"), op("parse", word("-k"), word(n))]))
            cases.append(("o", [decl(t, "k"), op("parse", word("-k"), word(n), word("-k"), word("3"), word("rest"))]))
    for _ in range(c.n(500, 5000)):
        ds = []
        letters = r.sample("abcdefghijklmnopqrstuvwxyzABCXYZ0123456789", r.choice([1, 3, 6, 12, 32]))
        ty = {}
        for l in letters:
            t = r.choice("bbsizf")
            ds.append(decl(t, l))
            ty[l] = t
        if r.random() < 0.1 and len(ds) < 32:
            ds.append(decl(r.choice("bs"), letters[0]))
        if r.random() < 0.3:
            ds.append(op("nargs", r.choice([0, 1, 2, 3]), word(r.choice(["", "file ..."]))))
        av = []
        for _ in range(r.choice([0, 1, 2, 4, 8])):
            x = r.random()
            l = r.choice(letters)
            bools = [q for q in letters if ty[q] == "b"]
            if x < 0.4:
                av.append(word("-" + l))
                if ty[l] != "b" and r.random() < 0.97:
                    av.append(word(r.choice(["5", "12", "-7", "0"]) if ty[l] in "if" else r.choice(["5", "0", "77"]) if ty[l] == "z" else r.choice(["str", "-b", "", "-", "--", "a b"])))
            elif x < 0.75 and bools:
                av.append(word("-" + "".join(r.choice(bools) for _ in range(r.choice([1, 2, 3, 5])))))
            elif x < 0.8:
                av.append(word("-" + r.choice(["?", "h", l + "h", "hh", "-", "-help", l + l])))
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            av.append(word(r.choice(["", "-", "a", "file", "-x", "--", "-" + letters[0], "é"])))
        cases.append(("o", ds + [op("parse", *av)]))
    for n in (31, 32, 33):
        cases.append(("o", [decl("b", chr(40 + i)) for i in range(n)] + [op("parse", word("-" + chr(40 + n - 1)), word("x"))]))
    cases.append(("o", [decl("b", "ab"), op("parse")]))
    names = ["add", "ad", "addx", "", "-h", "list", "b", "c", "d", "e", "f"]
    for n in range(0, 12):
        for av in [[], ["nosuch"], [names[max(0, n - 1)]], [names[0], "x", "-y"], [names[n // 2], ""]]:
            cases.append(("o", [op("cmd", word(names[i])) for i in range(min(n, 11))] + [op("dispatch", *map(word, av))]))
    cases.append(("o", [op("cmd", word("x")), op("cmd", word("x")), op("dispatch", word("x"), word("1"))]))
    ev = adt.evaluate(c, "OptEval", cases)
    skipped = [q for q in ev if q[2][-1] == [{"n": -1}]]
    ev = [q for q in ev if q[2][-1] != [{"n": -1}]]
    c.cov["not_judged"] = len(skipped)
    adt.replay(c, "opts", ev, batch=1, dead="")
    # usage names every option with its description
    prog = vlib.build_driver("opts", "asan")
    for _ in range(c.n(10, 60)):
        ls = r.sample("abcdefgxyz", r.choice([0, 1, 4, 9]))
        lines = ["o decl %d %s %s" % (ord(r.choice("bsizf")), vlib.hx(l.encode()), vlib.hx(("what %s does" % l).encode())) for l in ls]
        out, p = vlib.drive(prog, lines + ["o usage " + vlib.hx(b"SUMMARY here")])
        err = p.err.decode("utf8", "replace").split("\n")
        opts = [x for x in err if x.startswith("\t-")]
        if p.rc != 0 or out[-1].split() != ["1"] or "SUMMARY here" not in err or [x[2] for x in opts] != ls or any("what %s does" % l not in x for l, x in zip(ls, opts)):
            c.violation("usage does not list the options %s: %r" % (ls, p.err[-300:]), {"lines": lines})
    c.assumptions += ["fractional values and trailing text of float options are not judged", "sizes above 19 digits are not judged"]
