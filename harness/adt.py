"""Histories of operations against specified machines.

A case is (kind, operations); an operation is {"op": name, "a": [arguments]}, an
argument {"n": number} or {"b": [bytes]}. spec/<module>.tla gives the
outputs of each operation: {"n"}, {"b"}, {"z"} (null), {"p"} (the program ends by a
panic, or an exit with the text `dead`) or {"any"} (unspecified). The driver executes one operation per line."""
import vlib
from vlib import hx


def N(n):
    return {"n": n}


def B(b):
    return {"b": list(b)}


def op(name, *a):
    return {"op": name, "a": [N(x) if isinstance(x, int) else B(x) for x in a]}


def rnd_bytes(r, n, pool=None):
    return [r.choice(pool) if pool else r.randrange(256) for _ in range(n)]


def line(k, p):
    return " ".join([k, p["op"]] + [str(x["n"]) if "n" in x else hx(x["b"]) for x in p["a"]])


def expect(o):
    return ["*" if "any" in x else "<=%d" % x["le"] if "le" in x else str(x["n"]) if "n" in x else hx(x["b"]) if "b" in x else "P" if "p" in x else "NULL" for x in o]


def evaluate(c, module, cases, parts=None, timeout=800, mem="4g"):
    """cases: [(kind, ops)]; returns [(kind, ops, outputs)] as specified."""
    if not cases:
        return []
    k = parts or max(1, min(vlib.NPROC, len(cases) // 40))
    chunks = [cases[i::k] for i in range(k)]

    def ev(ch):
        return vlib.tlc(module, spec="Spec", inv=["EmitRes"], workers=1, timeout=timeout, mem=mem,
                        files={"cases.ndjson": vlib.ndjson([{"c": q[0], "ps": q[1]} for q in ch])})
    out = []
    for ch, t in zip(chunks, vlib.pmap(ev, chunks)):
        c.model(t)
        o = {}
        for x in vlib.tlc_lines(t, "RES"):
            o.setdefault(x["i"], {})[x["k"]] = x["o"]
        for i, q in enumerate(ch):
            d = o.get(i + 1, {})
            if any(k + 1 not in d for k in range(len(q[1]))):
                raise vlib.ToolError("%s gave no outputs for %r" % (module, q))
            out.append((q[0], q[1], [d[k + 1] for k in range(len(q[1]))]))
    return out


def same(w, g):
    return len(w) == len(g) and all(a == "*" or a == b or (a[:2] == "<=" and b.isdigit() and int(b) <= int(a[2:])) for a, b in zip(w, g))


def replay(c, driver, cases, batch=100, limit=6, shim="asan", env=None, key=None, timeout=60, collect=None, dead="panic"):
    """Replays [(kind, ops, outputs)] through drivers/<driver>.c; collect(case, operation index, words) sees the outputs left open."""
    prog = vlib.build_driver(driver, shim)
    calm, alone = [], []
    for q in cases:
        (alone if any("p" in x for o in q[2] for x in o) else calm).append(q)
    batches = [calm[i:i + batch] for i in range(0, len(calm), batch)] + [[q] for q in alone]

    found = []

    def one(b):
        if len(found) >= limit:
            return None
        x = run(b)
        if isinstance(x, tuple):
            found.append(x)
        return x

    def run(b):
        lines, want, at, seen = [], [], {}, []
        for ci, (k, ps, o) in enumerate(b):
            lines.append(k + " new")
            want.append((ci, None))
            first = len(want) - 1
            for p, x in zip(ps, o):
                lines.append(line(k, p))
                want.append((ci, expect(x)))
                at[len(want) - 1] = len(want) - 2 - first
                if any("p" in y for y in x):
                    break
            else:
                lines.append(k + " free")
                want.append((ci, None))
        out, res = vlib.drive(prog, lines, timeout=timeout, env=env, cwd=vlib.tmpdir("dr"))
        err = res.err.decode("utf8", "replace")
        for j, (ci, w) in enumerate(want):
            if j >= len(out):
                if w and "P" in w and res.rc == 1 and dead in err and "Sanitizer" not in err and j == len(want) - 1:
                    return None
                # the operation that was running, unless the output stopped mid-case
                return (b[ci], "the program ended (status %s%s) at: %s" % (res.rc, ", timeout" if res.timeout else "", lines[j][:300]), err[-1500:])
            if w is not None and not same(w, out[j].split()):
                return (b[ci], "%s: expected %s, got %s" % (lines[j][:300], " ".join(w)[:300], out[j][:300]), "")
            if collect and w and "*" in w:
                seen.append((b[ci], at[j], out[j].split()))
        if res.rc != 0:
            return (b[-1], "exit status %s" % res.rc, err[-1500:])
        return seen
    for b, bad in zip(batches, vlib.pmap(one, batches)):
        if isinstance(bad, list):
            for x in bad:
                collect(*x)
            bad = None
        c.cov["cases"] += sum(len(q[1]) for q in b)
        if bad and len(c.viol) < limit:
            (k, ps, o), what, err = bad
            c.violation("%s: %s %s" % (k, what, err[:400]), {"kind": k, "ops": ps, "expected": [expect(x) for x in o], "stderr": err},
                        key=key and key(k, ps))
    c.traces(len(cases))
    if cases:
        c.sample({"kind": cases[-1][0], "ops": cases[-1][1][:5], "outputs": cases[-1][2][:5]})
