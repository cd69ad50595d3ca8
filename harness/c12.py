"""C12: the thread pipe is one bounded first-in first-out queue under every schedule."""
import vlib


def parse(out, res):
    ev = []
    for l in out:
        w = l.split()
        if not w:
            continue
        if w[0] in ("c", "r"):
            ev.append({"k": w[0], "t": int(w[1]), "op": w[2], "v": int(w[3]), "ts": []})
        elif w[0] == "Q":
            ev.append({"k": "Q", "t": 0, "op": "", "v": 0, "ts": sorted(int(x) for x in w[1:] if x != "0")})
        elif w[0] == "end":
            ev.append({"k": "e", "t": 0, "op": "", "v": 0, "ts": []})
        else:
            return None
    if not ev or ev[-1]["k"] not in "eQ":
        if res.rc == 1 and b"panic" in res.err:
            ev.append({"k": "p", "t": 0, "op": "", "v": 0, "ts": []})
        else:
            return None
    elif res.rc != 0:
        return None
    return ev


def scripts(r, cap, j):
    """(rotation, prefill, thread scripts)"""
    fill = r.choice([0, 0, 0, 1, 2, cap - 2, cap - 1, cap, cap])
    fill = max(0, min(cap, fill))
    nw, nr = r.choice([(1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (2, 3), (3, 2), (3, 3)])
    v = fill
    th = []
    for _ in range(nw):
        k = r.choice([1, 2, 3, 3, 4])
        th.append("".join("w%d" % (v + q) for q in range(k)))
        v += k
    style = r.random()
    for _ in range(nr):
        if style < 0.4:
            th.append("R")
        else:
            th.append("".join(r.choice("rrrn") for _ in range(r.choice([1, 2, 3, 4, 6]))))
    x = r.random()
    if x < 0.35:
        th.append("x")
    elif x < 0.55:
        k = r.randrange(len(th))
        th[k] += "x"
    elif x < 0.65 and nw:
        th[0] += "xw%d" % v
    if r.random() < 0.3:
        r.shuffle(th)
    return r.randint(0, cap + 3), fill, th


def check(c):
    # the algorithm itself, exhaustively
    I = ["Bounded", "Mutex", "Conserved", "InOrder"]
    for cap, nw, nr, it, sp in c.n([(1, 2, 2, 2, "FALSE"), (2, 2, 2, 2, "TRUE")],
                                   [(1, 2, 2, 3, "FALSE"), (2, 2, 2, 3, "TRUE"), (2, 3, 2, 2, "FALSE"), (1, 3, 3, 2, "TRUE"), (3, 2, 2, 3, "FALSE")]):
        m = vlib.tlc("ThPipeMC", spec="Spec", consts={"Cap": cap, "NW": nw, "NR": nr, "Items": it, "Spurious": sp},
                     inv=I, props=["AllEnd"] if sp == "FALSE" else None)
        c.model(m, "ThPipeMC cap=%d writers=%d readers=%d items=%d spurious=%s" % (cap, nw, nr, it, sp))
    prog = vlib.build_driver("pipe", "sched")

    def go(job):
        rot, fill, th, env = job
        e = dict(vlib.ENV)
        e.update(env)
        return vlib.drive(prog, ["%d %d" % (rot, fill)] + th, env=e)
    # the capacity as a lone writer sees it
    o, r = go((0, 0, ["".join("w%d" % k for k in range(400))], {"SCHED_SEED": "1"}))
    cap = sum(1 for l in o if l.startswith("r "))
    if not (0 < cap < 400) or not o or not o[-1].startswith("Q"):
        c.violation("a lone writer is not stopped by a full pipe, or is stopped at once: %d writes returned" % cap, {"out": o[-5:], "res": repr(r)})
        return
    jobs = []
    R = c.rng
    # small scripts, every single preemption of a fixed base schedule
    small = [(cap - 1, 0, ["w0", "r"]), (0, 0, ["R", "w0w1x"]), (1, cap, ["w%d" % cap, "r"]), (0, 0, ["r", "r", "w0w1"]),
             (cap - 1, cap, ["w%d" % cap, "w%d" % (cap + 1), "rr"]), (0, 0, ["r", "R", "w0", "x"]), (2, 1, ["R", "R", "x"]),
             (0, cap - 1, ["w%dw%d" % (cap - 1, cap), "w%d" % (cap + 1), "r", "n"]), (0, 0, ["R", "x", "w0"]), (3, cap, ["w%d" % cap, "x", "R"])]
    small += [scripts(R, cap, j) for j in range(c.n(6, 60))]
    base = vlib.pmap(lambda s: go(s + ({"SCHED_SEED": "1", "SCHED_COUNT": "1"},)), small)
    for s, (o, r) in zip(small, base):
        try:
            n = int([l for l in r.err.decode().split("\n") if l.startswith("STEPS")][0].split()[1])
        except (IndexError, ValueError):
            n = 400
        jobs.append(s + ({"SCHED_SEED": "1"},))
        for st in range(1, n + 1):
            for k in c.n((1,), (1, 2, 3)):
                if c.thorough or n <= 260 or R.random() < 260.0 / n:
                    jobs.append(s + ({"SCHED_SEED": "1", "SCHED_PRE": "%d:%d" % (st, k)},))
        for _ in range(c.n(25, 300)):
            a, b = sorted((R.randint(1, n), R.randint(1, n)))
            jobs.append(s + ({"SCHED_SEED": "1", "SCHED_PRE": "%d:%d,%d:%d" % (a, R.randint(1, 3), b, R.randint(1, 3))},))
    for j in range(c.n(1200, 20000)):
        s = scripts(R, cap, j)
        jobs.append(s + ({"SCHED_SEED": str(R.randrange(10**6)), "SCHED_MEM": R.choice(["0", "5", "20", "60"]),
                          "SCHED_SYNC": R.choice(["1", "2", "4"]), "SCHED_SPUR": R.choice(["0", "0", "8"])},))
    outs = vlib.pmap(go, jobs)
    cases = {}
    for j, (o, r) in zip(jobs, outs):
        ev = parse(o, r)
        rep = {"rotate": j[0], "fill": j[1], "threads": j[2], "schedule": j[3], "out": o[-40:], "res": repr(r)}
        if ev is None:
            c.violation("threads %s over a pipe holding %d items (schedule %s): the program fails (%s)" % (j[2], j[1], j[3], (o[-1:], r.rc)), rep)
            if len(c.viol) > 2:
                return
            continue
        key = vlib.json.dumps([j[1], ev])
        cases.setdefault(key, (j[1], len(j[2]), ev, rep))
    keys = list(cases)
    recs = [{"id": n, "fill": cases[k][0], "nt": cases[k][1], "ev": cases[k][2]} for n, k in enumerate(keys)]
    step = max(1, (len(recs) + 7) // 8)
    parts = [recs[a:a + step] for a in range(0, len(recs), step)]
    ok = set()

    def val(p):
        return vlib.tlc("ThPipeTrace", spec="Spec", consts={"Cap": cap}, inv=["Bound", "EmitRes"], files={"cases.ndjson": vlib.ndjson(p)}, workers=1, mem="3g")
    for t in vlib.pmap(val, parts):
        c.model(t)
        ok.update(x["id"] for x in vlib.tlc_lines(t, "RES"))
    for n, k in enumerate(keys):
        if n not in ok:
            fill, nt, ev, rep = cases[k]
            c.violation("threads %s over a pipe holding %d items: no order of effects explains what they observed under schedule %s" % (rep["threads"], fill, rep["schedule"]), rep)
            if len(c.viol) > 2:
                break
        elif n % 997 == 0:
            c.sample("%s: %d events accepted" % (cases[k][3]["threads"], len(cases[k][2])))
    c.cov["cases"] = len(jobs)
    c.cov["distinct_histories"] = len(keys)
    c.cov["capacity"] = cap
    c.traces(len(recs))
    c.assumptions += ["schedules: all single preemptions at instrumented memory accesses and synchronisation calls of a base schedule for the small scripts, random schedules otherwise",
                      "the threads library is compiled with instrumentation; sequentially consistent interleavings only"]
