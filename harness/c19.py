"""C19: durations, calendar dates and timestamps denote the same time in every representation."""
import vlib
import adt
from adt import op
from datetime import date, timedelta


def w(s):
    return list(s.encode())


EPOCH = date(1970, 1, 1)


def check(c):
    r = c.rng
    for a, b in [(1890, 2110)] + ([(1, 400), (1580, 2420), (9700, 9998)] if c.thorough else []):
        t = vlib.tlc("TimeMC", spec="Spec", consts={"From": a, "To": b}, inv=["DayLaw", "EpochLaw", "IsoLaw", "ZoneLaw", "LocalLaw", "DurLaw"], workers=1, timeout=800)
        c.model(t, "TimeMC: a clock ticking every day of the years %d to %d" % (a, b))
    cases = []
    # durations
    secs = [0, 1, 9, 10, 59, 60, 61, 599, 600, 3599, 3600, 3661, 35999, 36000, 86399, 86400, 359999, 360000, 7777777, 2000000000]
    us = [0, 1, 999, 1000, 1999, 9999, 10000, 99999, 100000, 500000, 999000, 999999]
    ps = []
    for f in range(1, 6):
        for s in secs + [r.randrange(400000) for _ in range(c.n(10, 100))]:
            for u in us if c.thorough else r.sample(us, 4):
                ps.append(op("fmt", f, s, u, 50))
        for s in secs:
            for n in range(0, 22):
                ps.append(op("fmt", f, s, 7000, n))
    parts = ["0", "1", "00", "07", "9", "10", "59", "60", "61", "75", "099", "100", "1000", "59999"]
    fr = ["", ".0", ".5", ".05", ".005", ".29", ".57", ".58", ".999999", ".1234567", ".99999999999", ".000001", ".0000009", ".", ".12x", "x", " ", ".1.2", ",5", "-1"]
    for a in parts:
        for b in parts:
            ps.append(op("parse", w(a + ":" + b)))
            ps.append(op("parse", w(a + ":" + b + r.choice(fr))))
            ps.append(op("parse", w(r.choice(parts) + ":" + a + ":" + b + r.choice(fr))))
    for f in fr:
        ps.append(op("parse", w("12:34" + f)))
        ps.append(op("parse", w("1:02:03" + f)))
    for s in ["", ":", "::", "1", "12", "1:", ":1", "1::2", "1:2:", "1:2:3:", "1:2:3:4", "a", "1:a", "a:1", "-1:00", "1:-1", " 1:00", "1 :00", "1.5", ".5", "1:2.5:3", "+1:02", "2000:00:00", "35:00", "36:00", "99999:59", "596523:14"]:
        ps.append(op("parse", w(s)))
    for _ in range(c.n(300, 3000)):
        d = r.randrange(10 ** 6)
        ps.append(op("parse", w("%d:%02d.%0*d" % (r.randrange(200), r.randrange(60), r.choice([6, 6, 7]), d))))
        ps.append(op("parse", w("".join(r.choice("0123456789::.") for _ in range(r.choice([3, 5, 8]))))))
    for _ in range(c.n(100, 1000)):
        x, y = [r.choice([r.choice(secs[:-1]), r.randrange(10 ** 9)]) for _ in "12"]
        ps.append(op("add", x, r.choice(us), y, r.choice(us)))
        u = r.randrange(1, 5)
        ps.append(op("dur", r.choice([0, 1, 59, 60, 999, 1000, 2147, 2148, 35791, 35792, r.randrange(30 * 10 ** 6)]), u))
    # instants
    days = [d for y in (1, 4, 100, 400, 1600, 1700, 1899, 1900, 1969, 1970, 1999, 2000, 2001, 2004, 2023, 2024, 2025, 2037, 2038, 2039, 2099, 2100, 2101, 2400, 9999)
            for m, q in ((1, 1), (1, 31), (2, 28), (3, 1), (6, 30), (12, 31)) for d in [(date(y, m, q) - EPOCH).days]]
    days += [(date(y, 2, 29) - EPOCH).days for y in (4, 1600, 2000, 2004, 2024)]
    clocks = [0, 1, 59, 60, 3599, 3600, 43199, 43200, 86399]
    someday = lambda: r.choice(days) if r.random() < 0.4 else r.randrange(-40000, 60000) if r.random() < 0.8 else r.randrange(-719162, 2932897)
    for n in days + [someday() for _ in range(c.n(300, 5000))]:
        ps.append(op("unix", n, r.choice(clocks + [r.randrange(86400)])))

    def iso(n, s, ms, z=0):
        d = EPOCH + timedelta(days=n)
        sg = -1 if z < 0 else 1
        return [d.year, d.month, d.day, s // 3600, s // 60 % 60, s % 60, ms, sg * (abs(z) // 60), sg * (abs(z) % 60)]
    zones = [0, 0, 60, 120, 330, 345, 840, -60, -300, -570, -30, 30, -720, 1, -1]
    for _ in range(c.n(600, 6000)):
        a = iso(someday(), r.choice(clocks + [r.randrange(86400)]), r.choice([0, 1, 9, 10, 99, 100, 500, 999]), r.choice(zones))
        ps.append(op("isofmt", *a, r.choice([100, 100, 31, 30, 29, 25, 24, 10, 1, 0])))
        b = iso(someday(), r.randrange(86400), r.randrange(1000), r.choice(zones)) if r.random() < 0.5 else None
        if b is None:
            n0 = (date(*a[:3]) - EPOCH).days
            b = iso(min(2932896, max(-719162, n0 + r.choice([-1, 0, 0, 1, 200]))), r.randrange(86400), r.randrange(1000), r.choice(zones))
        ps.append(op("sub", *a, *b))
    texts = ["2025-12-08T20:31:06+02:00", "2026-01-16T20:01:17.278Z", "2026-01-16T20:01:17.2Z", "2026-01-16T20:01:17.27812345Z", "2026-01-16T20:01:17.05-03:30",
             "0001-01-01T00:00:00Z", "9999-12-31T23:59:59.999Z", "2024-02-29T00:00:00Z", "2026-1-2T3:4:5Z", "2026-01-16T20:01:17-00:30", "2026-01-16T20:01:17.000000999Z"]
    for _ in range(c.n(300, 3000)):
        a = iso(someday(), r.randrange(86400), 0)
        f = r.choice(["", "." + "".join(r.choice("0123456789") for _ in range(r.choice([1, 2, 3, 3, 4, 6, 9])))])
        z = r.choice(["Z", "Z", "%s%02d:%02d" % (r.choice("+-"), r.randrange(15), r.choice([0, 0, 30, 45]))])
        texts.append("%04d-%02d-%02dT%02d:%02d:%02d" % tuple(a[:6]) + f + z)
    ps += [op("isoparse", w(t)) for t in texts]
    for off, tz in [(0, "UTC0"), (330, "IST-5:30"), (345, "NPT-5:45"), (840, "LINT-14"), (-300, "EST5"), (-720, "AAA12"), (-570, "MART9:30"), (60, "CET-1"), (-30, "XYZ0:30"), (45, "QQQ-0:45")]:
        for us_rule in (0, 1):
            name = tz + (tz[:3][::-1] + "D,M3.2.0,M11.1.0" if us_rule else "")
            for _ in range(c.n(15, 150)):
                n = someday() if not us_rule else r.randrange(5000, 40000)
                n = min(2932895, max(-719161, n))
                if us_rule and r.random() < 0.6:    # near the changes
                    y = r.randrange(1990, 2080)
                    q = date(y, 3, 8) if r.random() < 0.5 else date(y, 11, 1)
                    while q.weekday() != 6:
                        q += timedelta(days=1)
                    n = (q - EPOCH).days + r.choice([-1, 0, 0, 0, 1])
                ps.append(op("local", w(name), off, us_rule, *iso(n, r.choice(clocks + [r.randrange(86400)]), r.randrange(1000))[:7]))
    r.shuffle(ps)
    cases = [("t", ps[i:i + 20]) for i in range(0, len(ps), 20)]
    for t in ["", "2026", "2026-", "2026-01-16", "2026-01-16 20:01:17Z", "2026-01-16T20:01:17", "2026/01/16T20:01:17Z", "2026-01-16T20.01:17Z", "2026-01-16T20:01-17Z", "2026-01-16T20:01:17+0200", "2026-01-16T20:01:17 Z", "2026-01-16T20:01:17.5"]:
        cases.append(("t", [op("isoparse", w(t))]))
    ev = []
    for k, q, o in adt.evaluate(c, "TimeEval", cases):
        keep = [i for i in range(len(q)) if o[i] != [{"n": -1}]]
        c.cov["not_judged"] = c.cov.get("not_judged", 0) + len(q) - len(keep)
        ev.append((k, [q[i] for i in keep], [o[i] for i in keep]))
    adt.replay(c, "times", ev, batch=5, limit=6, env={"TZ": "UTC0"})
    c.traces(len(ps))
    c.assumptions += ["durations are not negative; years 1 to 9999; numbers of at most nine digits", "timestamps with missing digits, fields out of range or text after the zone are not judged"]
