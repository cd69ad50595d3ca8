"""C08: structs, unions, arrays, enums, aliases, pointers and function pointers store, copy and share as specified."""
import json, os
import vlib

INTS = [("int", 32, True), ("uint8_t", 8, False), ("int8_t", 8, True), ("uint16_t", 16, False), ("int16_t", 16, True)]


def ty_int(r, small=False):
    n, b, s = r.choice(INTS[1:] if small else INTS)
    return {"k": "int", "bits": b, "sg": s, "c": n}


class Gen:
    def __init__(self, r):
        self.r = r
        self.types = []      # {"name","mod","src","fs"}
        self.aliases = []    # (mod, text)
        self.fns = []
        self.enums = []
        self.globs = []
        self.roots = {}      # name -> type
        self.nuniq = 0

    def uniq(self, p):
        self.nuniq += 1
        return "%s%d" % (p, self.nuniq)

    # ---- types
    def field_type(self, mod, idx, depth=0):
        r = self.r
        k = r.random()
        by_value = [t for t in self.types[:idx] if t["mod"] == mod or mod == "main"]
        if k < 0.4:
            return ty_int(r)
        if k < 0.6 and depth < 2:
            el = self.field_type(mod, idx, depth + 1) if r.random() < 0.5 else ty_int(r)
            if el["k"] in ("un",):
                el = ty_int(r)
            return {"k": "arr", "n": r.randrange(1, 4), "t": el}
        if k < 0.75 and by_value:
            return {"k": "st", "name": r.choice(by_value)["name"]}
        if k < 0.87:
            ptrs = [t for t in self.types if t["mod"] == mod or mod == "main"]
            return {"k": "ptr", "name": r.choice(ptrs)["name"]}
        if k < 0.94 and depth == 0:
            ms = []
            for n in r.sample(["b", "h", "lo", "q", "b2", "h2", "lo2", "q2", "b3", "h3"], r.choice([2, 3, 3, 10])):
                t = ty_int(r, True)
                if r.random() < 0.6:
                    t = {"k": "arr", "n": r.randrange(1, 4), "t": t}
                ms.append({"n": n, "t": t})
            return {"k": "un", "ms": ms}
        if mod == "main":
            return {"k": "fn"}
        return ty_int(r)

    def mktypes(self):
        r = self.r
        plan = [("m1", n) for n in r.sample(["t", "node_t", "pt"], r.randrange(1, 3))] + \
               [("main", n) for n in r.sample(["t", "node_t", "pt", "rec_t"], r.randrange(2, 4))]
        for mod, n in plan:
            self.types.append({"name": mod + ":" + n, "mod": mod, "src": n, "fs": []})
        for i, t in enumerate(self.types):
            for f in r.sample(["a", "b", "c", "x", "next", "val", "t", "u"], r.randrange(1, 6)):
                t["fs"].append({"n": f, "t": self.field_type(t["mod"], i)})
        for mod, ns in (("m1", ["E0", "E1", "E2"]), ("main", ["E0", "K1", "K2", "K3"])):
            g = []
            for n in ns:
                x = r.choice(["n", "n", "v", "r"])
                if x == "r" and not g:
                    x = "v"
                g.append({"n": mod + ":" + n, "x": x, "v": r.choice([0, 1, 2, 5, 100, 255]), "ref": r.choice(g)["n"] if x == "r" else ""})
            self.enums.append(g)

    # ---- helper: leaf paths of a type
    def leaves(self, t, pre=()):
        if t["k"] == "st":
            st = [x for x in self.types if x["name"] == t["name"]][0]
            for f in st["fs"]:
                yield from self.leaves(f["t"], pre + ({"s": "f", "n": f["n"]},))
        elif t["k"] == "un":
            for m in t["ms"]:
                yield from self.leaves(m["t"], pre + ({"s": "f", "n": m["n"]},))
        elif t["k"] == "arr":
            for i in range(t["n"]):
                yield from self.leaves(t["t"], pre + ({"s": "i", "e": {"k": "lit", "v": i}},))
        else:
            yield pre, t

    def st(self, name):
        return [x for x in self.types if x["name"] == name][0]

    def steps(self, t, env, stop, depth=6):
        """Random walk from type t to a type accepted by stop; returns (path, type) or None."""
        r = self.r
        p = []
        while True:
            if stop(t) and (r.random() < 0.6 or t["k"] in ("int", "fn") or depth <= 0):
                return p, t
            if depth <= 0:
                return None
            depth -= 1
            if t["k"] == "st":
                f = r.choice(self.st(t["name"])["fs"])
                p.append({"s": "f", "n": f["n"]})
                t = f["t"]
            elif t["k"] == "un":
                f = r.choice(t["ms"])
                p.append({"s": "f", "n": f["n"]})
                t = f["t"]
            elif t["k"] == "arr":
                i = r.randrange(t["n"])
                e = {"k": "lit", "v": i}
                if r.random() < 0.4 and i in env["ix"]:
                    e = {"k": "ld", "lv": {"r": env["ix"][i], "p": []}}
                p.append({"s": "i", "e": e})
                t = t["t"]
            elif t["k"] == "ptr":
                p.append({"s": "d"})
                t = {"k": "st", "name": t["name"]}
            else:
                return None

    def lv(self, env, stop, roots=None):
        r = self.r
        names = list(roots if roots is not None else env["roots"])
        for _ in range(12):
            if not names:
                return None
            n = r.choice(names)
            w = self.steps(env["roots"][n], env, stop)
            if w:
                return {"r": n, "p": w[0]}, w[1]
        return None

    def visible(self, env):
        return env["roots"]

    def int_expr(self, env):
        r = self.r
        k = r.random()
        if k < 0.3:
            return {"k": "lit", "v": r.choice([0, 1, 7, 100, 127, 128, 200, 255, 256, 300, 1000, -1, -5, -128, -129, -200])}
        if k < 0.4:
            es = [e["n"] for g in self.enums for e in g if env["mod"] == "main" or e["n"].startswith("m1:")]
            return {"k": "enum", "n": r.choice(es)}
        x = self.lv(env, lambda t: t["k"] == "int")
        if not x:
            return {"k": "lit", "v": 3}
        if r.random() < 0.4:
            return {"k": "add", "lv": x[0], "v": r.choice([1, 2, 10, 100, 200])}
        return {"k": "ld", "lv": x[0]}

    def ptr_expr(self, env, name):
        """Address of a place that outlives everything, or a copy of such a pointer."""
        r = self.r
        for _ in range(20):
            if r.random() < 0.5:
                x = self.lv(env, lambda t: t["k"] == "ptr" and t["name"] == name)
                if x and (x[0]["r"] in env["init"]):
                    return {"k": "ld", "lv": x[0]}
            x = self.lv(env, lambda t: t["k"] == "st" and t["name"] == name)
            if x and x[0]["r"] in env["init"]:
                if x[0]["r"] in env["perm"] or any(s["s"] == "d" for s in x[0]["p"]):
                    return {"k": "adr", "lv": x[0]}
        return {"k": "adr", "lv": {"r": self.home[name], "p": []}}

    def fn_expr(self):
        return {"k": "fun", "n": self.r.choice(self.ops)}

    def setup(self, env, name, t):
        """Statements giving every pointer and function pointer inside a variable a target."""
        out = []
        for p, lt in self.leaves(t):
            if lt["k"] == "ptr":
                out.append({"k": "set", "lv": {"r": name, "p": list(p)}, "e": self.ptr_expr(env, lt["name"])})
            elif lt["k"] == "fn":
                out.append({"k": "set", "lv": {"r": name, "p": list(p)}, "e": self.fn_expr()})
        return out

    def literal(self, env, t, const, depth=0):
        r = self.r
        if t["k"] == "int":
            if const:
                es = [e["n"] for g in self.enums for e in g if env["mod"] == "main" or e["n"].startswith("m1:")]
                return {"k": "e", "e": r.choice([{"k": "lit", "v": r.choice([0, 1, 9, 77, 120])}, {"k": "enum", "n": r.choice(es)}])}
            return {"k": "e", "e": self.int_expr(env)}
        if t["k"] in ("ptr", "fn"):
            return None
        if t["k"] == "un":
            # the first member, or a named one
            if r.random() < 0.6:
                return {"k": "comp", "es": [{"s": "", "v": self.literal(env, t["ms"][0]["t"], const, depth + 1)}]}
            m = r.choice(t["ms"])
            return {"k": "comp", "es": [{"s": "f", "n": m["n"], "v": self.literal(env, m["t"], const, depth + 1)}]}
        es = []
        if t["k"] == "st":
            fs = self.st(t["name"])["fs"]
            order = list(range(len(fs)))
            mode = r.choice(["des", "des", "pos", "mix"])
            if mode == "des":
                order = r.sample(order, r.randrange(0, len(order) + 1))
            pos = 0
            for j in order:
                f = fs[j]
                v = self.literal(env, f["t"], const, depth + 1)
                if v is None:
                    continue
                if mode == "pos" and j == pos:
                    es.append({"s": "", "v": v})
                elif mode == "mix" and j == pos and r.random() < 0.6:
                    es.append({"s": "", "v": v})
                else:
                    es.append({"s": "f", "n": f["n"], "v": v})
                pos = j + 1
        else:
            mode = r.choice(["pos", "pos", "idx"])
            n = r.randrange(0, t["n"] + 1)
            if mode == "pos":
                for _ in range(n):
                    v = self.literal(env, t["t"], const, depth + 1)
                    if v is None:
                        break
                    es.append({"s": "", "v": v})
            else:
                pos = 0
                for j in r.sample(range(t["n"]), n):
                    v = self.literal(env, t["t"], const, depth + 1)
                    if v is None:
                        break
                    es.append({"s": "i", "i": j, "v": v})
        return {"k": "comp", "es": es}

    def stmt(self, env, callable_):
        r = self.r
        k = r.random()
        if k < 0.35:
            x = self.lv(env, lambda t: t["k"] == "int")
            if x and x[0]["r"] not in env["ix"].values():
                if r.random() < 0.25:
                    return [{"k": "inc", "lv": x[0], "v": r.choice([1, -1, 5, 100])}]
                return [{"k": "set", "lv": x[0], "e": self.int_expr(env)}]
        elif k < 0.52:
            x = self.lv(env, lambda t: t["k"] == "st")
            if x:
                y = self.lv(env, lambda t: t == x[1])
                if y:
                    return [{"k": "set", "lv": x[0], "e": {"k": "ld", "lv": y[0]}}]
        elif k < 0.62:
            x = self.lv(env, lambda t: t["k"] == "ptr")
            if x:
                return [{"k": "set", "lv": x[0], "e": self.ptr_expr(env, x[1]["name"])}]
        elif k < 0.67:
            x = self.lv(env, lambda t: t["k"] == "fn")
            if x:
                return [{"k": "set", "lv": x[0], "e": self.fn_expr()}]
        elif k < 0.73:
            x = self.lv(env, lambda t: t["k"] == "fn")
            if x:
                d = self.lv(env, lambda t: t["k"] == "int", roots=env["plain"])
                e = self.int_expr(env)
                return [{"k": "calli", "lv": x[0], "as": [e], "dst": [d[0]] if d else []}]
        elif k < 0.9 and callable_:
            f = r.choice(callable_)
            as_ = []
            for p in f["params"]:
                if p["t"]["k"] == "int":
                    as_.append(self.int_expr(env))
                elif p["t"]["k"] == "ptr":
                    as_.append(self.ptr_expr(env, p["t"]["name"]))
                else:
                    y = self.lv(env, lambda t: t == p["t"])
                    if not y:
                        return []
                    as_.append({"k": "ld", "lv": y[0]})
            dst = []
            if f["ret"]["k"] != "void":
                rt = f["ret"]["t"]
                d = [n for n in env["plain"] if env["roots"][n] == rt or (rt["k"] == "int" and env["roots"][n]["k"] == "int")]
                if d:
                    dst = [{"r": r.choice(d), "p": []}]
            return [{"k": "call", "f": f["n"], "as": as_, "dst": dst}]
        elif k < 0.94:
            x = self.lv(env, lambda t: t["k"] == "arr")
            if x:
                return [{"k": "pr", "e": {"k": "nel", "lv": x[0]}}]
        x = self.lv(env, lambda t: t["k"] == "int")
        if x:
            return [{"k": "pr", "e": {"k": "ld", "lv": x[0]}}]
        return []

    def declare(self, env, name, t, const=False, keep=False):
        """Declaration with a literal, null probes, then targets for its pointers."""
        r = self.r
        ini = self.literal(env, t, const)
        out = [{"k": "decl", "x": name, "t": t, "ini": ini}]
        env["roots"][name] = t
        env["plain"].append(name)
        return out

    def program(self):
        r = self.r
        self.mktypes()
        genv = {"mod": "main", "roots": {}, "ix": {}, "init": set(), "perm": set(), "plain": []}
        self.home = {}
        glob = []
        # at least one permanent variable per struct type: in main (module m1 gets at them through pointers)
        for t in self.types:
            n = self.uniq("g")
            glob += self.declare(genv, n, {"k": "st", "name": t["name"]}, const=True)
            self.home[t["name"]] = n
            genv["perm"].add(n)
        for _ in range(r.randrange(1, 3)):
            n = self.uniq("g")
            t = r.choice([ty_int(r), {"k": "arr", "n": r.randrange(1, 4), "t": ty_int(r)},
                          {"k": "arr", "n": 2, "t": {"k": "st", "name": r.choice(self.types)["name"]}},
                          {"k": "arr", "n": 2, "t": {"k": "arr", "n": 3, "t": ty_int(r)}}])
            glob += self.declare(genv, n, t, const=True)
            genv["perm"].add(n)
        genv["init"] = set(genv["perm"])
        # functions usable through pointers
        self.ops = []
        for i in range(2):
            n = "op%d" % i
            g = [x for x, t in genv["roots"].items() if t["k"] == "int"]
            body = []
            p = {"n": n + ".a", "t": ty_int(r) if False else {"k": "int", "bits": 32, "sg": True, "c": "int"}}
            if g and r.random() < 0.5:
                body.append({"k": "set", "lv": {"r": r.choice(g), "p": []}, "e": {"k": "ld", "lv": {"r": p["n"], "p": []}}})
            self.fns.append({"n": n, "mod": "main", "params": [p], "body": body,
                             "ret": {"k": "val", "t": p["t"], "e": {"k": "add", "lv": {"r": p["n"], "p": []}, "v": 10 * (i + 1)}}})
            self.ops.append(n)
        # ordinary functions
        plan = ["m1"] * r.randrange(1, 3) + ["main"] * r.randrange(1, 4)
        for i, mod in enumerate(plan):
            n = "%s:f%d" % (mod, i)
            tys = [t for t in self.types if mod == "main" or t["mod"] == "m1"]
            ps = []
            env = {"mod": mod, "roots": {}, "ix": {}, "init": set(), "perm": set(), "plain": []}
            for j in range(r.randrange(1, 4)):
                st = r.choice(tys)["name"]
                t = r.choice([ty_int(r), {"k": "st", "name": st}, {"k": "ptr", "name": st}])
                pn = "%s.p%d" % (n, j)
                ps.append({"n": pn, "t": t})
                env["roots"][pn] = t
                env["init"].add(pn)
            if mod == "main":
                for g in genv["roots"]:
                    env["roots"][g] = genv["roots"][g]
                    env["perm"].add(g)
                    env["init"].add(g)
            body = []
            calls = [f for f in self.fns if f["mod"] == mod and f["n"] not in self.ops]
            rt = None
            kk = r.random()
            if kk < 0.4:
                cand = [p for p in ps if p["t"]["k"] == "st"]
                if cand:
                    rt = cand[0]
            saved = self.home
            if mod == "m1":
                # no globals there: pointers can only come from the parameters
                self.home = {}
            for _ in range(r.randrange(1, 5)):
                try:
                    body += self.stmt(env, calls)
                except KeyError:
                    pass
            self.home = saved
            if rt:
                ret = {"k": "val", "t": rt["t"], "e": {"k": "ld", "lv": {"r": rt["n"], "p": []}}}
            elif kk < 0.7:
                t = {"k": "int", "bits": 32, "sg": True, "c": "int"}
                ret = {"k": "val", "t": t, "e": self.int_expr(env)}
            else:
                ret = {"k": "void"}
            self.fns.append({"n": n, "mod": mod, "params": ps, "body": body, "ret": ret})
        # main
        env = {"mod": "main", "roots": dict(genv["roots"]), "ix": {}, "init": set(genv["perm"]), "perm": set(genv["perm"]), "plain": list(genv["plain"])}
        body = []
        # probes of zeroed pointers, then every permanent variable gets its targets
        for n, t in genv["roots"].items():
            for p, lt in self.leaves(t):
                if lt["k"] == "ptr" and r.random() < 0.3:
                    body.append({"k": "pr", "e": {"k": "isnull", "lv": {"r": n, "p": list(p)}}})
        # (targets by address of permanent variables only, as nothing has a target yet)
        for n, t in genv["roots"].items():
            for p, lt in self.leaves(t):
                lv = {"r": n, "p": list(p)}
                if lt["k"] == "ptr":
                    body.append({"k": "set", "lv": lv, "e": {"k": "adr", "lv": {"r": self.home[lt["name"]], "p": []}}})
                elif lt["k"] == "fn":
                    body.append({"k": "set", "lv": lv, "e": self.fn_expr()})
        for i in range(3):
            n = "ix%d" % i
            body.append({"k": "decl", "x": n, "t": {"k": "int", "bits": 32, "sg": True, "c": "int"}, "ini": {"k": "e", "e": {"k": "lit", "v": i}}})
            env["ix"][i] = n
            env["roots"][n] = {"k": "int", "bits": 32, "sg": True, "c": "int"}
        calls = [f for f in self.fns if f["n"] not in self.ops]
        for _ in range(r.randrange(8, 22)):
            if r.random() < 0.25:
                n = self.uniq("v")
                st = r.choice(self.types)["name"]
                t = r.choice([ty_int(r), {"k": "st", "name": st}, {"k": "st", "name": st}, {"k": "arr", "n": r.randrange(1, 4), "t": r.choice([ty_int(r), {"k": "st", "name": st}])},
                              {"k": "ptr", "name": st}])
                if t["k"] == "ptr":
                    body.append({"k": "decl", "x": n, "t": t, "ini": {"k": "e", "e": self.ptr_expr(env, st)}})
                else:
                    body += self.declare(env, n, t)
                env["roots"][n] = t
                if t["k"] != "ptr":
                    # until its pointers have targets it must not be read through
                    del env["roots"][n]
                    env["plain"].remove(n)
                    su = self.setup(env, n, t)
                    for s in su:
                        if s["e"]["k"] in ("ld", "adr") and r.random() < 0.3:
                            body.append({"k": "pr", "e": {"k": "isnull", "lv": s["lv"]}})
                    body += su
                    env["roots"][n] = t
                    env["plain"].append(n)
                env["init"].add(n)
                env["perm"].add(n)
            else:
                body += self.stmt(env, calls)
        for f in calls:
            # everything private is used at least once
            if not any(s["k"] == "call" and s["f"] == f["n"] for s in body):
                as_ = []
                for p in f["params"]:
                    if p["t"]["k"] == "int":
                        as_.append({"k": "lit", "v": 1})
                    elif p["t"]["k"] == "ptr":
                        as_.append({"k": "adr", "lv": {"r": self.home[p["t"]["name"]], "p": []}})
                    else:
                        as_.append({"k": "ld", "lv": {"r": self.home[p["t"]["name"]], "p": []}})
                body.append({"k": "call", "f": f["n"], "as": as_, "dst": []})
        for n, t in env["roots"].items():
            for p, lt in self.leaves(t):
                if lt["k"] == "int":
                    body.append({"k": "pr", "e": {"k": "ld", "lv": {"r": n, "p": list(p)}}})
                elif lt["k"] == "ptr":
                    # what the pointer designates, seen through one of its numbers
                    for q, qt in self.leaves({"k": "st", "name": lt["name"]}):
                        if qt["k"] == "int":
                            body.append({"k": "pr", "e": {"k": "ld", "lv": {"r": n, "p": list(p) + [{"s": "d"}] + list(q)}}})
                            break
                    else:
                        body.append({"k": "pr", "e": {"k": "isnull", "lv": {"r": n, "p": list(p)}}})
                elif lt["k"] == "fn":
                    d = self.uniq("z")
                    body.append({"k": "decl", "x": d, "t": {"k": "int", "bits": 32, "sg": True, "c": "int"}, "ini": {"k": "e", "e": {"k": "lit", "v": 0}}})
                    body.append({"k": "calli", "lv": {"r": n, "p": list(p)}, "as": [{"k": "lit", "v": 3}], "dst": [{"r": d, "p": []}]})
                    body.append({"k": "pr", "e": {"k": "ld", "lv": {"r": d, "p": []}}})
        if r.random() < 0.5:
            body += self.tower(r.randrange(2, 6))
        return {"types": self.types, "enums": self.enums, "fns": self.fns, "globals": glob, "main": body}

    def tower(self, h):
        """Pointers to pointers, written and read through every level."""
        r = self.r
        it = ty_int(r)
        v = self.uniq("w")
        lv = lambda n, d: {"r": n, "p": [{"s": "d"}] * d}
        out = [{"k": "decl", "x": v, "t": it, "ini": {"k": "e", "e": {"k": "lit", "v": r.randrange(100)}}}]
        names = [v]
        for d in range(1, h + 1):
            t = {"k": "pp", "c": it["c"], "h": d}
            n = self.uniq("w")
            e = {"k": "adr", "lv": lv(names[-1], 0)}
            if r.random() < 0.5:
                e = {"k": "cast", "t": t, "e": {"k": "cast", "t": {"k": "pp", "c": "void", "h": 1}, "e": e}}
            out.append({"k": "decl", "x": n, "t": t, "ini": {"k": "e", "e": e}})
            names.append(n)
            out.append({"k": "pr", "e": {"k": "szp", "t": t}})
        for _ in range(3):
            d = r.randrange(1, h + 1)
            out.append({"k": "set", "lv": lv(names[d], d), "e": {"k": "lit", "v": r.randrange(100)}})
            for d in range(h + 1):
                out.append({"k": "pr", "e": {"k": "ld", "lv": lv(names[d], d)}})
        # redirect the lowest pointer through the highest
        v2 = self.uniq("w")
        out.append({"k": "decl", "x": v2, "t": it, "ini": {"k": "e", "e": {"k": "lit", "v": r.randrange(100)}}})
        out.append({"k": "set", "lv": lv(names[h], h - 1), "e": {"k": "adr", "lv": lv(v2, 0)}})
        out.append({"k": "set", "lv": lv(names[h], h), "e": {"k": "lit", "v": r.randrange(100)}})
        for n, d in [(x, i) for i, x in enumerate(names)] + [(v2, 0)]:
            out.append({"k": "pr", "e": {"k": "ld", "lv": lv(n, d)}})
        return out


# ---------------------------------------------------------------- rendering

class Render:
    def __init__(self, D, r):
        self.D, self.r = D, r
        self.alias = {"m1": [], "main": []}
        self.nalias = 0
        self.exported = {}
        self.sizes = set()

    def base(self, t, mod):
        """(type name, stars, array suffix) of a type in a module's source."""
        r = self.r
        if t["k"] == "int":
            if r.random() < 0.12:
                return self.mkalias(mod, "typedef %s %%s;" % t["c"]), "", ""
            return t["c"], "", ""
        if t["k"] == "st" or t["k"] == "ptr":
            m, n = t["name"].split(":")
            nm = n if m == mod else m + "." + n
            st = "*" if t["k"] == "ptr" else ""
            if m == mod and st == "*" and r.random() < 0.12:
                return self.mkalias(mod, "typedef %s *%%s;" % nm), "", ""
            if m == mod and st == "" and r.random() < 0.1:
                nm = self.mkalias(mod, "typedef %s %%s;" % nm)
            return nm, st, ""
        if t["k"] == "pp":
            return t["c"], "*" * t["h"], ""
        if t["k"] == "fn":
            return "op_t", "*", ""
        if t["k"] == "arr":
            if t["t"]["k"] == "int" and r.random() < 0.15:
                return self.mkalias(mod, "typedef %s %%s[%d];" % (t["t"]["c"], t["n"])), "", ""
            if t["t"]["k"] == "ptr" and t["t"]["name"].split(":")[0] == mod and r.random() < 0.25:
                return self.mkalias(mod, "typedef %s *%%s[%d];" % (t["t"]["name"].split(":")[1], t["n"])), "", ""
            b, s, suf = self.base(t["t"], mod) if t["t"]["k"] != "arr" or True else None
            if b.startswith("al") and t["t"]["k"] == "arr":
                return b, s, self.size(t["n"], mod) + suf
            return b, s, self.size(t["n"], mod) + suf

    def size(self, n, mod):
        """An array size: a number, a constant or a macro of the module."""
        k = self.r.random()
        if k < 0.7 or not 1 <= n <= 3 or getattr(self, "noimp", False):
            return "[%d]" % n
        self.sizes.add((mod, "enum") if k < 0.85 else (mod, n))
        return "[%s%d]" % ("Z" if k < 0.85 else "MZ_%s_" % mod, n)

    def mkalias(self, mod, tpl):
        # an alias the other module exports does as well
        if mod == "main" and tpl in self.exported and self.r.random() < 0.7:
            return "m1." + self.exported[tpl]
        self.nalias += 1
        n = "al%d_t" % self.nalias
        if mod == "m1" and tpl.split()[1] in [x[0] for x in INTS]:
            self.exported[tpl] = n
        self.alias[mod].append(("pub " if mod == "m1" else "") + tpl % n)
        return n

    def fdecl(self, fs, mod, sep):
        """Declarators; neighbours of one base type may share it."""
        out = []
        for f in fs:
            b, s, suf = self.base(f["t"], mod)
            d = "%s%s%s" % (s, f["n"], suf)
            if out and out[-1][0] == b and self.r.random() < 0.5:
                out[-1][1].append(d)
            else:
                out.append((b, [d]))
        return ["%s %s" % (b, ", ".join(ds)) for b, ds in out]

    def struct(self, t):
        out = ["%stypedef {" % ("pub " if t["mod"] == "m1" or self.r.random() < 0.2 else "")]
        run = []

        def flush():
            for x in self.fdecl(run, t["mod"], ";"):
                out.append("\t%s;" % x)
            del run[:]
        for f in t["fs"]:
            if f["t"]["k"] == "un":
                flush()
                out.append("\tunion {")
                for m in f["t"]["ms"]:
                    b, s, suf = self.base(m["t"], t["mod"])
                    out.append("\t\t%s %s%s%s;" % (b, s, m["n"], suf))
                out.append("\t} %s;" % f["n"])
            else:
                run.append(f)
        flush()
        out.append("} %s;" % t["src"])
        return "\n".join(out)

    def name(self, n):
        return n.split(".")[-1]

    def lv(self, lv, mod):
        s = self.name(lv["r"])
        ps = lv["p"]
        i = 0
        while i < len(ps):
            h = ps[i]
            if h["s"] == "d":
                if i + 1 < len(ps) and ps[i + 1]["s"] == "f":
                    if self.r.random() < 0.85:
                        s = "%s->%s" % (s, ps[i + 1]["n"])
                    else:
                        s = "(*%s).%s" % (s, ps[i + 1]["n"])
                    i += 2
                    continue
                s = "(*%s)" % s if i + 1 < len(ps) else "*%s" % s
            elif h["s"] == "f":
                s = "%s.%s" % (s, h["n"])
            else:
                s = "%s[%s]" % (s, self.expr(h["e"], mod))
            i += 1
        return s

    def expr(self, e, mod):
        k = e["k"]
        if k == "lit":
            return str(e["v"])
        if k == "enum":
            m, n = e["n"].split(":")
            return n if m == mod else m + "." + n
        if k == "ld":
            return self.lv(e["lv"], mod)
        if k == "add":
            x = self.lv(e["lv"], mod)
            return "%s + %d" % (x, e["v"])
        if k == "adr":
            x = self.lv(e["lv"], mod)
            return "&" + x if not x.startswith("*") else "&(%s)" % x
        if k == "null":
            return "NULL"
        if k == "cast":
            return "(%s %s) (%s)" % (e["t"]["c"], "*" * e["t"]["h"], self.expr(e["e"], mod))
        if k == "szp":
            return "(int) sizeof(%s %s)" % (e["t"]["c"], "*" * e["t"]["h"])
        if k == "fun":
            return self.r.choice(["&", ""]) + e["n"]
        if k == "nel":
            x = self.lv(e["lv"], mod)
            return self.r.choice(["(int) nelem(%s)" % x, "(int) (sizeof(%s) / sizeof(%s[0]))" % (x, x)])
        if k == "isnull":
            return "%s == NULL" % self.lv(e["lv"], mod)
        raise ValueError(k)

    def lit(self, x, mod):
        if x["k"] == "e":
            return self.expr(x["e"], mod)
        es = []
        for e in x["es"]:
            v = self.lit(e["v"], mod)
            es.append({"": "%s", "f": "." + e.get("n", "") + " = %s", "i": "[%d] = %%s" % e.get("i", 0)}[e["s"]] % v)
        tail = "," if es and self.r.random() < 0.2 else ""
        return "{ " + ", ".join(es) + tail + " }" if es else "{}"

    def stmt(self, x, mod):
        k = x["k"]
        if k == "set":
            return "%s = %s;" % (self.lv(x["lv"], mod), self.expr(x["e"], mod))
        if k == "inc":
            l = self.lv(x["lv"], mod)
            if x["v"] in (1, -1) and not l.startswith("*") and self.r.random() < 0.7:
                return "%s%s;" % (l, "++" if x["v"] == 1 else "--")
            return "%s %s %d;" % (l, "+=" if x["v"] >= 0 else "-=", abs(x["v"]))
        if k == "decl":
            b, s, suf = self.base(x["t"], mod)
            return "%s %s%s%s = %s;" % (b, s, self.name(x["x"]), suf, self.lit(x["ini"], mod))
        if k == "call" or k == "calli":
            if k == "call":
                m, n = x["f"].split(":")
                f = n if m == mod else m + "." + n
            else:
                f = self.lv(x["lv"], mod)
                if f.startswith("*"):
                    f = "(%s)" % f
            c = "%s(%s)" % (f, ", ".join(self.expr(a, mod) for a in x["as"]))
            if x["dst"]:
                return "%s = %s;" % (self.lv(x["dst"][0], mod), c)
            return c + ";"
        if k == "pr":
            return 'printf("%%d\\n", %s);' % self.expr(x["e"], mod)
        raise ValueError(k)

    def fn(self, f):
        mod = f["mod"]
        n = f["n"].split(":")[-1]
        ps = [{"n": self.name(p["n"]), "t": p["t"]} for p in f["params"]]
        if f["ret"]["k"] == "void":
            rt = "void "
        else:
            b, s, _ = self.base(f["ret"]["t"], mod)
            rt = "%s %s" % (b, s)
        out = ["%s%s%s(%s) {" % ("pub " if mod == "m1" else "", rt, n, ", ".join(self.fdecl(ps, mod, ",")))]
        used = json.dumps(f["body"]) + json.dumps(f["ret"])
        for p in f["params"]:
            if '"r": "%s"' % p["n"] not in used:
                out.append("\t(void) %s;" % self.name(p["n"]))
        for s in f["body"]:
            out.append("\t" + self.stmt(s, mod))
        if f["ret"]["k"] != "void":
            out.append("\treturn %s;" % self.expr(f["ret"]["e"], mod))
        out.append("}")
        return "\n".join(out)

    def module(self, mod):
        D, r = self.D, self.r
        ts = [self.struct(t) for t in D["types"] if t["mod"] == mod]
        fs = [self.fn(f) for f in D["fns"] if f["mod"] == mod]
        gs = []
        if mod == "main":
            gs = [self.stmt(s, mod) for s in D["globals"]]
            main = "int main() {\n" + "\n".join("\t" + self.stmt(s, mod) for s in D["main"])
            # whatever the program did not need
            used = json.dumps(D["main"]) + json.dumps(D["fns"]) + json.dumps(D["globals"])
            for f in D["fns"]:
                if f["mod"] == mod and '"%s"' % f["n"] not in json.dumps([D["main"], [x["body"] for x in D["fns"]]]):
                    main += "\n\t%s(0);" % f["n"].split(":")[-1]
            for g in D["enums"]:
                for e in g:
                    if e["n"].startswith("main:"):
                        main += '\n\tif (%s == -12345) puts("");' % e["n"].split(":")[-1]
            main += "".join('\n\tif (Z%d == -12345) puts("");' % i for i in (1, 2, 3)) + "\n\treturn 0;\n}"
            fs.append(main)
        en = []
        for g in D["enums"]:
            if not g[0]["n"].startswith(mod + ":"):
                continue
            body = []
            for e in g:
                n = e["n"].split(":")[-1]
                if e["x"] == "v":
                    n += " = %d" % e["v"]
                elif e["x"] == "r":
                    n += " = %s + %d" % (e["ref"].split(":")[-1], e["v"])
                body.append(n)
            en.append("%senum { %s }" % ("pub " if mod == "m1" else "", ", ".join(body)))
        # an alias of a struct is written after the struct
        own = [t["src"] for t in D["types"] if t["mod"] == mod]
        ts += [a for a in self.alias[mod] if a.replace("pub ", "").split()[1] in own]
        al = [a for a in self.alias[mod] if a.replace("pub ", "").split()[1] not in own]
        if mod == "main":
            al.append("typedef int op_t(int);")
        # the relative order of struct definitions and of module variables is kept,
        # everything else may come in any order
        r.shuffle(fs)
        r.shuffle(al)
        streams = [ts, gs, fs, al, en]
        out = ["#import m1.c"] if mod == "main" and not getattr(self, "noimp", False) else []
        # what array sizes are made of comes before them
        if mod == "main" or (mod, "enum") in self.sizes:
            out.append("%senum { Z1 = 1, Z2, Z3 }" % ("pub " if mod == "m1" else ""))
        out += ["#define MZ_%s_%d %d" % (mod, i, i) for i in r.sample([1, 2, 3], 3) if (mod, i) in self.sizes]
        while any(streams):
            s = r.choice([x for x in streams if x])
            out.append(s.pop(0))
        return "\n\n".join(out) + "\n"


def check(c):
    r = vlib.tlc("CheDataMC", spec="Spec", consts={"MaxOps": c.n(3, 4)}, inv=["Stored", "Copied", "Shared", "Thru"], props=["Frame"], mem="10g")
    c.model(r, "CheDataMC: stores, copies and pointers over two structs with array, nested struct and union")
    n = c.n(240, 2400)
    home = vlib.Home(lib=False, shim="w")
    strict = vlib.Home(lib=False)
    cases = []
    for i in range(n):
        D = Gen(c.rng).program()
        R = Render(D, c.rng)
        src = {"m1.c": R.module("m1"), "main.c": R.module("main")}
        cases.append((D, src))
    for h in (2, 3, 4, 5):
        # nothing in these draws a warning from the C compiler
        g = Gen(c.rng)
        g.n = 0
        D = {"types": [], "enums": [], "fns": [], "globals": [], "main": g.tower(h)}
        R = Render(D, c.rng)
        R.noimp = True
        cases.append((D, {"main.c": R.module("main")}))
    n = len(cases)

    def runone(case):
        D, src = case
        d = vlib.tmpdir("c08")
        for k, v in src.items():
            open(os.path.join(d, k), "w").write(v)
        b = (home if "m1.c" in src else strict).build(os.path.join(d, "main.c"), os.path.join(d, "prog"), cwd=d)
        if b.rc != 0:
            return ("refused", (b.out + b.err).decode("utf8", "replace"))
        x = vlib.run([os.path.join(d, "prog")], cwd=d, timeout=20)
        return ("ran", (x.rc, x.out.decode("utf8", "replace")))
    res = vlib.pmap(runone, cases)
    drop = lambda D: {k: v for k, v in D.items()}
    exp = {}
    step = 300
    for a in range(0, n, step):
        part = cases[a:a + step]
        t = vlib.tlc("CheDataEval", spec="Spec", inv=["EmitRes"], files={"cases.ndjson": vlib.ndjson([drop(D) for D, _ in part])})
        c.model(t)
        for x in vlib.tlc_lines(t, "RES"):
            exp[a + x["i"] - 1] = x["out"]
    refused = 0
    for i, (kind, v) in enumerate(res):
        c.cov["cases"] += 1
        if kind == "refused":
            refused += 1
            c.violation("a well-formed program was refused: %s" % v[-700:], {"source": cases[i][1], "diagnostic": v[-3000:]})
            continue
        rc, out = v
        got = [int(x) for x in out.split()]
        if rc != 0 or got != exp[i]:
            k = next((j for j in range(max(len(got), len(exp[i]))) if j >= len(got) or j >= len(exp[i]) or got[j] != exp[i][j]), -1)
            c.violation("program printed %r.. at line %d, the data model says %r.. (exit %s)" % (got[k:k + 3], k + 1, exp[i][k:k + 3], rc),
                        {"source": cases[i][1], "expected": exp[i], "got": got, "rc": rc})
        else:
            c.traces(1)
        if len(c.viol) > 5:
            break
    c.sample({"source": cases[0][1]["main.c"][:500], "expected": exp[0][:20]})
    c.cov["bounds"] = "random two-module programs: <=5 struct types, <=6 functions, <=22 generated main statements plus a dump of every variable; storage laws exhaustively for %d operations" % c.n(3, 4)
    c.assumptions += ["little-endian two's-complement target with 8/16/32 bit exact integer types"]
