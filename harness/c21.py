"""C21: the web server serves its directory and nothing else, to every client its own responses."""
import os, re, socket, struct, subprocess, threading, time, signal, resource, hashlib
import vlib

SIZES = [0, 1, 2, 100, 4095, 4096, 4097, 8192, 20000, 70000]


def content(c):
    """The bytes of content c: size and text follow from the number."""
    n = SIZES[c % len(SIZES)]
    seed = hashlib.sha256(b"%d" % c).digest()
    return (seed * (n // 32 + 1))[:n] if c % 3 else ((b"%d HTTP/1.0 200 OK\r\n\r\n" % c) * (n // 10 + 1))[:n]


# what the scripts print: (before the blank line, after it); {..} come from the environment
SCRIPTS = {
    "plain": ("Content-Type: text/plain\n", "hello\n"),
    "env": ("Content-Type: text/plain\nX-A: b c\n", "q=$QUERY_STRING n=$SCRIPT_NAME m=$REQUEST_METHOD f=$SCRIPT_FILENAME h=$HTTP_HOST u=$REQUEST_URI\n"),
    "crlf": ("Content-Type: text/html\r\nStatus: 200\r\n", "x"),
    "created": ("Status: 201 Created\nX-B: 1\n", "made"),
    "length": ("Content-Length: 99999\nX-C: 1\n", "short"),
    "empty": ("X-D: 1\n", ""),
    "big": ("X-E: 1\n", "@4090"),
    "bigger": ("X-F: 1\n", "@9000"),
    "huge": ("X-G: 1\n", "@200000"),
    "slow": ("X-H: 1\n", "one~two~three"),
}
FAILS = {"exit": "echo 'X: 1'; echo; exit 3", "nohead": "echo rubbish", "silent": "exit 0", "notexec": None}


def script_text(name):
    head, body = SCRIPTS[name]
    lines = ["#!/bin/sh"]
    for h in re.findall(r"[^\r\n]*\r?\n", head):
        lines.append("printf '%s'" % h.replace("\r", "\\r").replace("\n", "\\n"))
    lines.append("printf '\\r\\n'" if "\r" in head else "printf '\\n'")
    if body.startswith("@"):
        lines.append("head -c %s /dev/zero | tr '\\0' 'z'" % body[1:])
    elif "~" in body:
        for part in body.split("~"):
            lines += ["printf '%s'" % part, "sleep 0.02"]
    elif body:
        lines.append(("printf '%%s\\n' \"%s\"" if body.endswith("\n") else "printf '%%s' \"%s\"") % body.rstrip("\n"))
    return "\n".join(lines) + "\n"


def world(r):
    """A random world: list of nodes."""
    ns = {(): {"k": "dir"}, ("site",): {"k": "dir"}}
    cnt = [0]

    def f(p, ext):
        cnt[0] += 1
        ns[p] = {"k": "file", "c": r.randrange(10) + 10 * cnt[0], "ext": ext}
    exts = ["txt", "html", "css", "json", "png", "bin", "zzz", ""]
    dirs = [("site",)]
    for d in r.sample(["sub", "img", "d.html", "deep", "..x", "site"], 4):
        p = r.choice(dirs) + (d,)
        ns[p] = {"k": "dir"}
        dirs.append(p)
    for base in ["a", "b", "index", "c.tar", "x", "...", "%20", "a+b"]:
        e = r.choice(exts)
        p = r.choice(dirs) + (base + ("." + e if e else ""),)
        f(p, e if e else (base.rsplit(".", 1)[1] if "." in base else ""))
    for d in ["site-old", "site2", "sit", "other"]:
        ns[(d,)] = {"k": "dir"}
        f((d, "s.txt"), "txt")
        f((d, "a.txt"), "txt")
    f(("o.txt",), "txt")
    f(("site.txt",), "txt")
    f(("site", "cgi-binary"), "")
    f(("site", "cgi"), "")
    targets = [["..", "site-old", "s.txt"], ["..", "site", "site"], [".."], ["..", ".."], ["loop1"], ["loop2"], ["."], ["..", "site2"], ["..", "sit", "a.txt"],
               ["..", "o.txt"], ["nothing"], ["..", "site.txt"]]
    files = [list(p) for p in ns if p[:1] == ("site",) and ns[p]["k"] == "file"]
    for nm in ["l1", "loop1", "loop2", "l3.html", "l4", "l5"]:
        t = r.choice(targets + [[".."] + x for x in files] + [[".."] + list(d) for d in dirs])
        p = ("site", nm)
        ns[p] = {"k": "link", "to": t}
    ns[("site", "abs")] = {"k": "alink", "to": r.choice([["site-old"], ["site"], r.choice(files), ["o.txt"], ["site2", "s.txt"]])}
    ns[("site", "cgi-bin")] = {"k": "dir"}
    for s in list(SCRIPTS):
        ns[("site", "cgi-bin", s)] = {"k": "cgi", "c": s, "ext": ""}
    for s in FAILS:
        ns[("site", "cgi-bin", s)] = {"k": "cgi", "c": "fails", "ext": "", "how": s}
    return ns


def build_world(base, ns):
    for p in sorted(ns, key=len):
        n, fp = ns[p], os.path.join(base, *p)
        if n["k"] == "dir":
            os.makedirs(fp, exist_ok=True)
        elif n["k"] == "file":
            open(fp, "wb").write(content(n["c"]))
        elif n["k"] == "link":
            os.symlink("/".join(n["to"]), fp)
        elif n["k"] == "alink":
            os.symlink(base + "/" + "/".join(n["to"]), fp)
        else:
            t = script_text(n["c"]) if n["c"] != "fails" else "#!/bin/sh\n" + (FAILS[n["how"]] or "exit 0") + "\n"
            with vlib.XLOCK, open(fp, "w") as f:
                f.write(t)
            os.chmod(fp, 0o644 if n.get("how") == "notexec" else 0o755)


class Server:
    def __init__(self, exe, base):
        self.base = base
        self.site = base + "/site"
        self.log = open(base + ".log", "wb")
        for _ in range(20):
            s = socket.socket()
            s.bind(("127.0.0.1", 0))
            self.port = s.getsockname()[1]
            s.close()

            def lim():
                resource.setrlimit(resource.RLIMIT_NOFILE, (64, 64))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            env = dict(vlib.ENV)
            env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0"
            with vlib.XLOCK:
                self.p = subprocess.Popen([exe, "-a", "127.0.0.1:%d" % self.port], cwd=self.site, env=env, stdin=subprocess.DEVNULL,
                                          stdout=self.log, stderr=subprocess.STDOUT, preexec_fn=lim, start_new_session=True)
            end = time.time() + 20
            while time.time() < end and self.p.poll() is None:
                if "Serving" in self.text() or "Failed" in self.text():
                    break
                time.sleep(0.02)
            if "Failed to listen" in self.text():
                self.p.wait()
                self.log.truncate(0)
                continue
            return
        raise RuntimeError("no port for the server")

    def text(self):
        return open(self.base + ".log", "rb").read().decode("utf8", "replace")

    def dead(self):
        rc = self.p.poll()
        t = self.text()
        if "AddressSanitizer" in t:
            return "memory error: " + t[t.index("ERROR: Addr"):][:600]
        if rc is not None:
            return "the server ended (%s): %s" % (rc, t[-300:])
        return None

    def stop(self):
        if self.p.poll() is None:
            os.killpg(self.p.pid, signal.SIGKILL)
        self.p.wait()
        self.log.close()


BAD = [b"G" * 40 + b" / HTTP/1.0\r\n\r\n", b"GET /" + b"u" * 2000 + b" HTTP/1.0\r\n\r\n", b"GET / HTTP/1.00000000000\r\n\r\n",
       b"GET / HTTP/1.0\r\nA:b\r\n\r\n", b"GET / HTTP/1.0\r\n" + b"".join(b"H%d: x\r\n" % i for i in range(150)) + b"\r\n",
       b"GET / HTTP/1.0\r\n" + b"n" * 1500 + b": x\r\n\r\n", b"GET / HTTP/1.0\r\nn: " + b"v" * 1500 + b"\r\n\r\n", b"\0\xff" * 3000,
       b"GET / HTTP/1.0\rX"]


def request(r, a):
    path = "/" + "/".join(a["parts"])
    uri = path + ("?" + a["q"] if a["q"] else "")
    hs = "Host: h.example\r\n"
    for i in range(r.choice([0, 0, 1, 3, 99])):
        hs += "%s: %s\r\n" % (r.choice(["Accept", "X-Y", "User-Agent", "h%d" % i]), r.choice(["*/*", "", "a: b", "v" * 1000, "1"]))
    return ("GET %s %s\r\n%s\r\n" % (uri, r.choice(["HTTP/1.0", "HTTP/1.1"]), hs)).encode(), path, uri


class Client:
    def __init__(self, srv, r):
        self.srv, self.r = srv, r
        self.s = socket.create_connection(("127.0.0.1", srv.port), 20)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.settimeout(20)
        self.buf = b""
        self.asked = []
        self.rest = b""

    def push(self, data):
        try:
            if self.r.random() < 0.3:
                # a pause in the middle of a line end or of the empty line
                k = self.r.choice([m.end() for m in re.finditer(rb"\r|: |:|\r\n", data)] or [1])
                self.s.sendall(data[:k])
                time.sleep(0.003)
                data = data[k:]
            while data:
                k = self.r.choice([1, 2, 7, 100, 5000, 5000])
                self.s.sendall(data[:k])
                data = data[k:]
                if self.r.random() < 0.05:
                    time.sleep(0.001)
        except OSError:
            pass

    def fill(self):
        try:
            d = self.s.recv(65536)
        except socket.timeout:
            return None
        except OSError:
            return b""
        self.buf += d
        return d

    def response(self):
        """(status, headers, body) or an explanation."""
        while b"\r\n\r\n" not in self.buf:
            d = self.fill()
            if not d:
                return "%s instead of a response, after %r" % ("silence" if d is None else "the connection was closed", self.buf[:200])
        head, self.buf = self.buf.split(b"\r\n\r\n", 1)
        ls = head.decode("latin1").split("\r\n")
        m = re.match(r"HTTP/1\.[01] (\d\d\d)( .*)?$", ls[0])
        if not m:
            return "malformed status line %r" % ls[0]
        hs = [tuple(x.split(": ", 1)) for x in ls[1:]]
        if any(len(x) != 2 for x in hs):
            return "malformed header in %r" % ls
        n = [v for k, v in hs if k.lower() == "content-length"]
        if len(n) != 1 or not n[0].isdigit():
            return "content length %r" % n
        n = int(n[0])
        while len(self.buf) < n:
            d = self.fill()
            if not d:
                return "%d bytes of %d of the body and then %s" % (len(self.buf), n, "silence" if d is None else "the end")
        body, self.buf = self.buf[:n], self.buf[n:]
        return m.group(1), [x for x in hs if x[0].lower() != "content-length"], body

    def judge(self, want):
        got = self.response()
        path, uri = self.asked.pop(0)
        if isinstance(got, str):
            return "%s: %s" % (uri, got)
        st, hs, body = got
        d = dict((k.lower(), v) for k, v in hs)
        if want["k"] == "error":
            ok = st[0] == want["status"][0] and (st == want["status"] or st[0] == "5")
            return None if ok else "%s: status %s instead of %s (%r)" % (uri, st, want["status"], body[:60])
        if want["k"] == "file":
            if st != "200" or body != content(want["c"]):
                return "%s: %s with %d bytes %r instead of the %d bytes of %s" % (uri, st, len(body), body[:40], len(content(want["c"])), "/".join(want["at"]))
            if d.get("content-type") != want["type"]:
                return "%s: type %s instead of %s" % (uri, d.get("content-type"), want["type"])
            return None
        if want["k"] == "list":
            names = re.findall(r'href="([^"]*)"', body.decode("utf8", "replace"))
            if st != "200" or sorted(names) != sorted(want["names"]) or d.get("content-type") != "text/html":
                return "%s: %s lists %s instead of %s" % (uri, st, sorted(names), sorted(want["names"]))
            return None
        head, text = SCRIPTS[want["script"]]
        if text.startswith("@"):
            text = "z" * int(text[1:])
        env = {"QUERY_STRING": want["query"], "SCRIPT_NAME": path, "REQUEST_METHOD": "GET", "HTTP_HOST": "h.example", "REQUEST_URI": uri,
               "SCRIPT_FILENAME": os.path.join(self.srv.base, *want["at"])}
        text = re.sub(r"\$([A-Z_]+)", lambda m: env[m.group(1)], text.replace("~", "")).encode()
        hw = [tuple(x.split(": ", 1)) for x in head.replace("\r", "").strip("\n").split("\n")]
        code = (dict(hw).get("Status") or "200")[:3]
        hw = [x for x in hw if x[0] not in ("Status", "Content-Length")]
        if st != code or sorted(hs) != sorted(hw) or body != text:
            return "%s: script %s gave %s %s %r instead of %s %s %r" % (uri, want["script"], st, hs, body[:80], code, hw, text[:80])
        return None

    def ended(self):
        """The connection must end without another byte."""
        while True:
            d = self.fill()
            if d is None:
                return "the connection was left open"
            if not d:
                return None if not self.buf else "more than was asked for: %r" % self.buf[:100]

    def close(self, hard=False):
        if hard:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()


def play(srv, r, x):
    """Replays one history; returns an explanation or None."""
    cl = {}
    why = None
    for a, out in zip(x["acts"], x["out"]):
        c = cl.get(a["c"])
        k = a["a"]
        if k == "connect":
            cl[a["c"]] = Client(srv, r)
        elif k in ("send", "part"):
            data, path, uri = request(r, a)
            c.asked.append((path, uri))
            cut = len(data) if k == "send" else r.choice([r.randrange(1, len(data)), len(data) - r.randrange(1, 5)])
            c.push(data[:cut])
            c.rest = data[cut:]
            if c.rest:
                time.sleep(0.002)
        elif k == "rest":
            c.push(c.rest)
        elif k == "bad":
            c.push(r.choice(BAD))
            try:
                c.s.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            why = c.ended()
            if why:
                why = "after a malformed request: " + why
        elif k == "shut":
            c.s.shutdown(socket.SHUT_WR)
        elif k == "leave":
            c.close(r.random() < 0.5)
            del cl[a["c"]]
        elif k == "recv":
            for w in out:
                why = c.judge(w)
                if why:
                    break
        if why:
            break
    if not why:
        for i, l in enumerate(x["left"]):
            c = cl.get(i + 1)
            if not c or why:
                continue
            if l["s"] in ("open", "part", "shut"):
                for w in l["owed"]:
                    why = why or c.judge(w)
                if not why:
                    if l["s"] != "shut":
                        c.s.shutdown(socket.SHUT_WR)
                    why = c.ended()
    for c in cl.values():
        c.close()
    return why


def paths(r, ns, n):
    """Requests that look at interesting places."""
    names = sorted({x for p in ns for x in p}) + ["nothing", "", ".", "..", "A", "site-"]
    inside = [list(p[1:]) for p in ns if p[:1] == ("site",) and len(p) > 1]
    outside = [list(p) for p in ns if p[:1] != ("site",) and p]
    out = []
    while len(out) < n:
        m = r.random()
        if m < 0.3:
            p = list(r.choice(inside))
        elif m < 0.45:
            p = [".."] + r.choice(outside)
        elif m < 0.6:
            p = ["..", "site"] + list(r.choice(inside))
        elif m < 0.7:
            p = [""]
        elif m < 0.8:
            p = list(r.choice([x for x in inside if x[0] == "cgi-bin" and len(x) == 2]))
        else:
            p = [r.choice(names) for _ in range(r.randrange(1, 5))]
        if r.random() < 0.35:
            i = r.randrange(len(p) + 1)
            p[i:i] = r.choice([[""], ["."], ["sub", ".."], ["..", "site"], ["nothing", ".."], ["l1"], ["abs"], ["loop1", ".."]])
        if r.random() < 0.04:
            p[len(p) - 1:len(p) - 1] = ["."] * r.randrange(100, 480 - 2 * len(p))
        if not p or ("cgi-bin" in p and (p[0] != "cgi-bin" or ".." in p)) or any(("?" in y or " " in y) for y in p):
            continue
        out.append((p, r.choice(["", "", "", "x=1", "a=b&c=..%2f", "/../..", "q?q"])))
    return out


def history(r, ns, clients, length):
    ps = paths(r, ns, length)
    acts = []
    for i in range(length):
        k = r.choice(["connect", "connect", "send", "send", "send", "send", "part", "rest", "rest", "bad", "shut", "leave", "recv", "recv"])
        a = {"a": k, "c": r.randrange(1, clients + 1)}
        if k in ("send", "part"):
            a["parts"], a["q"] = ps[i]
        acts.append(a)
    return acts


def check(c):
    rs = vlib.tlc("WebServerMC", spec="Spec", consts={"Emit": "TRUE", "Depth": "4"}, inv=["Isolation", "OnePerRequest", "Contained", "EmitCase"])
    c.model(rs, "two clients, every history of four actions; every path of up to four names in a small world stays inside")
    mc = [x["acts"] for x in vlib.tlc_lines(rs, "CASE")]
    if c.thorough:
        rd = vlib.tlc("WebServerMC", spec="Spec", consts={"Emit": "FALSE", "Depth": "5"}, inv=["Isolation", "OnePerRequest", "Contained"], timeout=1500, mem=8)
        c.model(rd, "two clients, every history of five actions")
    small = {(): {"k": "dir"}, ("site",): {"k": "dir"}, ("site", "a.txt"): {"k": "file", "c": 21, "ext": "txt"}, ("site", "sub"): {"k": "dir"},
             ("site", "sub", "b.html"): {"k": "file", "c": 22, "ext": "html"}, ("site", "up"): {"k": "link", "to": [".."]},
             ("site", "out"): {"k": "link", "to": ["..", "site-old", "s.txt"]}, ("site", "in"): {"k": "link", "to": ["..", "site", "sub", "b.html"]},
             ("site", "loop"): {"k": "link", "to": ["loop"]}, ("site-old",): {"k": "dir"}, ("site-old", "s.txt"): {"k": "file", "c": 23, "ext": "txt"},
             ("o.txt",): {"k": "file", "c": 24, "ext": "txt"}}
    worlds = [small]
    per = []
    c.rng.shuffle(mc)
    hs = [(x, 2) for x in mc[:c.n(250, 4000)]]
    names = ["", ".", "..", "a.txt", "sub", "b.html", "up", "out", "in", "loop", "site", "site-old", "s.txt", "o.txt"]
    allp = [[a] for a in names] + [[a, b] for a in names for b in names]
    allp += [[c.rng.choice(names) for _ in range(c.rng.choice([3, 3, 4]))] for _ in range(c.n(300, 4000))]
    for i in range(0, len(allp), 25):
        hs.append(([{"a": "connect", "c": 1}] + [y for p in allp[i:i + 25] for y in ({"a": "send", "c": 1, "parts": p, "q": ""}, {"a": "recv", "c": 1})], 2))
    per.append(hs)
    for _ in range(c.n(7, 40)):
        ns = world(c.rng)
        worlds.append(ns)
        hs = []
        for _ in range(c.n(18, 40)):
            hs.append((history(c.rng, ns, 6, c.rng.choice([12, 30, 60])), 6))
        scripts = [p for p in ns if ns[p]["k"] == "cgi"]
        # long enough for a descriptor lost per request to be missed (the server may have 64)
        fs = [p for p in ns if ns[p]["k"] == "file" and p[0] == "site"]
        runs = [list(c.rng.choice(scripts)[1:]) for _ in range(40)] + [list(c.rng.choice(fs)[1:]) for _ in range(70)] + [[""]] * 70
        c.rng.shuffle(runs)
        hs.append(([{"a": "connect", "c": 1}] + [y for p in runs for y in ({"a": "send", "c": 1, "parts": p, "q": "n=1"}, {"a": "recv", "c": 1})], 6))
        # many connections one after another
        hs.append(([y for p, q in paths(c.rng, ns, 40) for y in ({"a": "connect", "c": 1}, {"a": "send", "c": 1, "parts": p, "q": q},
                                                                 {"a": c.rng.choice(["recv", "bad", "part", "shut"]), "c": 1, "parts": p, "q": q}, {"a": "leave", "c": 1})], 6))
        # storms: independent clients at the same time
        hs.append(([{"a": "connect", "c": k} for k in range(1, 7)] + [{"a": "send", "c": c.rng.randrange(1, 7), "parts": p, "q": q} for p, q in paths(c.rng, ns, 60)], 6))
        per.append(hs)
    cases = []
    for w, (ns, hs) in enumerate(zip(worlds, per)):
        nodes = [dict(n, p=list(p)) for p, n in ns.items()]
        for h, (acts, n) in enumerate(hs):
            cases.append({"id": "%d.%d" % (w, h), "world": nodes, "acts": acts, "n": n})
    parts = [cases[i::vlib.NPROC] for i in range(vlib.NPROC)]
    res = {}

    def ev(part):
        return vlib.tlc("WebServerEval", spec="Spec", inv=["EmitRes"], workers=1, files={"cases.ndjson": vlib.ndjson(part)}, timeout=1200) if part else None
    for k, rs in enumerate(vlib.pmap(ev, parts)):
        if rs:
            if k == 0:
                c.model(rs, "responses owed in one in eight of %d histories" % len(cases))
            for x in vlib.tlc_lines(rs, "RES"):
                res[x["id"]] = x
    assert len(res) == len(cases), (len(res), len(cases))
    hm = vlib.Home(shim="asan")
    exe = hm.dir + "/webserver"
    b = hm.build(vlib.REPO + "/prog/webserver/webserver.c", exe, timeout=120)
    if b.rc != 0 or not os.path.exists(exe):
        raise RuntimeError("webserver does not build: " + (b.out + b.err).decode("utf8", "replace")[-500:])
    stop = []
    jobs = []
    for w, ns in enumerate(worlds):
        ids = [x for x in res if x.split(".")[0] == str(w)]
        step = 60 if w == 0 else len(ids)
        for i in range(0, len(ids), max(step, 1)):
            jobs.append((w, ids[i:i + step]))
    count = [0]

    def one(job):
        w, ids = job
        base = vlib.tmpdir("web") + "/w"
        build_world(base, worlds[w])
        srv = Server(exe, base)
        r = vlib.random.Random("%s %s" % (c.seed, ids[0]))
        for x in ids:
            if len(stop) >= 3:
                break
            try:
                why = play(srv, r, res[x])
            except OSError as e:
                why = "the connection failed: %s" % e
            why = srv.dead() or why
            if not why:
                # whatever went before, a new client is served
                try:
                    k = Client(srv, r)
                    data, path, uri = request(r, {"parts": [""], "q": ""})
                    k.asked.append((path, uri))
                    k.push(data)
                    got = k.response()
                    why = None if not isinstance(got, str) and got[0] == "200" else "a new client is not served: %s" % (got,)
                    k.close()
                except OSError as e:
                    why = "a new client is not served: %s" % e
            count[0] += 1
            if why:
                stop.append(1)
                c.violation(why, {"world": {"/".join(p): n for p, n in worlds[w].items()}, "acts": res[x]["acts"], "server log": srv.text()[-2000:]})
                srv.stop()
                srv = Server(exe, base)
        srv.stop()
    vlib.pmap(one, jobs)
    c.traces(count[0])
    c.cov["cases"] += sum(len(res[x["id"]]["acts"]) for x in cases)
    c.cov["worlds"] = len(worlds)
    c.assumptions.append("requests other than GET, names that need escaping and a directory changed while served are not judged")
    c.sample({"acts": res[cases[-1]["id"]]["acts"][:6]})
