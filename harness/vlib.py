"""Shared machinery: build the tool under test, run che programs, run TLC,
collect coverage, report violations."""
import atexit, fcntl, hashlib, json, os, random, re, resource, shutil, signal
import subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRIVERS = os.path.join(VERIF, "drivers")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 2))

_scratch = None
import threading
XLOCK = threading.RLock()   # serialises fork/exec with the writing of executables


def scratch():
    """One scratch directory per process, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-che-")
        root = _scratch
        pid = os.getpid()

        def rm():
            if os.getpid() == pid:
                shutil.rmtree(root, ignore_errors=True)
        atexit.register(rm)
    return _scratch


_n = 0


def tmpdir(tag="d"):
    global _n
    with XLOCK:
        _n += 1
        k = _n
        root = scratch()
    p = os.path.join(root, "%s%d" % (tag, k))
    os.makedirs(p)
    return p


class ToolError(Exception):
    pass


def _env():
    e = dict(os.environ)
    sh = "/opt/vp/env.sh"
    if os.path.exists(sh) and "VERIF_ENVDONE" not in e:
        out = subprocess.run(["bash", "-c", ". %s >/dev/null 2>&1; env -0" % sh],
                             stdout=subprocess.PIPE).stdout.decode("utf8", "replace")
        for kv in out.split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                e[k] = v
    e["VERIF_ENVDONE"] = "1"
    e.pop("VERIF_SEED", None)
    e.pop("VERIF_TIER", None)
    e.pop("RUST_BACKTRACE", None)
    return e


ENV = _env()


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            h.update(p.encode()); h.update(open(p, "rb").read())
            continue
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                fp = os.path.join(d, f)
                h.update(fp.encode())
                try:
                    h.update(open(fp, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()[:16]


_che = None


def build_che():
    """Builds /repo's current working tree; returns path of the che binary."""
    with XLOCK:
        return _build_che()


def _build_che():
    global _che
    if _che:
        return _che
    key = tree_hash([REPO + "/src", REPO + "/Cargo.toml", REPO + "/Cargo.lock"])
    base = os.path.join(VERIF, ".build")
    os.makedirs(base, exist_ok=True)
    dst = os.path.join(base, "che-" + key)
    with open(os.path.join(base, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(dst):
            for f in os.listdir(base):       # keep at most the latest few
                if f.startswith("che-") and f != "che-" + key:
                    try:
                        if time.time() - os.path.getmtime(os.path.join(base, f)) > 7200:
                            os.unlink(os.path.join(base, f))
                    except OSError:
                        pass
            e = dict(ENV)
            e["CARGO_TARGET_DIR"] = os.path.join(base, "target")
            # never trust modification times: always recompile the crate itself
            fp = os.path.join(base, "target", "debug", ".fingerprint")
            for f in (os.listdir(fp) if os.path.isdir(fp) else []):
                if f.startswith("che-"):
                    shutil.rmtree(os.path.join(fp, f), ignore_errors=True)
            p = subprocess.run(["cargo", "build", "--locked", "--offline"], cwd=REPO, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                raise ToolError("cargo build failed:\n" + p.stdout.decode("utf8", "replace")[-4000:])
            shutil.copy2(os.path.join(base, "target", "debug", "che"), dst + ".tmp")
            os.rename(dst + ".tmp", dst)
    # a private copy, so that nothing another run does affects this one
    _che = os.path.join(scratch(), "che")
    shutil.copy2(dst, _che)
    return _che


def _limits(mem_mb, cpu_s):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
        if mem_mb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        if cpu_s:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu_s, cpu_s + 1))
    return f


class Res:
    def __init__(self, rc, out, err, timeout):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    def __repr__(self):
        return "Res(rc=%r timeout=%r out=%r err=%r)" % (self.rc, self.timeout, self.out[-600:], self.err[-600:])


HANGS = []


def run(argv, stdin=b"", cwd=None, env=None, timeout=30, mem_mb=2048, cpu_s=None, tool=False):
    """Runs argv under limits in its own session; kills the whole group on timeout. After several
    commands of the code under test have hung, the others get less time, so that the check ends."""
    if not tool and len(HANGS) >= 6:
        timeout = min(timeout, 6)
    with XLOCK:
        p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             cwd=cwd, env=env or ENV, preexec_fn=_limits(mem_mb, cpu_s))
    try:
        o, e = p.communicate(stdin, timeout=timeout)
        return Res(p.returncode, o, e, False)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            o, e = p.communicate(timeout=5)
        except Exception:
            o, e = b"", b""
        if not tool:
            HANGS.append(argv)
        return Res(-9, o, e, True)


class Home:
    """A scratch CHELANG_HOME whose lib/ is /repo/lib (current tree)."""

    def __init__(self, lib=True, shim=None):
        """shim: None = the system's c99 as is; "w" = a c99 on PATH that does the same
        with warnings disabled; "asan" = additionally address-sanitized."""
        self.dir = tmpdir("home")
        os.makedirs(self.dir + "/tmp")
        if lib is True:
            os.symlink(REPO + "/lib", self.dir + "/lib")
        else:
            os.makedirs(self.dir + "/lib")
        self.che = build_che()
        self.env = dict(ENV)
        self.env["CHELANG_HOME"] = self.dir
        if shim:
            real = shutil.which("c99", path=ENV["PATH"])
            os.makedirs(self.dir + "/bin")
            sched = ("#!/bin/bash\nd=$(mktemp -d %s/o.XXXXXX)\ncs=(); rest=()\nfor a in \"$@\"; do case \"$a\" in -Werror|-pedantic-errors|-Wall|-Wextra|-pedantic) ;; "
                     "*.c) cs+=(\"$a\");; *) rest+=(\"$a\");; esac; done\ncd $d\n"
                     "%s -w -g -D_POSIX_C_SOURCE=200809L -fsanitize=thread -c \"${cs[@]}\" || exit 1\n"
                     "gcc -w -g -O1 -c %s/native/sched.c -o sched.o || exit 1\n"
                     "exec gcc *.o \"${rest[@]}\" -lpthread -ldl\n" % (self.dir, real, DRIVERS))
            with XLOCK, open(self.dir + "/bin/c99", "w") as f:
                f.write(sched if shim == "sched" else "#!/bin/bash\nargs=()\nfor a in \"$@\"; do case \"$a\" in -Werror|-pedantic-errors|-Wall|-Wextra|-pedantic) ;; "
                        "*) args+=(\"$a\");; esac; done\nexec %s -w %s \"${args[@]}\"\n" % (
                            real, "-fsanitize=address -fno-omit-frame-pointer" if shim == "asan" else ""))
            os.chmod(self.dir + "/bin/c99", 0o755)
            self.env["PATH"] = self.dir + "/bin:" + ENV["PATH"]

    def cmd(self, args, cwd=None, timeout=60, mem_mb=2048, stdin=b""):
        return run([self.che] + args, stdin=stdin, cwd=cwd or self.dir, env=self.env, timeout=timeout, mem_mb=mem_mb)

    def build(self, src, out, cwd=None, timeout=60):
        return self.cmd(["build", src, out], cwd=cwd, timeout=timeout)


def build_driver(name, shim="asan"):
    """Builds drivers/<name>.c (a che program importing /repo/lib) with che,
    address-sanitized unless told otherwise."""
    h = Home(shim=shim)
    for f in [x for x in os.listdir(DRIVERS) if x.endswith(".c")]:
        shutil.copy(os.path.join(DRIVERS, f), h.dir)
    out = os.path.join(h.dir, "prog")
    r = h.build(os.path.join(h.dir, name + ".c"), out)
    if r.rc != 0 or not os.path.exists(out):
        raise ToolError("driver %s failed to build: %r" % (name, r))
    return out


ASAN_ENV = dict(ENV, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")


def drive(prog, lines, timeout=60, env=None, cwd=None):
    """Feeds operations to a driver; returns the list of output lines and the run."""
    r = run([prog], stdin=("".join(l + "\n" for l in lines)).encode(), env=env or ASAN_ENV, timeout=timeout, mem_mb=None, cwd=cwd)
    return r.out.decode("utf8", "replace").split("\n")[:-1], r


def hx(b):
    return bytes(b).hex() or "-"


def build_source(text, name="drv"):
    h = Home()
    src = os.path.join(h.dir, name + ".c")
    open(src, "w").write(text)
    out = os.path.join(h.dir, "prog")
    r = h.build(src, out)
    if r.rc != 0 or not os.path.exists(out):
        raise ToolError("driver %s failed to build: %r" % (name, r))
    return out


# ---------------------------------------------------------------- TLC

class TLCResult:
    pass


def tlc(module, cfg=None, consts=None, files=None, workers=None, extra=None, timeout=800,
        mem="6g", spec=None, inv=None, props=None, post=None, constraint=None, view=None,
        deadlock=False, simulate=None, expect_ok=True, symmetry=None, actionconstraint=None):
    """Runs TLC on spec/<module>.tla in a scratch dir. Either cfg names a committed
    spec/<cfg>.cfg, or a configuration is assembled from the arguments.
    files: {name: text/bytes} extra files written next to the spec."""
    d = tmpdir("tlc")
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for k, v in (files or {}).items():
        with open(os.path.join(d, k), "wb") as fh:
            fh.write(v if isinstance(v, bytes) else v.encode())
    cfgtext = ""
    if cfg:
        cfgtext = open(os.path.join(SPEC, cfg + ".cfg")).read() + "\n"
    if spec:
        cfgtext += "SPECIFICATION %s\n" % spec
    for k, v in (consts or {}).items():
        cfgtext += "CONSTANT %s = %s\n" % (k, v)
    for i in inv or []:
        cfgtext += "INVARIANT %s\n" % i
    for i in props or []:
        cfgtext += "PROPERTY %s\n" % i
    if post:
        cfgtext += "POSTCONDITION %s\n" % post
    if constraint:
        cfgtext += "CONSTRAINT %s\n" % constraint
    if actionconstraint:
        cfgtext += "ACTION_CONSTRAINT %s\n" % actionconstraint
    if view:
        cfgtext += "VIEW %s\n" % view
    if symmetry:
        cfgtext += "SYMMETRY %s\n" % symmetry
    cfgtext += "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE")
    open(os.path.join(d, "run.cfg"), "w").write(cfgtext)
    argv = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-cp", TLA_CP, "tlc2.TLC",
            "-workers", str(workers or NPROC), "-config", "run.cfg", "-metadir", os.path.join(d, "st"),
            "-noGenerateSpecTE", "-cleanup"]
    if simulate:
        argv += ["-simulate", simulate]
    argv += list(extra or [])
    argv += [module + ".tla"]
    e = dict(ENV)
    e.pop("JAVA_TOOL_OPTIONS", None)
    t0 = time.time()
    r = run(argv, cwd=d, env=e, timeout=timeout, mem_mb=None, tool=True)
    out = r.out.decode("utf8", "replace")
    x = TLCResult()
    x.dir, x.out, x.rc, x.wall = d, out, r.rc, time.time() - t0
    x.timeout = r.timeout
    full, out = out, "\n".join(l for l in out.splitlines() if not l.startswith('"'))   # without the printed values
    ms = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    x.generated = int(ms[-1][0].replace(",", "")) if ms else 0
    x.distinct = int(ms[-1][1].replace(",", "")) if ms else 0
    if not ms:
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        x.generated = int(m[-1].replace(",", "")) if m else 0
        x.distinct = x.generated
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    x.depth = int(m.group(1)) if m else None
    x.ok = (r.rc == 0)
    x.violated = re.findall(r"Invariant (\S+) is violated|Temporal properties were violated|property (\S+) is violated|Deadlock reached|Postcondition (\S+)|evaluates to FALSE|Assumption .* is false", out)
    out = full
    if expect_ok and not x.ok:
        raise ToolError("TLC %s rc=%s timeout=%s:\n%s" % (module, r.rc, r.timeout, (out[-3500:] + r.err.decode("utf8", "replace")[-500:])))
    return x


def tlc_lines(res, tag):
    """Values printed by the spec as PrintT("<tag> " \\o ToJson(v))."""
    outv = []
    pre = '"' + tag + " "
    for line in res.out.splitlines():
        if line.startswith(pre) and line.endswith('"'):
            body = line[len(pre):-1]
            outv.append(json.loads(body.replace('\\"', '"').replace('\\\\', '\\')))
    return outv


def ndjson(records):
    return "".join(json.dumps(r, separators=(",", ":")) + "\n" for r in records)


def validate(module, records, timeout=800, mem="6g", consts=None, files=None, chunks=None, spec="TraceSpec"):
    """Trace validation: spec/<module>.tla reads trace.ndjson and must be able to take
    one step per record. Returns (index of first unexplained record or None, TLC info).
    With chunks>1 the records are independent and are validated by parallel TLC runs."""
    if not records:
        return None, {"states": 0, "transitions": 0}
    k = chunks or 1
    k = max(1, min(k, len(records)))
    step = (len(records) + k - 1) // k
    parts = [(i, records[i:i + step]) for i in range(0, len(records), step)]

    def one(part):
        base, recs = part
        f = {"trace.ndjson": ndjson(recs)}
        f.update(files or {})
        r = tlc(module, spec=spec, files=f, workers=1, timeout=timeout, mem=mem, consts=consts,
                post="TraceAccepted", expect_ok=False)
        m = re.search(r'"REACHED (\d+) OF (\d+)"', r.out)
        if r.ok:
            if not m or int(m.group(1)) != len(recs):
                raise ToolError("trace run without acceptance line:\n" + r.out[-2000:])
            return None, r
        if m and ("Postcondition" in r.out or "POSTCONDITION" in r.out or "TraceAccepted" in r.out):
            if int(m.group(1)) < len(recs):
                return base + int(m.group(1)), r
        raise ToolError("TLC trace validation failed to run (%s):\n%s" % (module, r.out[-3500:]))

    with cf.ThreadPoolExecutor(max_workers=min(k, NPROC)) as ex:
        rs = list(ex.map(one, parts))
    bad = [b for b, _ in rs if b is not None]
    info = {"states": sum(r.distinct for _, r in rs), "transitions": sum(r.generated for _, r in rs)}
    return (min(bad) if bad else None), info


# ---------------------------------------------------------------- reporting

class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        elif "--quick" in sys.argv:
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == "thorough"
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "cases": 0, "samples": []}
        self.assumptions = []
        self.viol = []
        self.known = load_known(pid)
        self.known_seen = []
        self.t0 = time.time()

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, r, note=None):
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        if note:
            self.cov.setdefault("models", []).append(
                {"model": note, "distinct": r.distinct, "generated": r.generated, "depth": r.depth, "wall_s": round(r.wall, 1)})

    def traces(self, n, info=None):
        self.cov["traces_validated_against_impl"] += n
        if info:
            self.cov["states"] += info["states"]
            self.cov["transitions"] += info["transitions"]

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(x if isinstance(x, str) else json.dumps(x)[:600])

    def violation(self, what, replay, key=None):
        """replay: dict / str saved for reproduction. key: identifies the specific failing case."""
        for k in self.known:
            if key is not None and k["key"] == key:
                if key not in self.known_seen:
                    self.known_seen.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return
        d = os.path.join(VERIF, "replay", self.pid)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "v%d.json" % len(self.viol))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "key": key, "seed": self.seed, "replay": replay}, f, indent=1, default=repr)
        self.viol.append(what)
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        print("  " + what[:1500])
        sys.stdout.flush()

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %s cases=%d states=%d traces=%d wall=%.1fs" % (
            self.pid, self.tier, "VIOLATED" if self.viol else "ok", self.cov["cases"], self.cov["states"],
            self.cov["traces_validated_against_impl"], time.time() - self.t0))
        return 1 if self.viol else 0


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append({"key": m.group(2), "what": m.group(3)})
    return out


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        return c.finish()
    except ToolError as e:
        print("TOOL ERROR in %s: %s" % (pid, e))
        if c.viol:
            c.finish()
            return 1
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        if c.viol:
            c.finish()
            return 1
        return 2


def pmap(f, xs, n=None):
    with cf.ThreadPoolExecutor(max_workers=n or NPROC) as ex:
        return list(ex.map(f, xs))
