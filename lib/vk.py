"""Shared machinery of the checks: building from /repo, driving the real code, running TLC,
reporting.  Exit status: 0 held, 1 violation (with a VIOLATION line), 2 the check itself failed."""
import atexit, itertools, json, multiprocessing, os, random, re, resource, select, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.environ.get("VERIF_TARGET", VERIF + "/target")
SPEC = VERIF + "/spec"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TOY = 257
os.environ.update(RUST_BACKTRACE="0", RUST_LIB_BACKTRACE="0")     # failures need no symbols

class Broken(Exception):
    """The code refused or died on something it must do (an operation on valid data)."""

class Ans(dict):
    """An answer of a driver; what lacks a result although one is needed is a failure of the code."""
    def __missing__(self, k):
        if k == "ok":
            raise Broken(f"no result: {json.dumps(self)[:300]}")
        raise KeyError(k)

class ToolError(Exception):
    pass

class Ctx:
    def __init__(self, pid, tier, seed, level):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.thorough = tier == "thorough"
        self.rng = random.Random(f"{pid}-{seed}")
        base = "/dev/shm" if os.path.isdir("/dev/shm") and shutil.disk_usage("/dev/shm").free > 2 << 30 else "/tmp"
        self.dir = tempfile.mkdtemp(prefix=f"zkv-{pid}-", dir=base)
        atexit.register(shutil.rmtree, self.dir, True)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0, "samples": []}
        self.assumptions = []
        self.violations = 0
        self.known = load_known(pid)
        self.known_seen = set()
        self.drivers = []
        self.notes = {}
        self.serial = itertools.count(1)

    # ---- reporting
    def violation(self, what, data=None, key=None):
        """A behaviour of the real code that breaks the property.  `key` names the specific input or
        call site; keys in the known-findings file are printed as such and do not fail the check."""
        if key is not None and key in self.known:
            if key not in self.known_seen:
                self.known_seen.add(key)
                print(f"KNOWN-FINDING: property={self.pid} {self.known[key]}", flush=True)
            return
        self.violations += 1
        if self.violations > 3:
            return
        os.makedirs(VERIF + "/replays", exist_ok=True)
        path = f"{VERIF}/replays/{self.pid}-{self.violations}.json"
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "key": key, "seed": self.seed, "tier": self.tier, "data": data}, f, indent=1, default=str)
        print(f"# {what}")
        print(f"VIOLATION property={self.pid} replay={path}", flush=True)

    def sample(self, x):
        if len(self.cov["samples"]) < 4:
            s = json.dumps(x, default=str)
            self.cov["samples"].append(json.loads(s) if len(s) < 1500 else s[:1500] + "...")

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def finish(self):
        for d in self.drivers:
            d.close()
        cov = dict(self.cov)
        if not cov["evaluations"]:
            del cov["evaluations"]
        cov.update(self.notes)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": self.violations}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            if k not in self.known_seen:
                print(f"# known finding {k} was not observed in this run")
        print(f"# {self.pid} {self.tier}: {self.violations} violations; " + ", ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, int)) + f"; {ev['wall_s']} s")
        return 1 if self.violations else 0

    def scratch(self, name):
        return os.path.join(self.dir, name)

    # ---- TLC
    def tlc(self, module, cfg, env=None, workers=4, timeout=600, simulate=None, extra=(), design=True, heap="4g"):
        """Runs TLC on spec/<module>.tla with configuration text `cfg`.  Returns Tlc.  With design=True
        anything but success is a ToolError (the specification itself is then wrong)."""
        if self.thorough:
            timeout *= 5
        n = next(self.serial)                      # checks run TLC from several threads
        cfgp = self.scratch(f"{module}-{n}.cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-Xss64m", "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC", "-metadir", self.scratch(f"md{n}"),
               "-noGenerateSpecTE", "-workers", str(workers), "-config", cfgp]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra) + [module]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}")
        out = p.stdout.decode("utf-8", "replace")
        r = Tlc(p.returncode, out)
        shutil.rmtree(self.scratch(f"md{n}"), ignore_errors=True)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        if design and not r.ok:
            raise ToolError(f"TLC on {module}: exit {r.rc}\n" + (re.search(r"(?s)Error:.{0,1500}", out) or [""])[0] + "\n...\n" + tail(out, 40))
        return r

    def prove(self, module):
        """The theorems of spec/<module>.tla, checked by tlapm (no bounds on the constants, histories of any length)."""
        d = self.scratch("proofs")
        if not os.path.isdir(d):
            shutil.copytree(SPEC, d, ignore=lambda _, fs: [f for f in fs if not f.endswith(".tla")])
        for stretch in ("1", "5"):
            try:
                p = subprocess.run(["tlapm", "--threads", "4", "--stretch", stretch, f"{module}.tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            except subprocess.TimeoutExpired:
                raise ToolError(f"tlapm timed out on {module}")
            out = p.stdout.decode("utf-8", "replace")
            m = re.search(r"All (\d+) obligations proved", out)
            if m and p.returncode == 0:
                self.count("obligations_proved", int(m.group(1)))
                return
        raise ToolError(f"tlapm on {module}:\n" + tail(out, 40))

    def trace_file(self, events, name=None):
        p = self.scratch(name or f"trace{next(self.serial)}.ndjson")
        with open(p, "w") as f:
            for e in events:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        return p

    def validate(self, module, cfg, events, what, env=None, key=None, timeout=600, heap="4g", n_traces=1, describe=None):
        """Validates one recorded trace against a trace specification (a deterministic consumer with a
        variable l).  Returns True when the whole trace is a behaviour of the specification."""
        p = self.trace_file(events)
        ev = {"TRACE": p}
        ev.update(env or {})
        r = self.tlc(module, cfg, env=ev, workers=1, timeout=timeout, design=False, heap=heap)
        if r.ok:
            self.cov["traces_validated_against_impl"] += n_traces
            return True
        m = re.search(r"TRACE-REJECTED at (\d+)", r.out)
        if not m:
            raise ToolError(f"TLC on {module} ({what}): exit {r.rc}\n" + tail(r.out, 50))
        i = int(m.group(1))
        bad = events[i - 1] if 0 < i <= len(events) else None
        d = describe(bad) if describe and bad is not None else ""
        self.violation(f"{what}: the specification {module} does not allow event {i} of {len(events)} {d}",
                       {"module": module, "event_index": i, "event": bad, "before": events[max(0, i - 4):i - 1]}, key=key)
        return False

    # ---- building and driving the code
    def build(self, *crates):
        for c in crates:
            build(c)

    def driver(self, exe, env=None, timeout=60, mem=None, out=None):
        d = Driver(exe, env, timeout, mem, out)
        self.drivers.append(d)
        return d


class Tlc:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        self.ok = rc == 0
        self.violated = None
        m = re.search(r"Invariant (\w+) is violated|property (\w+) (?:is|was) violated|Action property (\w+) is violated", out)
        if m:
            self.violated = next(g for g in m.groups() if g)


def tail(s, n):
    return "\n".join(s.splitlines()[-n:])

_built = set()

def build(crate, bins=None):
    """Builds a harness crate against /repo's working tree."""
    if crate in _built:
        return
    e = dict(os.environ)
    e.update(CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", HOME="/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    for attempt in range(2):
        p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=f"{VERIF}/harness/{crate}", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 0:
            break
    else:
        raise ToolError(f"cannot build {crate}:\n" + tail(p.stdout.decode("utf-8", "replace"), 60))
    _built.add(crate)

def exe(name):
    return f"{TARGET}/debug/{name}"


class Driver:
    """A line-oriented server around the real code.  A crash, hang or memory blow-up of the code under
    test is data: {"crash": status} or {"hang": seconds}."""
    def __init__(self, cmd, env=None, timeout=60, mem=None, out=None):
        self.out = out      # a file that receives what the code prints
        self.cmd = [cmd] if isinstance(cmd, str) else list(cmd)
        self.env = dict(os.environ)
        self.env.update(env or {})
        self.timeout, self.mem, self.p = timeout, mem, None

    def start(self):
        def lim():
            if self.mem:
                resource.setrlimit(resource.RLIMIT_AS, (self.mem, self.mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.err = open(self.out, "ab+") if self.out else tempfile.TemporaryFile()
        r, w = os.pipe()
        self.p = subprocess.Popen(self.cmd, env=dict(self.env, ZK_FD=str(w)), stdin=subprocess.PIPE, stdout=self.err if self.out else subprocess.DEVNULL, stderr=self.err, preexec_fn=lim, bufsize=0, pass_fds=(w,))
        os.close(w)
        self.ans = os.fdopen(r, "rb", buffering=0)
        self.buf = b""

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.wait(2)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
            self.ans.close()
            self.p = None

    def kill(self):
        self.p.kill()
        self.p.wait()
        self.ans.close()
        self.p = None

    def call(self, req, timeout=None):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(req) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            return self._died()
        end = time.time() + (timeout or self.timeout)
        while True:
            i = self.buf.find(b"\n")
            if i >= 0:
                line, self.buf = self.buf[:i], self.buf[i + 1:]
                if line.startswith(b"@@"):
                    r = json.loads(line[2:])
                    if isinstance(r, dict) and str(r.get("panic", "")).startswith("driver:"):
                        raise ToolError(f"driver: {r['panic']} on {json.dumps(req)[:300]}")
                    return Ans(r) if isinstance(r, dict) else r
                continue
            left = end - time.time()
            if left <= 0:
                self.kill()
                return Ans({"hang": timeout or self.timeout})
            rd, _, _ = select.select([self.ans], [], [], left)
            if rd:
                b = os.read(self.ans.fileno(), 1 << 20)
                if not b:
                    return self._died()
                self.buf += b

    def _died(self):
        rc = self.p.wait()
        self.err.seek(0)
        t = self.err.read().decode("utf-8", "replace")[-500:]
        self.ans.close()
        self.p = None
        return Ans({"crash": rc, "stderr": t})


def parallel(f, xs, workers=8):
    """f over xs in forked processes (f must not use drivers that are already running)"""
    global _job
    _job = f
    with multiprocessing.get_context("fork").Pool(workers) as p:
        return p.map(_call, list(xs), chunksize=1)

def _call(x):
    return _job(x)


def load_known(pid):
    r = {}
    try:
        with open(VERIF + "/known_findings.txt") as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == pid:
                    r[m.group(2)] = m.group(3)
    except FileNotFoundError:
        pass
    return r


def main(pid, level, fn):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Ctx(pid, tier, seed, level)
    try:
        fn(c)
        rc = c.finish()
    except Broken as e:
        c.violation(f"an operation on valid data fails: {e}", {"what": str(e)})
        rc = c.finish()
    except ToolError as e:
        print(f"TOOL ERROR in {pid}: {e}", flush=True)
        rc = c.finish() if c.violations else 2
    except Exception:
        traceback.print_exc()
        rc = c.finish() if c.violations else 2
    finally:
        for d in c.drivers:
            d.close()
    sys.stdout.flush()
    sys.exit(rc)
