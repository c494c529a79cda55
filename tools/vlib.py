"""Machinery shared by all checks: builds the harness from /repo, runs scenarios, runs TLC."""
import concurrent.futures, fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
WORK = os.path.join(VERIF, ".work")
EVID = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, files=()):
        super().__init__(what)
        self.what, self.files = what, list(files)


def build_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    for k in ("CC", "HOST_CC", "HOST_CFLAGS", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    h = hashlib.sha256()
    for f in sources(["extern"]):
        h.update(f.encode() + b"\0" + open(f, "rb").read())
    e["CFLAGS"] = "-DVP_EXTERN_HASH=h" + h.hexdigest()[:16]
    return e


def sources(tops):
    out = []
    for t in tops:
        p = os.path.join(REPO, t)
        if os.path.isfile(p):
            out.append(p)
        for d, dirs, fs in os.walk(p):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            out += [os.path.join(d, f) for f in sorted(fs)]
    return out


def fingerprint(tops, extra=()):
    h = hashlib.sha256()
    for f in sources(tops) + list(extra):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def cargo(args, env, log):
    r = subprocess.run(["cargo"] + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=HARNESS)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        raise ToolError("build failed: cargo " + " ".join(args))
    return r.stdout


def forget(profile, crates):
    """Removes cargo's notes on crates, so that they are compiled again (incrementally, by contents)."""
    d = os.path.join(profile, ".fingerprint")
    for x in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if x.startswith(tuple(crates)):
            shutil.rmtree(os.path.join(d, x))


REPO_PARTS = ["src", "extern", "Cargo.toml", "Cargo.lock", "build.rs", "benches"]


def build(bins=False):
    """Builds the harness (and the repository's programs) from the working tree of /repo."""
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(WORK, "build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = build_env()
        mine = [os.path.join(HARNESS, "src", f) for f in sorted(os.listdir(os.path.join(HARNESS, "src")))]
        mine.append(os.path.join(HARNESS, "Cargo.toml"))
        want = fingerprint(REPO_PARTS, mine)
        stamp = os.path.join(TARGET, "vh.stamp")
        exe = os.path.join(TARGET, "release", "vh")
        if not (os.path.exists(stamp) and open(stamp).read() == want and os.path.exists(exe)):
            if os.path.exists(stamp):
                os.remove(stamp)
            # Contents decide what is rebuilt, not time stamps.
            forget(os.path.join(TARGET, "release"), ["scalable_mpc-", "vh-"])
            cargo(["build", "--release", "--offline", "--target-dir", TARGET], env, None)
            open(stamp, "w").write(want)
        if bins:
            want = fingerprint(REPO_PARTS)
            tdir = os.path.join(TARGET, "programs")
            stamp = os.path.join(TARGET, "programs.stamp")
            if not (os.path.exists(stamp) and open(stamp).read() == want):
                if os.path.exists(stamp):
                    os.remove(stamp)
                m = ["--manifest-path", os.path.join(REPO, "Cargo.toml"), "--target-dir", tdir]
                forget(os.path.join(tdir, "debug"), ["scalable_mpc-"])
                env["CARGO_PROFILE_DEV_OPT_LEVEL"] = "1"
                cargo(["build", "--bins", "--locked", "--offline"] + m, env, None)
                open(stamp, "w").write(want)
    return exe


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.deadline = self.t0 + 860
        self.dir = os.path.join(WORK, "%s-%d" % (pid, os.getpid()))
        os.makedirs(self.dir)
        os.makedirs(EVID, exist_ok=True)
        self.pool = concurrent.futures.ThreadPoolExecutor(8)
        self.heavy = threading.Semaphore(2)
        self.jobs = []
        self.lock = threading.Lock()
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.counts = [], [], {}
        self.assumptions = []
        self.exhaustive = False
        self.k = 0
        self.exe = None

    # --- running ------------------------------------------------------------
    def left(self):
        return max(1.0, self.deadline - time.time())

    def path(self, name):
        with self.lock:
            self.k += 1
            return os.path.join(self.dir, "%03d-%s" % (self.k, name))

    def tlc(self, module, cfg, workers=1, env=None, extra=(), mem="1500m", timeout=None):
        meta = self.path("meta")
        os.makedirs(meta)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        gc = "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC"
        # No compiled-code tiers beyond the first for short runs: start-up dominates them.
        cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xss64m", "-Xmx" + mem, gc, "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
               "-workers", str(workers), "-config", os.path.join(SPEC, cfg), *extra, os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, env=e, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=min(timeout or 1e9, self.left()))
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s %s" % (module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        gen, dist = 0, 0
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        if m:
            gen, dist = int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
        if "OutOfMemoryError" in out or "Parsing or semantic analysis failed" in out or r.returncode < 0 or "StackOverflow" in out:
            raise ToolError("TLC failed on %s %s:\n%s" % (module, cfg, out[-3000:]))
        return r.returncode, out, gen, dist

    def submit(self, fn, *a, **k):
        self.jobs.append(self.pool.submit(fn, *a, **k))

    def model(self, module, cfg, fails=None, workers=4, mem="6g", env=None, data=None, extra=()):
        """Checks a model with TLC. `fails`: the model must violate the named property (the specification is
        sensitive). `data`: the model contains observations of the code, its failure is a violation."""
        def job():
            with self.heavy:
                rc, out, gen, dist = self.tlc(module, cfg, workers=workers, mem=mem, env=env, extra=extra)
            name = module + "/" + cfg
            if fails is not None:
                if rc == 0 or fails not in out:
                    raise ToolError("%s was expected to violate %s\n%s" % (name, fails, out[-2000:]))
            elif rc != 0:
                if data is not None:
                    f = self.path("tlc.txt")
                    open(f, "w").write(out)
                    raise Violation("%s on %s: %s" % (name, data, first_error(out)), [f] + ([data] if os.path.exists(data) else []))
                raise ToolError("model %s failed:\n%s" % (name, out[-3000:]))
            with self.lock:
                self.states += dist
                self.transitions += gen
                self.models.append({"model": name, "distinct_states": dist, "states_generated": gen,
                                    **({"expected_violation": fails} if fails else {})})
        self.submit(job)

    def gen(self, module, cfg, num=None, depth=100, keep=None, env=None):
        """Behaviours of the specification, written by TLC: simulated ones (num) or all of them."""
        f = self.path("gen.ndjson")
        open(f, "w").close()
        extra = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed & 0x7fffffff)] if num else []
        rc, out, gen, dist = self.tlc(module, cfg, env={**(env or {}), "GEN": f}, extra=extra, mem="3g")
        if rc != 0:
            raise ToolError("generation with %s %s failed:\n%s" % (module, cfg, out[-3000:]))
        seen, res = set(), []
        for line in open(f):
            v = json.loads(json.loads(line))
            if num:
                # Simulation evaluates all successors of the last step: keep one of each.
                key = json.dumps(v["steps"][:-1])
                if key in seen:
                    continue
                seen.add(key)
            res.append(v)
        if keep and len(res) > keep:
            res = random.Random(self.seed).sample(res, keep)
        if not res:
            raise ToolError("no behaviours generated by %s %s" % (module, cfg))
        with open(f, "w") as o:
            for v in res:
                o.write(json.dumps(v) + "\n")
        with self.lock:
            self.counts["behaviours_generated"] = self.counts.get("behaviours_generated", 0) + len(res)
            if not num:
                self.states += dist
                self.transitions += gen
            if len(self.samples) < 3:
                self.samples.append({"generated_behaviour": res[len(res) // 2]})
        return f

    def run(self, scenario, inp=None, extra=(), timeout=420):
        """Runs a scenario of the harness on the real code; returns the recorded traces."""
        d = self.path(scenario)
        scratch = self.path("scratch")
        os.makedirs(d)
        os.makedirs(scratch)
        cmd = [self.exe, scenario, "--seed", str(self.seed), "--tier", self.tier, "--out", d, "--scratch", scratch]
        if inp:
            cmd += ["--in", inp]
        for x in extra:
            cmd += ["--x", str(x)]
        e = dict(os.environ)
        e["VH_PANICS"] = "1"
        log = self.path("harness.txt")
        try:
            with open(log, "w") as lf:
                r = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, timeout=min(timeout, self.left()), env=e, cwd=scratch)
            if r.returncode != 0:
                tail = open(log).read()[-1500:]
                raise Violation("the code under test ended scenario '%s' with status %d: %s" % (scenario, r.returncode, tail.strip()[-600:]), [log])
        except subprocess.TimeoutExpired:
            if self.left() < 5:
                raise ToolError("scenario %s out of time" % scenario)
            raise Violation("scenario '%s' does not end" % scenario, [log])
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        fs = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".ndjson"))
        if not fs:
            raise ToolError("scenario %s recorded nothing" % scenario)
        return fs

    def programs(self):
        return os.path.join(TARGET, "programs", "debug")

    def validate(self, traces, module, cfg=None, mem="1500m", env=None):
        """Steps recorded traces through a trace specification."""
        for f in traces:
            self.submit(self._validate1, f, module, cfg or module + ".cfg", mem, env)

    def _validate1(self, f, module, cfg, mem, env):
        rc, out, gen, dist = self.tlc(module, cfg, env={**(env or {}), "TRACE": f}, mem=mem)
        lines = open(f).read().splitlines()
        if rc != 0:
            m = re.search(r'<<"TRACE", (\d+), (\d+)>>', out)
            at = int(m.group(1)) if m else None
            ev = lines[at][:400] if at is not None and at < len(lines) else ""
            if at is None:
                m2 = re.findall(r"\bl = (\d+)", out)
                if m2 and int(m2[-1]) <= len(lines):
                    at = int(m2[-1]) - 1
                    ev = lines[at][:400]
            t = self.path("tlc.txt")
            open(t, "w").write(out)
            why = first_error(out)
            raise Violation("trace %s not accepted by %s at event %s of %d: %s (%s)" %
                            (os.path.basename(f), module, "?" if at is None else at + 1, len(lines), ev, why), [f, t])
        hist = sum(1 for x in lines if '"e":"init"' in x) or 1
        with self.lock:
            self.states += dist
            self.transitions += gen
            self.traces += hist
            self.events += len(lines)
            if len([s for s in self.samples if "trace" in s]) < 3:
                i = min(len(lines) - 1, 1 + self.seed % max(1, len(lines)))
                self.samples.append({"trace": os.path.basename(f), "spec": module, "events": len(lines),
                                     "first": lines[0][:300], "some_event": lines[i][:300]})

    def join(self):
        err, vio = None, None
        jobs, self.jobs = self.jobs, []
        for j in jobs:
            try:
                j.result()
            except Violation as v:
                vio = vio or v
            except ToolError as e:
                err = err or e
        if vio:
            raise vio
        if err:
            raise err

    def evidence(self, violations):
        cov = {"samples": self.samples or ["none"]}
        if self.level == "model_checking":
            cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces)
        cov["trace_events"] = self.events
        cov["models"] = self.models
        cov.update(self.counts)
        if self.exhaustive:
            cov["exhaustive"] = True
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        tmp = os.path.join(EVID, ".%s.tmp" % self.pid)
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(EVID, self.pid + ".json"))


def first_error(out):
    ls = [x for x in out.splitlines() if x.strip()]
    for i, x in enumerate(ls):
        if x.startswith("Error:"):
            return " ".join(ls[i:i + 3])[:500]
    return "no error text"


def main(pid, fn, bins=False, level="model_checking"):
    c = Check(pid, level)
    code = 2
    try:
        c.exe = build(bins)
        fn(c)
        c.join()
        c.evidence(0)
        print("%s: held; %d states, %d recorded histories, %d events, %.1f s" % (pid, c.states, c.traces, c.events, time.time() - c.t0))
        code = 0
    except Violation as v:
        for j in c.jobs:
            j.cancel()
        dst = os.path.join(EVID, "replay-" + pid)
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        with open(os.path.join(dst, "what.txt"), "w") as f:
            f.write(v.what + "\nseed %d tier %s\n" % (c.seed, c.tier))
        for x in v.files:
            if os.path.exists(x):
                shutil.copy(x, dst)
        c.evidence(1)
        print(v.what[:2000])
        print("VIOLATION property=%s replay=%s" % (pid, dst))
        code = 1
    except ToolError as e:
        for j in c.jobs:
            j.cancel()
        print("ERROR in the check of %s: %s" % (pid, str(e)[-4000:]))
        code = 2
    finally:
        c.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(c.dir, ignore_errors=True)
        sys.stdout.flush()
    os._exit(code)
