"""Build the harness, run it, run TLC, write evidence and replays."""
import fcntl, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, detail):
        super().__init__(what)
        self.what, self.detail = what, detail


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    e.pop("RUSTFLAGS", None)
    return e


def cargo(manifest_dir, target, extra=None):
    e = env()
    e["CARGO_TARGET_DIR"] = target
    e.update(extra or {})
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=manifest_dir, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    return p.returncode, p.stdout


def build():
    """Build the harness against /repo's working tree; returns the binary."""
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    with open(os.path.join(VERIF, "work", ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t = os.path.join(VERIF, "target")
        rc, out = cargo(os.path.join(VERIF, "harness"), t)
        if rc != 0:
            # the stand-in for the neural-network crate may not cover a changed use of it
            t = os.path.join(VERIF, "target-full")
            rc, out2 = cargo(os.path.join(VERIF, "harness-full"), t)
            if rc != 0:
                raise ToolError("harness does not build:\n" + out[-3000:] + out2[-3000:])
    return os.path.join(t, "debug", "msharness")


def locked(name, what):
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    with open(os.path.join(VERIF, "work", name), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return what()


def build_python():
    """The Python module from /repo's working tree; returns the folder to import it from."""
    def go():
        t = os.path.join(VERIF, "target-py")
        rc, out = cargo("/repo/python_package", t, {"CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_PROFILE_DEV_OPT_LEVEL": "1"})
        if rc != 0:
            raise ToolError("the Python module does not build:\n" + out[-3000:])
        d = os.path.join(t, "module")
        os.makedirs(d, exist_ok=True)
        shutil.copy(os.path.join(t, "debug", "libms_toollib.so"), os.path.join(d, "ms_toollib.new"))
        os.replace(os.path.join(d, "ms_toollib.new"), os.path.join(d, "ms_toollib.so"))
        return d
    return locked(".lockpy", go)


def build_wasm():
    """The JavaScript interface, built for this machine; returns the program answering for it."""
    def go():
        t = os.path.join(VERIF, "target-wasm")
        rc, out = cargo(os.path.join(VERIF, "wasmharness"), t,
                        {"RUSTFLAGS": "--cfg ms_verif -Awarnings", "MS_VERIF_WASM": os.path.join(VERIF, "wasmharness", "hook.rs")})
        if rc != 0:
            raise ToolError("the JavaScript interface does not build:\n" + out[-3000:])
        return os.path.join(t, "debug", "wasmharness")
    return locked(".lockwasm", go)


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.bin = build()
        self.build_s = time.time() - self.t0
        self.states = self.transitions = self.traces = 0
        self.lock = threading.Lock()
        self.samples, self.runs, self.known = [], [], []
        self.findings = known_findings(prop)
        self.extra = {}

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def path(self, name):
        return os.path.join(self.work, name)

    # -- harness ---------------------------------------------------------
    def harness(self, *args, timeout=None, stdin=None, what=None, env_extra=None):
        args = [str(a) for a in args]
        timeout = timeout or self.scale(240, 3000)
        e = env()
        e["HARNESS_DIR"] = self.work
        e.update(env_extra or {})
        try:
            p = subprocess.run([self.bin] + args, cwd=self.work, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, timeout=timeout, input=stdin, errors="replace")
        except subprocess.TimeoutExpired:
            raise Violation("the implementation did not terminate within %d s" % timeout,
                            {"harness": args, "what": what})
        if p.returncode < 0 or p.returncode in (134, 139):
            raise Violation("the implementation crashed the process (signal %d)" % p.returncode,
                            {"harness": args, "what": what, "stderr": p.stderr[-2000:]})
        if p.returncode != 0:
            if p.returncode == 101 and not re.search(r"Os \{|No space|memory", p.stderr):
                raise Violation("the recorder could not make sense of what the implementation returned",
                                {"harness": args, "what": what, "stderr": p.stderr[-2000:]})
            raise ToolError("harness %s failed (%d): %s" % (args, p.returncode, p.stderr[-2000:]))
        return p.stdout

    # -- the other languages' interfaces ------------------------------------
    def mirror(self, backend, kind, trace):
        """The inputs of a recorded trace through another interface; what it shows, as a trace."""
        out = trace.replace(".ndjson", "") + "_seen.ndjson"
        d = self.path("mirror-" + os.path.basename(trace))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        e = env()
        e["MIRROR_DIR"] = d
        timeout = self.scale(300, 3000)
        cmd = [sys.executable, "-B", os.path.join(VERIF, "lib", "mirror.py"), backend, kind, trace, out, str(self.seed)]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=self.work, env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                               timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise Violation("the interface did not come to an end within %d s" % timeout, {"kind": kind})
        finally:
            shutil.rmtree(d, ignore_errors=True)
        self.runs.append({"mirror": os.path.basename(trace), "wall_s": round(time.time() - t0, 1)})
        if p.returncode == 4 or p.returncode in (-4, -6, -8, -11):
            raise Violation("the interface did not answer as it should", {"kind": kind, "exit": p.returncode, "said": p.stdout[-5000:]})
        if p.returncode != 0:
            raise ToolError("mirror %s %s failed (%s): %s" % (kind, trace, p.returncode, p.stdout[-2000:]))
        return out

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, trace=None, timeout=None, workers=8, env_extra=None, name=None,
            simulate=None, heap="6g"):
        name = name or module
        cfgp = self.path(name + ".cfg")
        with open(cfgp, "w") as f:
            f.write(cfg + "\nCHECK_DEADLOCK FALSE\n")
        e = env()
        if trace:
            e["TRACE"] = trace
        if env_extra:
            e.update({k: str(v) for k, v in env_extra.items()})
        meta = self.path("meta-" + name)
        tmpd = self.path("jtmp-" + name)
        os.makedirs(tmpd, exist_ok=True)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + tmpd, "-cp", JARS, "tlc2.TLC",
               "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfgp]
        if simulate:
            cmd += simulate
        cmd += [module + ".tla"]
        timeout = timeout or self.scale(400, 7200)
        t0 = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError("TLC on %s timed out after %d s" % (name, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
            shutil.rmtree(tmpd, ignore_errors=True)
        out = p.stdout
        gen = dist = 0
        ms = re.findall(r"^([\d,]+) states generated, ([\d,]+) distinct states found", out, re.M)
        if ms:
            gen, dist = (int(x.replace(",", "")) for x in ms[-1])
        with self.lock:
            self.states += dist
            self.transitions += gen
        run = {"spec": name, "states": dist, "transitions": gen, "wall_s": round(time.time() - t0, 1)}
        self.runs.append(run)
        if p.returncode == 0 and "No error has been found" in out:
            return out
        if p.returncode == 0 and simulate:
            return out
        clean = "\n".join(l for l in out.splitlines()
                          if not re.match(r"(Parsing|Semantic|Linting|Computed|Progress)", l))
        inv = re.search(r"Error: (Invariant (\w+) is violated|Action property (\w+) is violated|Temporal properties were violated|Property (\w+) is violated)", out)
        evalerr = re.search(r"Error: (Evaluating|The first argument|The second argument|TLC threw|Attempted|In applying|Applying|The \w+ argument|.*outside.*domain|.*is not enumerable|.*exception)", out)
        if "OutOfMemory" in out or "StackOverflow" in out or "No space left" in out:
            raise ToolError("TLC ran out of resources on %s:\n%s" % (name, clean[-3000:]))
        if inv or (trace and evalerr and gen > 0):
            which = inv.group(1) if inv else "recorded value outside the specification's domain"
            tail = clean[-6000:]
            det = {"spec": module, "failed": which, "tlc": tail}
            lt = re.findall(r"/\\ (?:t|line) = (\d+)", out)
            li = re.findall(r"/\\ i = (\d+)", out)
            if trace and lt:
                k = int(lt[-1])
                det["line"] = k
                det["step"] = int(li[-1]) if li else None
                with open(trace, encoding="utf-8", errors="replace") as f:
                    for n, l in enumerate(f, 1):
                        if n == k:
                            try:
                                det["record"] = json.loads(l)
                            except ValueError:
                                det["record"] = l
                            break
            raise Violation(which, det)
        raise ToolError("TLC failed on %s (exit %d):\n%s" % (name, p.returncode, clean[-4000:]))

    def sample(self, trace, k=1, maxlen=700):
        with open(trace) as f:
            for n, l in enumerate(f):
                if n >= k:
                    break
                self.samples.append(l.strip()[:maxlen])

    def count(self, trace):
        with open(trace) as f:
            n = sum(1 for _ in f)
        with self.lock:
            self.traces += n
        return n


def known_findings(prop):
    """Lines of known-findings.txt: `finding: property=<id> key=<key> <text>`"""
    res = []
    fn = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(fn):
        for l in open(fn, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def finish(ctx, level, assumptions, violations=0):
    cov = {"states": ctx.states, "transitions": ctx.transitions,
           "traces_validated_against_impl": ctx.traces, "samples": ctx.samples[:6],
           "runs": ctx.runs, "build_s": round(ctx.build_s, 1)}
    cov.update(ctx.extra)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - ctx.t0, 1), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")


def main(prop, fn, assumptions, level="model_checking"):
    t0 = time.time()
    ctx = None
    try:
        ctx = Ctx(prop)
        fn(ctx)
        finish(ctx, level, assumptions)
        for key, text in ctx.known:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" %
              (prop, ctx.states, ctx.transitions, ctx.traces, time.time() - t0))
        rc = 0
    except Violation as v:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, "%s-%d.json" % (prop, os.getpid()))
        with open(rp, "w") as f:
            json.dump({"property": prop, "seed": ctx.seed, "tier": ctx.tier, "what": v.what, **v.detail}, f, indent=1,
                      ensure_ascii=False)
        finish(ctx, level, assumptions, 1)
        print("property %s: %s" % (prop, v.what))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    except (ToolError, subprocess.TimeoutExpired, OSError) as x:
        print("TOOL ERROR: %s" % x, file=sys.stderr)
        rc = 2
    if ctx is not None:
        shutil.rmtree(ctx.work, ignore_errors=True)
    sys.stdout.flush()
    return rc
