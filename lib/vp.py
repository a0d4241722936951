"""Runner shared by all checks: builds the harness from /repo's working tree, explores the bounded
models with TLC, replays the inputs TLC generated (and the harness's own) into the real code, and
validates the recorded observations against the trace specifications with TLC."""
import hashlib, json, os, re, subprocess, sys, time, shutil, concurrent.futures, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
JARS = "/opt/veriftools/tla/tla2tools.jar"
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
CORES = os.cpu_count() or 4


class ToolError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def tlc_classpath():
    """the class path of the installed `tlc` wrapper"""
    global _CP
    try:
        return _CP
    except NameError:
        pass
    path = shutil.which("tlc")
    text = open(path).read()
    m = re.search(r"(?:-cp|-classpath)\s+(\S+)", text)
    _CP = m.group(1).strip("'\"") if m else JARS
    return _CP


def run_tlc(module, cfg, work, env=None, heap="6g", timeout=840, extra=(), coverage=False, workers=None):
    """runs TLC; returns (returncode, output path)"""
    os.makedirs(work, exist_ok=True)
    out = os.path.join(work, f"{module}.{os.path.basename(cfg)}.out")
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={work}", "-cp", tlc_classpath(), "tlc2.TLC",
           "-workers", str(workers or CORES), "-metadir", tempfile.mkdtemp(dir=work), "-noGenerateSpecTE",
           "-config", cfg]
    if coverage:
        cmd += ["-coverage", "100000"]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    with open(out, "w") as f:
        try:
            rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=SPEC, env=e, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module} {cfg}")
    return rc, out


STATS = re.compile(r"^(\d+) states generated, (\d+) distinct states found, (\d+) states left")
ACTION = re.compile(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)>: (\d+):(\d+)")


def parse_tlc(out):
    """stats, rejects, generated inputs, action coverage of a TLC run"""
    r = dict(states=0, transitions=0, rejects=[], inputs=[], actions={}, finished=False, error=None)
    with open(out, errors="replace") as f:
        for line in f:
            if '@REJECT@' in line:
                s = line.strip()
                try:
                    r["rejects"].append(json.loads(json.loads(s).replace("@REJECT@", "", 1)))
                except ValueError:
                    m = re.search(r'\\"i\\":(\d+)', s)
                    r["rejects"].append(dict(i=int(m.group(1)), exp=s))
            elif '@INPUT@' in line:
                r["inputs"].append(json.loads(line.strip()).replace("@INPUT@", "", 1))
            elif line.startswith("Model checking completed. No error"):
                r["finished"] = True
            elif line.startswith("Error:") and r["error"] is None:
                r["error"] = line.strip() + " " + "".join(next(f, "") for _ in range(6))
            else:
                m = STATS.match(line)
                if m:
                    r["transitions"], r["states"] = int(m.group(1)), int(m.group(2))
                    continue
                m = ACTION.match(line)
                if m:
                    k = f"{m.group(2)}.{m.group(1)}"
                    r["actions"][k] = r["actions"].get(k, 0) + int(m.group(4))
    return r


_built = {}


def build(crate):
    """builds a harness crate from /repo's current working tree; returns the binary"""
    src = os.path.join(VERIF, "harness", crate)
    target = os.path.join(BUILD, crate)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, RUSTFLAGS="--cap-lints=allow",
               CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    env["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + env.get("PATH", "")
    t = time.time()
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--message-format=short"], cwd=src, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError(f"build of harness/{crate} failed:\n" + p.stdout[-4000:])
    _built[crate] = round(time.time() - t, 1)
    return os.path.join(target, "debug", "v" + crate)


def cfg_for(module, pid, tier):
    for name in (f"{module}.{pid}.{tier}.cfg", f"{module}.{tier}.cfg", f"{module}.{pid}.cfg", f"{module}.cfg"):
        p = os.path.join(SPEC, name)
        if os.path.exists(p):
            return p
    raise ToolError(f"no configuration for {module} {pid} {tier}")


def case_key(area, inp):
    return hashlib.sha256((area + json.dumps(inp, sort_keys=True)).encode()).hexdigest()[:16]


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


class Check:
    def __init__(self, pid, conf):
        self.pid, self.conf = pid, conf
        self.start = time.time()
        self.work = os.path.join(BUILD, "work", f"{pid}-{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.validated = 0
        self.models, self.traces, self.samples, self.violations, self.known = [], [], [], [], []

    # ---- bounded models
    def model(self, unit):
        module = unit["mc"]
        cfg = cfg_for(module, self.pid, TIER)
        t = time.time()
        rc, out = run_tlc(module, cfg, self.work, env=dict(PROP=self.pid, TRACE="/dev/null"), coverage=unit.get("coverage", False),
                          timeout=820, workers=unit.get("mc_workers"))
        r = parse_tlc(out)
        if rc != 0 or not r["finished"]:
            raise ToolError(f"model {module} ({os.path.basename(cfg)}) does not satisfy its properties or TLC failed (rc {rc}): "
                            f"{r['error']}\n" + "".join(open(out, errors="replace").readlines()[-40:]))
        self.states += r["states"]
        self.transitions += r["transitions"]
        m = dict(module=module, cfg=os.path.basename(cfg), states=r["states"], transitions=r["transitions"],
                 scripts_generated_for_replay=len(r["inputs"]), wall_s=round(time.time() - t, 1))
        if r["actions"]:
            m["action_counts"] = r["actions"]
        self.models.append(m)
        return r["inputs"]

    # ---- run the real code
    def execute(self, unit, binary, inputs, only_inputs=False):
        area = unit["area"]
        trace = os.path.join(self.work, f"{area}.ndjson")
        cmd = [binary, area, "--seed", str(SEED), "--tier", TIER, "--out", trace]
        if inputs:
            f = os.path.join(self.work, f"{area}.inputs")
            with open(f, "w") as g:
                g.write("\n".join(inputs) + "\n")
            cmd += ["--inputs", f]
        if only_inputs:
            cmd += ["--only-inputs"]
        cmd += unit.get("args", [])
        t = time.time()
        scratch = os.path.join(self.work, f"scratch-{area}")
        os.makedirs(scratch, exist_ok=True)
        env = dict(os.environ, VP_SCRATCH=scratch, RUST_MIN_STACK=str(64 << 20), PROP=self.pid, VP_VERIF=VERIF)
        try:
            p = subprocess.run(cmd, stdout=open(trace + ".stdout", "w"), stderr=open(trace + ".stderr", "w"), cwd=scratch, env=env,
                               timeout=840)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            raise ToolError(f"harness {area} timed out")
        if rc == 77 or rc < 0:
            # the code under test did not return, or took the process down
            cur = open(trace + ".current").read()
            try:
                inp = json.loads(cur)
            except ValueError:
                raise ToolError(f"harness {area} died ({rc}) outside a case: " + open(trace + ".stderr").read()[-2000:])
            what = "did not return" if rc == 77 else f"took the process down (signal {-rc})"
            self.violation(unit, inp, dict(status="crash", message=what + ": " + open(trace + ".stderr").read()[-500:]), "returns")
            return None, 0
        if rc != 0:
            raise ToolError(f"harness {area} failed (exit {rc}): " + open(trace + ".stderr").read()[-3000:])
        with open(trace) as f:
            n = sum(1 for _ in f)
        if n == 0:
            raise ToolError(f"harness {area} recorded nothing")
        return trace, round(time.time() - t, 1)

    def validate(self, unit, trace, run_s):
        module = unit["trace"]
        cfg = cfg_for(module, self.pid, TIER)
        t = time.time()
        rc, out = run_tlc(module, cfg, self.work, env=dict(TRACE=trace, PROP=self.pid), heap="12g")
        r = parse_tlc(out)
        if rc != 0 or not r["finished"]:
            raise ToolError(f"trace validation {module} failed (rc {rc}): {r['error']}\n" + "".join(open(out, errors="replace").readlines()[-40:]))
        rejected = {}
        for x in r["rejects"]:
            rejected.setdefault(x["i"], x.get("exp"))
        n = 0
        with open(trace) as f:
            for line in f:
                n += 1
                if n in rejected:
                    rec = json.loads(line)
                    self.violation(unit, rec["in"], rec["obs"], rejected[n])
                elif len(self.samples) < 3 * (len(self.traces) + 1) and n % 37 == 1 and len(line) < 4000:
                    rec = json.loads(line)
                    self.samples.append(dict(area=unit["area"], input=rec["in"], observed=rec["obs"]))
        ok = n - len(rejected)
        self.validated += ok
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.traces.append(dict(area=unit["area"], module=module, cases=n, accepted=ok, rejected=len(rejected), states=r["states"],
                                transitions=r["transitions"], record_s=run_s, validate_s=round(time.time() - t, 1)))

    def violation(self, unit, inp, obs, exp):
        key = case_key(unit["area"], inp)
        kf = known_findings(self.pid)
        if key in kf:
            self.known.append((key, kf[key]))
            return
        self.violations.append(dict(area=unit["area"], crate=unit["crate"], case=key, input=inp, observed=obs, expected=exp))

    # ----
    def run(self, replay_file=None):
        units = self.conf["units"]
        crates = sorted({u["crate"] for u in units})
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            builds = {c: ex.submit(build, c) for c in crates}
            if replay_file:
                rec = json.load(open(replay_file))
                mcs = []
            else:
                # bounded models one after another, next to the build
                mcs = [None if "mc" not in u else u for u in units]
            gen = []
            for m in self.conf.get("models", []) if not replay_file else []:
                self.model(dict(mc=m))
            for u in mcs:
                gen.append(self.model(u) if u else [])
            bins = {c: f.result() for c, f in builds.items()}
        if replay_file:
            for u in units:
                ins = [json.dumps(v["input"]) for v in rec["violations"] if v["area"] == u["area"]]
                if ins:
                    trace, s = self.execute(u, bins[u["crate"]], ins, only_inputs=True)
                    if trace:
                        self.validate(u, trace, s)
        else:
            for u, ins in zip(units, gen):
                trace, s = self.execute(u, bins[u["crate"]], ins)
                if trace:
                    self.validate(u, trace, s)
        return self.finish(replay_file)

    def finish(self, replay_file=None):
        wall = round(time.time() - self.start, 1)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.validated,
                   samples=shrink(self.samples), models=self.models, trace_validation=self.traces, build_s=_built)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level="model_checking", coverage=cov, wall_s=wall)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev["violations_found"] = len(self.violations)
        with open(os.path.join(VERIF, "evidence", f"{self.pid}.json"), "w") as f:
            f.write(pack(ev))
        log(f"{self.pid}: {self.states} states, {self.transitions} transitions, {self.validated} recorded cases validated, {wall} s")
        for key, what in sorted(set(self.known)):
            log(f"KNOWN-FINDING: property={self.pid} {what}")
        shutil.rmtree(self.work, ignore_errors=True) if not os.environ.get("VP_KEEP") else None
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.pid}.json")
            vs = sorted(self.violations, key=lambda v: len(json.dumps(v["input"])))[:20]
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, seed=SEED, tier=TIER, count=len(self.violations),
                               how=f"python3 check.py {self.pid} --replay {path}", violations=vs), f, indent=1)
            v = vs[0]
            log("smallest rejected case: " + json.dumps(v["input"])[:1500])
            log("  observed: " + json.dumps(v["observed"])[:1500])
            log("  the specification allows: " + json.dumps(v["expected"])[:1500])
            log(f"VIOLATION property={self.pid} replay={path}")
            return 1
        return 0


def pack(ev):
    """one line per top-level and coverage entry"""
    head = {k: v for k, v in ev.items() if k != "coverage"}
    lines = [f"{json.dumps(k)}: {json.dumps(v)}" for k, v in head.items()]
    cov = ",\n  ".join(f"{json.dumps(k)}: {json.dumps(v)}" for k, v in ev["coverage"].items())
    lines.append('"coverage": {\n  ' + cov + "\n }")
    return "{\n " + ",\n ".join(lines) + "\n}\n"


def shrink(samples, limit=40000):
    out, size = [], 0
    for s in samples:
        n = len(json.dumps(s))
        if size + n > limit:
            continue
        out.append(s)
        size += n
    return out
