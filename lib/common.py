"""Shared machinery: build the driver, run TLC, run scenarios on the real code, compare, report."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
REPLAYS = os.path.join(VERIF, "replay")
TLACP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = max(2, min(8, os.cpu_count() or 2))

ENV = dict(os.environ)
ENV.update(
    HOME="/root", CARGO_HOME="/root/.cargo", RUSTUP_HOME="/root/.rustup",
    RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
    CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
)
for _k in ("CARGO_TARGET_DIR", "CARGO_PROFILE_DEV_DEBUG", "RUSTFLAGS"):
    ENV.pop(_k, None)
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/bin:/usr/bin:/bin")


class ToolError(Exception):
    """The machinery failed: no verdict."""


class Violation(Exception):
    def __init__(self, what, payload):
        super().__init__(what)
        self.what = what
        self.payload = payload


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------------------------- building


def cargo(args, cwd, target, env=None, timeout=800):
    e = dict(ENV)
    e["CARGO_TARGET_DIR"] = target
    e.update(env or {})
    return subprocess.run(["cargo"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)


def build_driver(release=False, sync=False):
    """Builds the driver from /repo's working tree; returns the binary's path."""
    t = TARGET + ("-sync" if sync else "")
    args = ["build", "--offline", "--bin", "drive"]
    if release:
        args.append("--release")
    if sync:
        args += ["--features", "sync"]
    r = cargo(args, os.path.join(VERIF, "harness"), t)
    if r.returncode != 0:
        raise ToolError("the driver does not build:\n" + r.stdout[-4000:])
    return os.path.join(t, "release" if release else "debug", "drive")


# ---------------------------------------------------------------------------------- TLC


class Tlc:
    def __init__(self, out, wall, code):
        out = "\n".join(x for x in out.splitlines() if not x.startswith(("Parsing file", "Semantic processing")))
        self.out = out
        self.wall = wall
        self.code = code
        short = "\n".join(x for x in out.splitlines() if len(x) < 300)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", short)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", short)
        self.depth = int(m.group(1)) if m else 0
        # action coverage: <Name line ...>: distinct:total
        self.coverage = {}
        for n, d, t in re.findall(r"^<(\w+) line [^>]*>: (\d+):(\d+)", short, re.M):
            a, b = self.coverage.get(n, (0, 0))
            self.coverage[n] = (max(a, int(d)), max(b, int(t)))


def cfg_path(cfg):
    return cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg + ".cfg")


def mkcfg(work, base, extra="", **over):
    """A configuration like `base` with some constants given other values (strings as written in a
    configuration: "X = v" or, for a definition, "X <- D")."""
    out = []
    with open(cfg_path(base)) as f:
        for line in f:
            m = re.match(r"\s+(\w+)\s*(=|<-)", line)
            if m and m.group(1) in over:
                v = str(over.pop(m.group(1)))
                line = f"  {m.group(1)} {v if v.startswith('<-') else '= ' + v}\n"
            out.append(line)
    if over:
        raise ToolError(f"{base}.cfg has no {list(over)}")
    path = os.path.join(work, f"{base}-{random.SystemRandom().randrange(1 << 40)}.cfg")
    with open(path, "w") as f:
        f.write("".join(out) + extra)
    return path


def tlc(module, cfg=None, env=None, workers=1, extra=(), work=None, timeout=850, heap="3g",
        user_file=None, props=()):
    work = work or "/tmp"
    md = os.path.join(work, f"md-{os.getpid()}-{random.SystemRandom().randrange(1 << 40)}")
    os.makedirs(md)
    e = dict(ENV)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss64m",
           "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
           *(("-XX:TieredStopAtLevel=1",) if workers == 1 else ()), *props, "-Djava.io.tmpdir=" + md,
           "-cp", TLACP, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-cleanup",
           "-noGenerateSpecTE", "-lncheck", "final", "-config", cfg_path(cfg or module)]
    if user_file:
        cmd += ["-userFile", user_file]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout, cwd=md)
        out, code = r.stdout, r.returncode
    except subprocess.TimeoutExpired as ex:
        raise ToolError(f"TLC timed out on {module} after {timeout} s") from ex
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return Tlc(out, time.time() - t0, code)


def model_check(module, cfg=None, workers=None, work=None, timeout=850, extra=(), heap="8g"):
    """Checks the specification itself. A failure here is a defect of the specification: it says
    nothing about the code, so it is an error, not a violation."""
    r = tlc(module, cfg, workers=workers or JOBS, work=work, timeout=timeout, heap=heap, extra=extra)
    if r.code != 0 or "No error has been found" not in r.out:
        raise ToolError(f"model {cfg or module} fails:\n" + r.out[-3500:])
    return r


def gen_tests(module, cfg=None, workers=None, work=None, timeout=850, env=None, heap="6g", extra=(),
              rng=None, limit=None):
    """Lets TLC walk the state graph; yields what the Gen module prints, one JSON value a line."""
    uf = os.path.join(work, f"gen-{module}-{random.SystemRandom().randrange(1 << 40)}.txt")
    r = tlc(module, cfg, workers=workers or JOBS, work=work, timeout=timeout, heap=heap, user_file=uf,
            env=env, extra=extra)
    if r.code != 0 or ("No error has been found" not in r.out and "-simulate" not in extra):
        raise ToolError(f"generator {cfg or module} fails:\n" + r.out[-3500:])
    with open(uf, encoding="utf-8") as f:
        lines = sorted(x for x in f if x.startswith('"'))
    os.unlink(uf)
    r.printed = len(lines)
    if limit and len(lines) > limit:
        lines = rng.sample(lines, limit)
    return [json.loads(json.loads(x)) for x in lines], r


# ---------------------------------------------------------------------------------- driving


def _drive_chunk(binary, scenarios, work, tag, limit, env, depth=0):
    """Returns a list parallel to scenarios: a list of observations, or a string saying how the
    process died there."""
    inp = os.path.join(work, f"in-{tag}")
    outp = os.path.join(work, f"out-{tag}")
    with open(inp, "w") as f:
        for sc in scenarios:
            f.write(json.dumps(sc, separators=(",", ":")))
            f.write("\n")
    e = dict(ENV)
    e.update(env or {})
    cmd = ["bash", "-c", "ulimit -v 12000000; ulimit -c 0; exec \"$@\"", "drive", binary, inp, outp, str(limit)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e)
    if r.returncode == 70:
        raise ToolError("driver: " + r.stderr[-2000:])
    res = []
    if os.path.exists(outp):
        with open(outp) as f:
            for line in f:
                if line.endswith("\n"):
                    res.append(json.loads(line)["obs"])
        os.unlink(outp)
    os.unlink(inp)
    if r.returncode == 0:
        if len(res) != len(scenarios):
            raise ToolError("driver: missing output")
        return res
    # The scenario after the last finished one killed the process or never ended.
    k = len(res)
    if k >= len(scenarios):
        raise ToolError(f"driver ended with {r.returncode}: {r.stderr[-2000:]}")
    how = "does not terminate" if r.returncode == 71 else f"process died with status {r.returncode}"
    res.append(how)
    if depth < 3 and k + 1 < len(scenarios) and r.returncode != 71:
        res += _drive_chunk(binary, scenarios[k + 1:], work, tag, limit, env, depth + 1)
    else:
        res += ["not run: " + how] * (len(scenarios) - k - 1)
    return res


def both():
    """The driver as users run it while developing, and as they ship it."""
    return [build_driver(), build_driver(release=True)]


HUNG = []


def drive(binary, scenarios, work, limit=60, env=None, jobs=None):
    """With a list of binaries, scenarios go to them in turn."""
    jobs = jobs or JOBS
    n = len(scenarios)
    if isinstance(binary, list):
        res = [None] * n
        for k, b in enumerate(binary):
            res[k::len(binary)] = drive(b, scenarios[k::len(binary)], work, limit, env, jobs)
        return res
    if n == 0:
        return []
    # once something did not end there is a violation, and no need to wait as long for the next
    limit = min(limit, 10) if HUNG else limit
    size = max(1, (n + jobs - 1) // jobs)
    chunks = [scenarios[i:i + size] for i in range(0, n, size)]
    rnd = random.SystemRandom().randrange(1 << 40)
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(_drive_chunk, binary, c, work, f"{rnd}-{i}", limit, env) for i, c in enumerate(chunks)]
        res = []
        for f in futs:
            res += f.result()
    if "does not terminate" in [r for r in res if isinstance(r, str)]:
        HUNG.append(True)
    return res


def died(scenarios, results):
    for sc, r in zip(scenarios, results):
        if isinstance(r, str) and not r.startswith("not run"):
            return sc, r
    return None


# ---------------------------------------------------------------------------------- traces

MISMATCH = re.compile(r'^<<"MISMATCH", (\d+), (".*")>>$')


def _trace_chunk(module, events, work, tag, env, cfg, timeout, heap):
    path = os.path.join(work, f"trace-{tag}.ndjson")
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")))
            f.write("\n")
    e = {"TRACE": path}
    e.update(env or {})
    r = tlc(module, cfg, env=e, workers=1, work=work, timeout=timeout, heap=heap)
    os.unlink(path)
    mism = []
    consumed = None
    for line in r.out.splitlines():
        m = MISMATCH.match(line)
        if m:
            mism.append((int(m.group(1)), json.loads(m.group(2))))
        m = re.match(r'^<<"CONSUMED", (\d+)>>$', line)
        if m:
            consumed = int(m.group(1))
    if consumed is None or "No error has been found" not in r.out:
        at = max(r.out.find("Error:"), 0)
        # an observation of another shape than any that the specification can be compared with
        odd = re.search(r"Attempted to (check equality|compare|select|access|apply|enumerate)", r.out[at:at + 600])
        ls = re.findall(r"^/\\ l = (\d+)$", r.out[at:], re.M)
        if odd and ls:
            return r, len(events), mism + [(int(ls[-1]), "null")]
        raise ToolError(f"trace check {module} fails:\n" + r.out[at:at + 1500])
    return r, consumed, mism


def validate(module, scenarios, results, work, env=None, cfg=None, to_events=None, blocking=False,
             per_chunk=8000, timeout=800, jobs=None, heap="2500m"):
    """Checks recorded executions against the trace specification `module`.

    Every scenario becomes a `reset` event carrying the scenario's parameters, then one event per
    operation with its observation. A mismatch printed by the specification (or, with `blocking`, an
    event that no behaviour of the specification explains) is returned as (scenario, op index,
    expected)."""
    jobs = jobs or JOBS
    allev = [to_events(sc, obs) if to_events else default_events(sc, obs) for sc, obs in zip(scenarios, results)]
    per_chunk = min(per_chunk, max(1200, sum(map(len, allev)) // jobs + 1))
    chunks, cur, idx = [], [], []
    for n, evs in enumerate(allev):
        # long ones on their own, as they take more than their share
        if cur and (len(cur) + len(evs) > per_chunk or len(evs) > 1500):
            chunks.append((cur, idx))
            cur, idx = [], []
        for k, e in enumerate(evs):
            cur.append(e)
            idx.append((n, k - 1))
    if cur:
        chunks.append((cur, idx))
    del allev
    rnd = random.SystemRandom().randrange(1 << 40)
    bad, states, consumed_all = [], 0, 0
    with cf.ThreadPoolExecutor(jobs) as ex:
        # those with the longest executions first
        futs = {}
        for i in sorted(range(len(chunks)), key=lambda i: -len(chunks[i][1]) // len({n for n, _ in chunks[i][1]})):
            futs[i] = ex.submit(_trace_chunk, module, chunks[i][0], work, f"{rnd}-{i}", env, cfg, timeout, heap)
        for i, (c, ix) in enumerate(chunks):
            r, consumed, mism = futs[i].result()
            states += r.distinct
            consumed_all += consumed
            if mism:
                l, exp = mism[0]
                n, k = ix[l - 1]
                bad.append((n, k, exp))
            elif consumed < len(c):
                n, k = ix[consumed]
                if not blocking:
                    raise ToolError(f"{module}: the scenario is not a legal history at event "
                                    f"{c[consumed]} of scenario {json.dumps(scenarios[n])[:3000]}")
                bad.append((n, k, None))
    return bad, {"events": consumed_all, "states": states, "chunks": len(chunks)}


def default_events(sc, obs):
    reset = {k: v for k, v in sc.items() if k not in ("ops", "c")}
    reset["o"] = "reset"
    evs = [reset]
    for op, ob in zip(sc["ops"], obs):
        e = dict(op)
        e["obs"] = ob
        evs.append(e)
    return evs


# ---------------------------------------------------------------------------------- comparing


def diff(exp, got, fields=None):
    """The first of the observed fields that is not as expected, or None."""
    if exp.get("panic"):
        return None if got.get("panic") else "panic"
    if got.get("panic"):
        return "panic"
    for k in exp:
        if fields is not None and k not in fields:
            continue
        if got.get(k) != exp[k]:
            return k
    return None


# ---------------------------------------------------------------------------------- reporting


class Check:
    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(f"{prop}-{self.seed}")
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", f"{prop}-{os.getpid()}")
        os.makedirs(self.work, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.impl_tests = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.actions = {}

    thorough = property(lambda self: self.tier == "thorough")

    def pick(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def add_model(self, r, what):
        self.states += r.distinct
        self.transitions += r.generated
        self.notes.setdefault("models", []).append(
            {"what": what, "distinct_states": r.distinct, "transitions": r.generated,
             "depth": r.depth, "wall_s": round(r.wall, 1)})
        for k, v in r.coverage.items():
            self.actions[k] = self.actions.get(k, 0) + v[1]

    def sample(self, x, n=3):
        if len(self.samples) < n:
            t = json.dumps(x)
            self.samples.append(json.loads(t) if len(t) < 3000 else t[:3000])

    def evidence(self, violations):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces + self.impl_tests,
               "samples": self.samples or ["none"],
               "recorded_executions_checked_against_spec": self.traces,
               "events_checked_against_spec": self.events,
               "spec_behaviours_replayed_on_impl": self.impl_tests}
        if self.actions:
            cov["action_counts"] = self.actions
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick",
              "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(path + ".tmp", path)

    def violation(self, what, **payload):
        raise Violation(what, payload)

    # -- the standard stages ------------------------------------------------------------

    def run_tests(self, binary, tests, mk_scenario, compare, what="spec behaviour"):
        """tests: behaviours of the specification with expected observations, replayed on the code.
        compare(test, obs) gives None or (description, details)."""
        scs = [mk_scenario(t) for t in tests]
        res = drive(binary, scs, self.work)
        d = died(scs, res)
        if d:
            self.violation(f"{what}: {d[1]}", scenario=d[0], stage="replay")
        for t, sc, r in zip(tests, scs, res):
            if isinstance(r, str):
                continue
            v = compare(t, r)
            if v:
                self.violation(f"{what}: {v[0]}", scenario=sc, observed=r, details=v[1], stage="replay")
        self.impl_tests += len(tests)
        return res

    def run_traces(self, binary, scenarios, module, env=None, what="recorded execution", known=None, **kw):
        """Random (seeded) scenarios run on the code; the specification judges the recordings."""
        res = drive(binary, scenarios, self.work, env=kw.pop("drive_env", None))
        d = died(scenarios, res)
        if d:
            self.violation(f"{what}: {d[1]}", scenario=d[0], stage="trace")
        bad, st = validate(module, scenarios, res, self.work, env=env, **kw)
        if bad:
            n, k, exp = min(bad)
            sc = scenarios[n]
            got = res[n][k] if 0 <= k < len(res[n]) else res[n]
            op = sc["ops"][k] if 0 <= k < len(sc.get("ops", [])) else None
            self.violation(f"{what} rejected by {module} at operation {k}: {json.dumps(op)[:300]}",
                           scenario=sc, op_index=k, op=op, observed=got,
                           expected=json.loads(exp) if exp else None, module=module, env=env,
                           stage="trace")
        self.traces += len(scenarios)
        self.events += st["events"]
        self.notes.setdefault("trace_checks", []).append(
            {"module": module, "executions": len(scenarios), **st})
        return res


def main(prop, level, body):
    c = Check(prop, level)
    try:
        body(c)
        c.evidence(0)
        log(f"{prop}: held on everything explored ({c.states} states, {c.transitions} transitions, "
            f"{c.impl_tests} behaviours replayed, {c.traces} executions validated, "
            f"{time.time() - c.t0:.1f} s)")
        code = 0
    except Violation as v:
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{prop}-{c.tier}-{c.seed}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "what": v.what, **v.payload}, f, indent=1)
        c.evidence(1)
        log(f"{prop}: {v.what}")
        for k in ("op", "expected", "observed", "details"):
            if v.payload.get(k) is not None:
                log(f"  {k}: {json.dumps(v.payload[k])[:1500]}")
        log(f"VIOLATION property={prop} replay={path}")
        code = 1
    except ToolError as e:
        log(f"{prop}: NO VERDICT: {e}")
        code = 2
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    return code
