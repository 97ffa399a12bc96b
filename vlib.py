"""Shared machinery of the checks: build the harness from /repo's working tree, record what the
real code does, and let TLC judge the recordings against the specification."""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(VERIF, "specs")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
HARNESS_TIMEOUT = 400


def cmd_panics(cmd):
    # commands that do not catch panics show them
    return "1" if cmd in ("alu", "forms") else ""


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay=None):
        super().__init__(what)
        self.what, self.replay = what, replay


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = tempfile.mkdtemp(prefix="z80v-%s-" % prop)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.stages, self.violations, self.known = [], [], [], []
        self.explained = {}     # recorded defects seen in recordings: name -> how many recordings
        self.lock = threading.Lock()
        self.bin = None
        self.exhaustive = None
        self.nfile = 0

    def thorough(self):
        return self.tier == "thorough"

    def left(self):
        return time.time() - self.t0

    def path(self, name):
        return os.path.join(self.dir, name)

    def fresh(self, stem):
        with self.lock:
            self.nfile += 1
            return self.path("%s-%d" % (stem, self.nfile))

    # -- building -------------------------------------------------------------------------
    def build(self, crate="harness", binary="z80h", extra_env=None):
        target = self.path("target")
        env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
        env.update(extra_env or {})
        env.pop("RUSTFLAGS", None)
        p = subprocess.run(["cargo", "build", "--offline", "--release", "--quiet"], cwd=os.path.join(VERIF, crate),
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
        if p.returncode:
            raise ToolError("the harness does not build against /repo:\n" + p.stdout[-4000:])
        self.bin = os.path.join(target, "release", binary)

    # -- harness --------------------------------------------------------------------------
    def harness(self, cmd, **kw):
        """Runs one harness subcommand; kw become key=value arguments."""
        args = [self.bin, cmd] + ["%s=%s" % kv for kv in kw.items()]
        try:
            p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=HARNESS_TIMEOUT,
                               env=dict(os.environ, Z80H_PANICS=os.environ.get("Z80H_PANICS", "") or cmd_panics(cmd)))
        except subprocess.TimeoutExpired:
            raise Violation("the code under test did not finish: " + " ".join(args[1:]), {"harness": args[1:]})
        if p.returncode in (101, -6, 134):
            raise Violation("the code under test panicked: " + p.stderr[-1500:], {"harness": args[1:], "stderr": p.stderr[-3000:]})
        if p.returncode:
            raise ToolError("harness failed: %s\n%s" % (" ".join(args), p.stderr[-3000:]))
        return p.stdout

    # -- TLC ------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, heap="2g", timeout=800, extra=(), ok_codes=(0, 12, 10, 11, 13, 14)):
        """Runs TLC in a scratch directory.  Returns (output, invariant_violated)."""
        d = self.fresh("tlc")
        os.mkdir(d)
        for f in os.listdir(SPECS):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPECS, f), d)
        with open(os.path.join(d, "MC.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        args = ["java", "-Xmx" + heap, "-Xss32m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(4, workers)),
                "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
                "-noGenerateSpecTE", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", "MC.cfg"]
        args += list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(args, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on " + module)
        out = p.stdout
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if p.returncode in (75, 76) and "Attempted to" in out and "OutOfMemory" not in out and 12 in ok_codes and env and "TRACE" in env:
            # a recording on which the specification has no meaning is one it does not allow
            return out, True
        if p.returncode not in ok_codes or not m:
            raise ToolError("TLC failed (%d) on %s:\n%s" % (p.returncode, module, out[-3500:]))
        with self.lock:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        return out, p.returncode != 0

    # -- parallel stages ------------------------------------------------------------------
    def parallel(self, thunks, width=8):
        with ThreadPoolExecutor(width) as ex:
            futs = [ex.submit(t) for t in thunks]
            errs = []
            for f in futs:
                try:
                    f.result()
                except (ToolError, Violation) as e:
                    errs.append(e)
            for e in errs:
                if isinstance(e, Violation):
                    self.violate(e.what, e.replay)
            for e in errs:
                if isinstance(e, ToolError) and not self.violations:
                    raise e

    def violate(self, what, replay=None):
        with self.lock:
            self.violations.append((what, replay))

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 6:
                self.samples.append(s)

    def stage(self, name, **kw):
        with self.lock:
            self.stages.append(dict(name=name, **kw))


def cfg_text(spec, consts, invariants=(), extra=""):
    def val(v):
        if isinstance(v, bool):
            return "TRUE" if v else "FALSE"
        if isinstance(v, (set, frozenset)):
            return "{" + ", ".join(val(x) for x in sorted(v)) + "}"
        if isinstance(v, str):
            return '"%s"' % v
        return str(v)
    s = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    if consts:
        s += "CONSTANTS\n" + "".join("  %s = %s\n" % (k, val(v)) for k, v in consts.items())
    for i in invariants:
        s += "INVARIANT %s\n" % i
    return s + extra


def mismatches(out):
    """The MISMATCH tuples printed by a trace specification."""
    res = []
    for m in re.finditer(r'<<\s*"MISMATCH",\s*(\d+),\s*(.*?)>>\s*(?=\n(?:Error|<<|State|\d+ states|Progress|Finished|$))', out, re.S):
        res.append((int(m.group(1)), re.sub(r"\s+", " ", m.group(2))[:1500]))
    return res


def explained(out):
    """The names of the recorded defects by which a trace specification explained recordings."""
    res = {}
    for m in re.finditer(r'<<\s*"KNOWN",\s*\{(.*?)\}\s*>>', out, re.S):
        for n in re.findall(r'"([^"]+)"', m.group(1)):
            res[n] = res.get(n, 0) + 1
    return res


def trace_lines(path):
    with open(path) as f:
        return f.read().splitlines()


def validate_trace(ctx, module, path, consts, what, describe=None, chunks=16, batch=50, env=None, heap="3g", timeout=800):
    """Lets TLC walk one recorded trace; every mismatch is a violation."""
    lines = trace_lines(path)
    if not lines:
        raise ToolError("empty trace for " + what)
    chunks = max(1, min(chunks, len(lines)))
    c = dict(consts, Chunks=chunks, Batch=batch)
    e = {"TRACE": path}
    e.update(env or {})
    out, bad = ctx.tlc(module, cfg_text("Spec", c, ["Conforms"]), env=e, heap=heap, timeout=timeout)
    with ctx.lock:
        ctx.traces += len(lines)
        for n, k in explained(out).items():
            ctx.explained[n] = ctx.explained.get(n, 0) + k
    if bad:
        mm = mismatches(out)
        if not mm:
            # an evaluation error on a recording is still a recording the specification does not allow
            k, diff = 0, out[-1500:]
        else:
            k, diff = mm[0]
        rec = lines[k - 1] if 0 < k <= len(lines) else ""
        ctx.violate("%s: record %d: %s" % (what, k, diff),
                    {"module": module, "constants": {a: (sorted(b) if isinstance(b, (set, frozenset)) else b) for a, b in c.items()},
                     "record": rec, "difference": diff})
    else:
        ctx.sample({"stage": what, "record": lines[len(lines) // 2][:600]})
    return len(lines), bad
