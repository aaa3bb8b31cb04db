"""Common machinery of the checks: build harnesses from /repo, run TLC, report."""
import json, os, re, shutil, subprocess, sys, time, tempfile, traceback, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
SPEC = VERIF + "/spec"
HARN = VERIF + "/harness"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
QUICK = TIER == "quick"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not be carried out (not a violation)."""


class Violation(Exception):
    def __init__(self, what, replay_lines):
        Exception.__init__(self, what)
        self.what = what
        self.replay_lines = replay_lines


def log(*a):
    print(*a, flush=True)


def rng(tag=""):
    return random.Random("%d/%s" % (SEED, tag))


# ---------------------------------------------------------------- scratch
_scratch = None


def scratch():
    """A scratch directory of this run, removed at exit."""
    global _scratch
    if _scratch is None:
        base = VERIF + "/work"
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="r", dir=base)
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


# ---------------------------------------------------------------- building
CFLAGS = ["-g", "-O0", "-w", "-DDEBUG", "-fno-strict-aliasing", "-fwrapv"]
INCS = ["-I" + HARN + "/include", "-I" + HARN] + ["-I" + SRC + "/" + d for d in
        ("", "device", "panel", "model1442", "model1443", "model2415", "model1052",
         "model2844", "model2030", "model2050", "test")] + ["-I/usr/include/SDL2"]


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


TOP = ["logger.c", "event.c", "conf.c"]


def build(name, sources, extra=(), ldflags=(), ros=()):
    """Compile sources (absolute, or relative to /repo/src or the harness
    directory) into an executable in this run's scratch directory."""
    d = scratch() + "/b_" + name
    os.makedirs(d, exist_ok=True)
    for model in ros:
        tool = d + "/cros" + model
        mdir = SRC + "/model" + model
        inp = {"2030": mdir + "/ccros2030.txt", "2050": mdir + "/ros.txt"}.get(model)
        if inp is None:
            inp = find_ros_input(model)
        r = run(["gcc", "-w", "-g"] + INCS + ["-o", tool, mdir + "/cros" + model + ".c"])
        if r.returncode:
            raise CheckError("cannot build cros%s: %s" % (model, r.stdout))
        r = run([tool, inp, d + "/model%s_ros.h" % model], cwd=d)
        if r.returncode:
            raise CheckError("cros%s failed: %s" % (model, r.stdout))
    objs = []

    def cc(s):
        p = s
        if not os.path.isabs(p):
            p = HARN + "/" + s if os.path.exists(HARN + "/" + s) else SRC + "/" + s
        o = d + "/" + s.replace("/", "_") + ".o"
        r = run(["gcc"] + CFLAGS + list(extra) + ["-I" + d] + INCS + ["-c", p, "-o", o])
        if r.returncode:
            raise CheckError("compilation of %s failed:\n%s" % (p, r.stdout[-3000:]))
        return o
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(cc, sources))
    exe = d + "/" + name
    r = run(["gcc", "-o", exe] + objs + list(ldflags))
    if r.returncode:
        raise CheckError("link of %s failed:\n%s" % (name, r.stdout[-3000:]))
    return exe


def find_ros_input(model):
    """The microcode listing named by the model's CMakeLists.txt."""
    mdir = SRC + "/model" + model
    txt = open(mdir + "/CMakeLists.txt").read()
    m = re.search(r"CMAKE_CURRENT_SOURCE_DIR\}/(\S+?\.txt)", txt)
    if not m:
        raise CheckError("no microcode listing for " + model)
    return mdir + "/" + m.group(1)


def harness(exe, script, out, timeout=300, args=(), env=None):
    """Run a harness: script (text) on stdin, trace written to out.
    Returns (ok, how-it-ended)."""
    e = dict(os.environ, MALLOC_PERTURB_="165")
    e.update(env or {})
    sf = out + ".in"
    with open(sf, "w") as f:
        f.write(script)
    with open(sf) as fi, open(out, "w") as fo, open(out + ".err", "w") as fe:
        try:
            r = subprocess.run([exe] + list(args), stdin=fi, stdout=fo, stderr=fe,
                               timeout=timeout, env=e, cwd=os.path.dirname(out))
        except subprocess.TimeoutExpired:
            return False, "timeout"
    return r.returncode == 0, "exit %d" % r.returncode


def run_impl(exe, script, name, timeout=300, args=(), env=None):
    """Run the real code on a script. A crash or hang that repeats is a
    violation: no behaviour of any of the specifications ends that way."""
    out = scratch() + "/" + name + ".ndjson"
    ok, how = harness(exe, script, out, timeout, args, env)
    if not ok:
        ok2, how2 = harness(exe, script, out, timeout, args, env)
        if not ok2:
            err = open(out + ".err", errors="replace").read()[-2000:]
            tail = open(out, errors="replace").read()[-2000:]
            if "HARNESS" in err:
                raise CheckError("harness %s: %s" % (name, err))
            raise Violation("the code under test crashed or hung (%s)" % how2,
                            ["stderr: " + err, "end of trace: " + tail, "script:", script[-200000:]])
    return out


# ---------------------------------------------------------------- TLC
class TLCResult:
    pass


def tlc(module, cfg=None, env=None, workers=1, timeout=850, deadlock=True,
        extra=(), heap="3g", simulate=None, depth=None, stack="16m"):
    """Run TLC on spec/<module>.tla. Returns a TLCResult."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=scratch())
    cfg = cfg or module + ".cfg"
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-Xss" + stack, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4",
           "-cp", JAR, "tlc2.TLC", "-config", cfg, "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-fpmem", "0.2"]
    if not deadlock:
        cmd += ["-deadlock"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth or 100), "-seed", str(SEED)]
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        r = run(cmd, timeout=timeout, cwd=SPEC, env=e)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC on %s timed out" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TLCResult()
    res.out = r.stdout
    res.rc = r.returncode
    res.wall = time.time() - t0
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    res.generated, res.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if simulate and not m:
        m = re.findall(r"(\d+) states checked", r.stdout.replace(",", ""))
        if m:
            res.generated = int(m[-1])
    res.ok = "Model checking completed. No error has been found" in r.stdout or \
             (simulate and r.returncode == 0)
    res.deadlock = "Deadlock reached" in r.stdout
    m = re.search(r"Invariant (\S+) is violated", r.stdout)
    res.invariant = m.group(1) if m else None
    m = re.search(r"(Action property|Temporal properties) ?(\S*)", r.stdout)
    res.action = m.group(0) if m and "violated" in r.stdout else None
    if not (res.ok or res.deadlock or res.invariant or res.action):
        i = max(0, res.out.find("Error:"))
        raise CheckError("TLC on %s failed:\n%s\n...\n%s" % (module, res.out[i:i + 2500], res.out[-1500:]))
    return res


def last_state(out):
    """The variables of the last state of TLC's error trace, as text by name."""
    parts = re.split(r"\nState \d+: [^\n]*\n", out)
    if len(parts) < 2:
        return {}
    body = parts[-1]
    body = re.split(r"\n\n|\n\d+ states generated", body)[0]
    vals = {}
    for m in re.finditer(r"/\\ (\w+) = (.*?)(?=\n/\\ \w+ = |\Z)", body, re.S):
        vals[m.group(1)] = " ".join(m.group(2).split())
    return vals


def check_model(rep, module, cfg=None, **kw):
    """Exhaustively check a specification by itself. A failure here is an error
    of the specification, never a violation by the code."""
    kw.setdefault("workers", NCPU)
    kw.setdefault("deadlock", False)
    r = tlc(module, cfg, **kw)
    if not r.ok:
        raise CheckError("the specification %s does not satisfy its own properties:\n%s"
                         % (module, r.out[-4000:]))
    rep.states += r.distinct
    rep.transitions += r.generated
    rep.models.append(dict(module=module, config=cfg or module + ".cfg",
                           distinct=r.distinct, generated=r.generated,
                           wall_s=round(r.wall, 1)))
    log("model %s: %d states, %d transitions (%.1fs)" % (module, r.distinct, r.generated, r.wall))
    return r


def split_runs(tracefile, parts):
    """Split a trace file (one run per line) in several."""
    with open(tracefile) as f:
        lines = [l for l in f if l.strip()]
    out = []
    n = max(1, min(parts, len(lines)))
    # even out by size
    lines_sorted = list(range(len(lines)))
    chunks = [[] for _ in range(n)]
    sizes = [0] * n
    for i in lines_sorted:
        k = sizes.index(min(sizes))
        chunks[k].append(lines[i])
        sizes[k] += len(lines[i])
    for k, c in enumerate(chunks):
        p = "%s.part%d" % (tracefile, k)
        with open(p, "w") as f:
            f.writelines(c)
        out.append((p, c))
    return out


def validate(rep, module, tracefile, cfg=None, parts=None, env=None, known=None,
             describe=None, workers=None, heap="3g", timeout=850, label=None):
    """Validate recorded runs (one JSON value per line) against a trace
    specification: every run must be a behaviour of the specification. A run
    that is not shows as a deadlock (no action of the specification explains
    the next recorded event) or as an invariant violation. Raises Violation."""
    lines = [l for l in open(tracefile) if l.strip()]
    if not lines:
        raise CheckError("no recorded runs in " + tracefile)
    nev = 0
    parts = parts or min(NCPU, max(1, len(lines) // 200 + (os.path.getsize(tracefile) >> 20)))
    pieces = split_runs(tracefile, parts)
    workers = workers or max(1, NCPU // len(pieces))

    def one(piece):
        path, chunk = piece
        e = {"TRACE": path}
        e.update(env or {})
        return tlc(module, cfg, env=e, workers=workers, heap=heap, timeout=timeout)
    with ThreadPoolExecutor(len(pieces)) as ex:
        results = list(ex.map(one, pieces))
    for (path, chunk), r in zip(pieces, results):
        rep.states += r.distinct
        rep.transitions += r.generated
        if r.ok:
            rep.traces += len(chunk)
            continue
        # a rejection counts only if a second run of TLC repeats it
        again = tlc(module, cfg, env=dict(env or {}, TRACE=path), workers=1, heap=heap, timeout=timeout)
        if again.ok:
            raise CheckError("TLC rejected a trace once and accepted it the second time")
        r = again
        st = last_state(r.out)
        what = "the recorded run is not a behaviour of %s" % module
        if r.invariant:
            what = "invariant %s of %s violated" % (r.invariant, module)
        elif r.action:
            what = "%s of %s violated" % (r.action, module)
        detail = []
        try:
            ri, li = int(st.get("rr", "1")), int(st.get("ll", "1"))
            runline = json.loads(chunk[ri - 1])
            ev = runline[li - 1] if isinstance(runline, list) and li - 1 < len(runline) else None
            what += " (event %d: %s)" % (li, json.dumps(ev)[:300])
            detail.append("run: " + chunk[ri - 1].strip()[:200000])
        except Exception:
            pass
        detail.append("model state: " + json.dumps(st)[:20000])
        raise Violation(what, detail)
    log("validated %d runs against %s (%s)" % (len(lines), label or module,
        ", ".join("%.0fs" % r.wall for r in results)))
    return results


# ---------------------------------------------------------------- reporting
class Report:
    def __init__(self, prop):
        self.prop = prop
        self.states = self.transitions = self.traces = 0
        self.models = []
        self.samples = []
        self.extra = {}
        self.t0 = time.time()
        self.assumptions = []
        self.known_hit = []
        self.level = "model_checking"

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if not isinstance(s, str) else s[:1500])

    def write(self, violations):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces,
                   samples=self.samples, models=self.models)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=TIER, seed=SEED, level=self.level,
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        tmp = VERIF + "/evidence/.%s.tmp" % self.prop
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, VERIF + "/evidence/%s.json" % self.prop)


def known_findings(prop):
    out = []
    p = VERIF + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main(prop, fn):
    rep = Report(prop)
    try:
        fn(rep)
    except Violation as v:
        rd = VERIF + "/evidence/replay"
        os.makedirs(rd, exist_ok=True)
        path = "%s/%s.txt" % (rd, prop)
        with open(path, "w") as f:
            f.write(v.what + "\n" + "\n".join(v.replay_lines) + "\n")
        log("violation: " + v.what)
        rep.write(1)
        log("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    except CheckError as e:
        log("CHECK ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    for key, what in known_findings(prop):
        log("KNOWN-FINDING: property=%s %s" % (prop, what))
    rep.write(0)
    log("property %s held on everything explored: %d states, %d transitions, %d traces, %.1fs"
        % (prop, rep.states, rep.transitions, rep.traces, time.time() - rep.t0))
    return 0
