"""Driver library: builds the harness, runs TLC, replays scripts into the real
code, validates the recorded traces against the specification."""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
EVID = os.path.join(ROOT, "evidence")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = 8

class ToolError(Exception):
    pass

# ---------------------------------------------------------------- building
def cargo_env(target):
    env = dict(os.environ)
    for v in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(v, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, target)
    return env

def build(variants):
    """variants: "default", "small", "rel" (release), "rel,small" or the features of
    another build, like "v_vu,small" -> paths of the binaries; a build of the last
    kind is optional: None if it fails"""
    os.makedirs(BUILD, exist_ok=True)
    def one(v):
        tgt = {"default": "t", "small": "ts"}.get(v) or "t-" + v.replace(",", "-")
        cmd = ["cargo", "build", "--offline", "--quiet"]
        if v.startswith("v_"):
            cmd += ["--no-default-features", "--features", v]
        elif "small" in v:
            cmd += ["--features", "small"]
        if "rel" in v:
            cmd += ["--release"]
        r = subprocess.run(cmd, cwd=os.path.join(ROOT, "harness"), env=cargo_env(tgt),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode != 0 and v.startswith("v_"):
            return None
        if r.returncode != 0:
            raise ToolError("building the harness (%s) failed:\n%s" % (v, r.stdout[-4000:]))
        return os.path.join(BUILD, tgt, "release" if "rel" in v else "debug", "sdb-harness")
    with ThreadPoolExecutor(4) as ex:
        return dict(zip(variants, ex.map(one, variants)))

# ---------------------------------------------------------------- scratch
class Scratch:
    def __enter__(self):
        base = None
        for d in ("/dev/shm", "/tmp"):
            try:
                st = os.statvfs(d)
                if st.f_bavail * st.f_frsize > (2 << 30):
                    base = d
                    break
            except OSError:
                pass
        self.dir = tempfile.mkdtemp(prefix="sdbv.", dir=base or "/tmp")
        return self.dir
    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

# ---------------------------------------------------------------- TLC
def tlc(module, cfg, meta, env=None, workers=1, heap="2g", extra=(), timeout=850, cwd=SPEC):
    """runs TLC; returns (exit code, output)"""
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    cmd = ["java", "-Xmx" + heap, "-Xss64m",
           "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
           "-Djava.io.tmpdir=" + meta, "-cp", TLA_CP, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
           "-config", cfg] + list(extra) + [module]
    os.makedirs(meta, exist_ok=True)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    return r.returncode, r.stdout

def tlc_stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        m2 = re.findall(r"The number of states generated: (\d+)", out)
        return {"transitions": int(m2[-1]) if m2 else 0, "states": 0}
    g, d = m[-1]
    return {"transitions": int(g), "states": int(d)}

def model_check(name, module, cfg, scratch, workers=4, heap="4g", extra=(), timeout=800):
    """exhaustive check of a model: must finish without an error"""
    t = time.time()
    rc, out = tlc(module, cfg, os.path.join(scratch, "mc-" + name), workers=workers,
                  heap=heap, extra=extra, timeout=timeout)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("model %s: TLC exit %d\n%s" % (name, rc, out[-3000:]))
    s = tlc_stats(out)
    s.update(model=name, wall_s=round(time.time() - t, 1))
    return s

# ---------------------------------------------------------------- replay
class Scenario:
    """one scenario: a list of script lines"""
    __slots__ = ("id", "lines", "weight")
    def __init__(self, sid, lines, weight=None):
        self.id = sid
        self.lines = lines
        self.weight = weight if weight is not None else len(lines)
    def text(self):
        return "scenario %s\n%s\n" % (self.id, "\n".join(self.lines))

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    # a runaway file must not fill the disk
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))

BIG = re.compile(r"(?<=[\[,:])\d{10,}(?=[\],}])")
def tidy(lines):
    """numbers of TLC have 32 bits"""
    return "\n".join(BIG.sub("-9", x) for x in lines if x) + "\n"

def run_harness(binary, scens, work, tag, timeout):
    """Runs the scenarios; if the process dies or hangs, the scenario it was in
    gets a "panic" event and the rest is run by a new process.  -> events file"""
    ev_all = os.path.join(work, tag + ".events")
    rest = list(scens)
    died = 0
    with open(ev_all, "w") as out:
        while rest:
            sp = os.path.join(work, tag + ".script")
            ep = os.path.join(work, tag + ".ev")
            with open(sp, "w") as f:
                f.write("".join(s.text() for s in rest).replace("@FIX@", os.path.join(work, "fix")))
            why = None
            try:
                r = subprocess.run([binary, sp, ep, os.path.join(work, tag + ".d")],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                                   timeout=timeout, preexec_fn=limits)
                if r.returncode == 3:
                    raise ToolError("harness: " + r.stderr[-2000:])
                if r.returncode != 0:
                    why = "exit %d" % r.returncode
                    if "panicked at" in r.stderr or "harness:" in r.stderr:
                        why += " " + r.stderr[-300:]
            except subprocess.TimeoutExpired:
                why = "hang"
            shutil.rmtree(os.path.join(work, tag + ".d"), ignore_errors=True)
            lines = []
            if os.path.exists(ep):
                with open(ep, errors="replace") as f:
                    lines = f.read().split("\n")
            if why is None:
                out.write(tidy(lines))
                break
            # complete events only
            good = []
            for x in lines:
                if not x:
                    continue
                try:
                    json.loads(x)
                    good.append(x)
                except ValueError:
                    break
            n = sum(1 for x in good if x.startswith('{"e":"reset"'))
            died += 1
            if n == 0:
                raise ToolError("harness died before the first scenario: " + why)
            out.write(tidy(good))
            out.write(json.dumps({"e": "panic", "op": "process", "msg": why}) + "\n")
            rest = rest[n:]
            if died > 3 or why == "hang":
                break   # enough evidence
    return ev_all

ALL_TAGS = ["res", "bulk", "iter", "sync", "fault", "dirty", "os", "disk", "create", "type",
            "tree", "acct", "grow", "fmt", "htx", "stat", "ro", "panic", "open", "fill", "rfault"]

def validate(events, scope, work, tag):
    """TLC decides whether the recorded trace is one of the specification"""
    cfg = os.path.join(work, tag + ".cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANT Scope = {%s}\n" % ", ".join('"%s"' % t for t in scope))
        f.write("INVARIANT TraceTypeOK\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n")
    rc, out = tlc("TraceDb.tla", cfg, os.path.join(work, tag + ".meta"),
                  env={"TRACE": events}, heap="3g")
    shutil.rmtree(os.path.join(work, tag + ".meta"), ignore_errors=True)
    viols = []
    for m in re.finditer(r'<<"VIOL", (\d+), \{([^}]*)\}>>', out):
        viols.append((int(m.group(1)), re.findall(r'"(\w+)"', m.group(2))))
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("TraceDb on %s: TLC exit %d\n%s" % (events, rc, out[-3000:]))
    return sorted(set((a, tuple(b)) for a, b in viols)), tlc_stats(out)

def chunks(scens, max_weight):
    cur, w = [], 0
    for s in scens:
        if cur and w + s.weight > max_weight:
            yield cur
            cur, w = [], 0
        cur.append(s)
        w += s.weight
    if cur:
        yield cur

class Result:
    def __init__(self):
        self.violations = []   # (scenario, tags, event, variant)
        self.events = 0
        self.scenarios = 0
        self.by_event = {}
        self.stats = {"states": 0, "transitions": 0}
        self.sample = None

def replay(binary, variant, scens, scope, scratch, max_weight=6000, timeout=90, pool=NPROC, deadline=None):
    res = Result()
    seen = set()
    for s in scens:
        assert s.id not in seen, s.id
        seen.add(s.id)
    by_id = {s.id: s for s in scens}
    parts = list(chunks(scens, max_weight))
    # balance: at least as many chunks as processes
    if len(parts) < pool and len(scens) >= pool:
        tot = sum(s.weight for s in scens)
        parts = list(chunks(scens, max(1, tot // pool + 1)))
    stop = []
    def one(i):
        if stop or (deadline and time.time() > deadline):
            return None
        tag = "%s-%d" % (variant, i)
        ev = run_harness(binary, parts[i], scratch, tag, timeout)
        v, st = validate(ev, scope, scratch, tag)
        counts = {}
        sid_at = []
        bad = []
        vl = {a: b for a, b in v}
        cur = None
        n = 0
        sample = []
        with open(ev) as f:
            for ln in f:
                ln = ln.strip()
                if not ln:
                    continue
                n += 1
                k = ln[6:ln.index('"', 6)]
                counts[k] = counts.get(k, 0) + 1
                if k == "reset":
                    cur = json.loads(ln)["id"]
                if n <= 12:
                    sample.append(ln[:300])
                if n in vl:
                    if k == "panic":
                        stop.append(1)     # hangs and crashes take long
                    bad.append((cur, vl[n], ln))
        os.remove(ev)
        return counts, n, bad, st, sample, len(parts[i])
    with ThreadPoolExecutor(pool) as ex:
        for r in ex.map(one, range(len(parts))):
            if r is None:
                continue
            counts, n, bad, st, sample, ns = r
            for k, c in counts.items():
                res.by_event[k] = res.by_event.get(k, 0) + c
            res.events += n
            res.scenarios += ns
            res.stats["states"] += st["states"]
            res.stats["transitions"] += st["transitions"]
            if res.sample is None:
                res.sample = sample
            for sid, tags, ln in bad:
                res.violations.append((by_id[sid], list(tags), ln, variant))
    return res
