"""Shared machinery of the checks: build, TLC model checking, TLC behaviour generation, replay."""
import json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "target")
SCRATCH = os.path.join(TARGET, "scratch", str(os.getpid()))
SPEC = os.path.join(VERIF, "spec")
VH = os.path.join(TARGET, "debug", "vh")
JOBS = max(2, min(8, os.cpu_count() or 8))

ENV = dict(os.environ)
ENV["PATH"] = "/root/.cargo/bin:/opt/veriftools/bin:" + ENV.get("PATH", "/usr/bin:/bin")


def load_env():
    out = subprocess.run(["bash", "-c", ". %s/env.sh >/dev/null 2>&1; env -0" % VERIF],
                         capture_output=True, env=ENV).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            ENV[k.decode()] = v.decode()


class ToolError(Exception):
    pass


class EngineDied(Exception):
    """The harness process itself was ended by a signal the engine raised (abort, bad access)."""


def log(*a):
    print("[check]", *a, flush=True)


def build():
    """Build the harness, and with it the engine, from /repo's working tree."""
    t = time.time()
    r = subprocess.run(["cargo", "build", "--offline", "--target-dir", TARGET],
                       cwd=os.path.join(VERIF, "harness"), env=ENV, capture_output=True, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stderr[-6000:])
        raise ToolError("the harness does not build")
    log("harness built in %.1fs" % (time.time() - t))


def consts(d):
    def val(v):
        if isinstance(v, bool):
            return "TRUE" if v else "FALSE"
        if isinstance(v, (set, frozenset, list, tuple)):
            return "{" + ", ".join('"%s"' % x if isinstance(x, str) else str(x) for x in v) + "}"
        return str(v)
    return "\n".join("  %s = %s" % (k, val(v)) for k, v in d.items())


def write_cfg(name, constants, invariants=(), properties=(), constraint=None, view=None,
              spec="Spec", symmetry=None):
    os.makedirs(SCRATCH, exist_ok=True)
    path = os.path.join(SCRATCH, name + ".cfg")
    with open(path, "w") as f:
        f.write("SPECIFICATION %s\n" % spec)
        if constants:
            f.write("CONSTANTS\n%s\n" % consts(constants))
        if invariants:
            f.write("INVARIANTS %s\n" % " ".join(invariants))
        if properties:
            f.write("PROPERTIES %s\n" % " ".join(properties))
        if view:
            f.write("VIEW %s\n" % view)
        if constraint:
            f.write("CONSTRAINT %s\n" % constraint)
        if symmetry:
            f.write("SYMMETRY %s\n" % symmetry)
        f.write("CHECK_DEADLOCK FALSE\n")
    return path


def tlc(args, name, timeout, heap="3g"):
    meta = os.path.join(SCRATCH, name + ".meta")
    env = dict(ENV)
    env["JAVA_TOOL_OPTIONS"] = "-Xmx%s -XX:+UseParallelGC -Djava.io.tmpdir=%s" % (heap, SCRATCH)
    cmd = ["tlc"] + args + ["-metadir", meta]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=env, timeout=timeout, cwd=SCRATCH)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + name)
    shutil.rmtree(meta, ignore_errors=True)
    return r.stdout + r.stderr


def model_check(module, name, constants, invariants=(), properties=(), view=None, constraint=None,
                timeout=600, workers=None, heap="6g"):
    """Exhaustive TLC run; returns (states, distinct)."""
    cfg = write_cfg(name, constants, invariants, properties, view=view, constraint=constraint)
    t = time.time()
    out = tlc(["-workers", str(workers or JOBS), "-config", cfg, os.path.join(SPEC, module + ".tla")],
              name, timeout, heap)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
    if "No error has been found" not in out or not m:
        sys.stderr.write(out[-5000:])
        raise ToolError("the specification itself fails its properties: " + name)
    log("model %s: %s states, %s distinct, %.1fs" % (name, m.group(1), m.group(2), time.time() - t))
    return int(m.group(1)), int(m.group(2))


def unescape(line):
    return line.replace('\\"', '"').replace("\\\\", "\\")


def simulate(module, name, constants, num, depth, seed, invariants=(), procs=None, timeout=300,
             spec="Spec"):
    """Generate behaviours with TLC's simulator; returns their JSON lines."""
    procs = procs or min(JOBS, 6)
    per = (num + procs - 1) // procs
    cfg = write_cfg(name, constants, tuple(invariants) + ("Export",), spec=spec)

    def one(i):
        out = tlc(["-workers", "1", "-simulate", "num=%d" % per, "-depth", str(depth + 2),
                   "-seed", str(seed * 1000 + i), "-config", cfg,
                   os.path.join(SPEC, module + ".tla")], "%s-%d" % (name, i), timeout, "1500m")
        if "violated" in out or "Error:" in out:
            sys.stderr.write(out[-4000:])
            raise ToolError("simulation of the specification failed: " + name)
        res = []
        for line in out.splitlines():
            j = line.find("@@")
            if j >= 0:
                res.append(unescape(line[j + 2:].rstrip().rstrip('"')))
        return res

    t = time.time()
    with cf.ThreadPoolExecutor(procs) as ex:
        lines = [l for part in ex.map(one, range(procs)) for l in part]
    if not lines:
        raise ToolError("the specification generated no behaviour: " + name)
    log("generated %d behaviours of %s in %.1fs" % (len(lines), name, time.time() - t))
    return lines


def vh(cmd, timeout=800, **kw):
    """Run a harness command that prints one JSON object."""
    args = [VH, cmd]
    for k, v in kw.items():
        if v is None:
            continue
        args += ["--" + k.replace("_", "-"), str(v)]
    t = time.time()
    try:
        r = subprocess.run(args, capture_output=True, text=True, env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("harness command timed out: " + " ".join(args))
    if -r.returncode in (4, 6, 7, 8, 11):
        sys.stderr.write(r.stderr[-3000:])
        raise EngineDied("signal %d in: %s" % (-r.returncode, " ".join(args)))
    try:
        res = json.loads(r.stdout.strip().splitlines()[-1])
    except Exception:
        sys.stderr.write(r.stderr[-3000:] + r.stdout[-1000:])
        raise ToolError("harness command failed (rc %d): %s" % (r.returncode, " ".join(args)))
    log("%s: %s in %.1fs" % (cmd, {k: v for k, v in res.items() if not isinstance(v, (list, dict))},
                             time.time() - t))
    return res


def write_lines(name, lines):
    os.makedirs(SCRATCH, exist_ok=True)
    p = os.path.join(SCRATCH, name + ".jsonl")
    with open(p, "w") as f:
        for l in lines:
            f.write(l + "\n")
    return p


def judge(name, path, module="Lin", heap="4g", diagnose=3, invariants=()):
    """Which of the recorded histories does the specification allow? Returns (total, rejected, states);
    rejected: [(line, history, first event that fits no behaviour)]."""
    cfg = write_cfg(name, {}, invariants)
    with open(path) as f:
        hists = f.read().splitlines()

    def ask(p, n, diag):
        ENV["HIST"], ENV["DIAG"] = p, diag
        out = tlc(["-workers", str(JOBS), "-config", cfg, os.path.join(SPEC, module + ".tla")],
                  n, 700, heap)
        if "No error has been found" not in out:
            sys.stderr.write(out[-4000:])
            raise ToolError("judging the histories failed: " + n)
        return out

    t = time.time()
    out = ask(path, name, "0")
    ok = {int(m) for m in re.findall(r'<<"OK", (\d+)>>', out)}
    m = re.search(r"(\d+) states generated, (\d+) distinct", out)
    bad = []
    for i in sorted(set(range(1, len(hists) + 1)) - ok):
        if len(bad) >= diagnose:
            bad.append((i, None, 0))
            continue
        one = write_lines("%s-%d" % (name, i), [hists[i - 1]])
        d = ask(one, "%s-d%d" % (name, i), "1")
        at = max([0] + [int(x) for x in re.findall(r'<<"AT", (\d+)>>', d)])
        bad.append((i, json.loads(hists[i - 1]), at + 1))
    log("judged %d histories (%s): %d not allowed, %s states, %.1fs"
        % (len(hists), name, len(hists) - len(ok), m.group(1), time.time() - t))
    return len(hists), bad, (int(m.group(1)), int(m.group(2)))
