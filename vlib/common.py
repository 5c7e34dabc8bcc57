"""Shared machinery: building, TLC, evidence, known findings, reporting."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
BIN = os.path.join(BUILD, "bin")
SPEC = os.path.join(ROOT, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TLA_CP = "/opt/veriftools/tla/tla2tools.jar"


class Trouble(Exception):
    """The check could not do its work: neither held nor violated."""


def env_go():
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, text=True).stdout
    for kv in out.split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            e[k] = v
    e["GOFLAGS"] = "-mod=mod"
    e["GOPROXY"] = "off"
    e["GOSUMDB"] = "off"
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def build(harness=True):
    os.makedirs(BIN, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        e = env_go()
        r = run(["go", "build", "-o", BIN, "./cmd/..."], cwd=REPO + "/go", env=e)
        if r.returncode:
            raise Trouble("building /repo failed:\n" + r.stderr[-3000:])
        if harness:
            r = run(["go", "build", "-o", BIN, "./cmd/..."], cwd=ROOT + "/harness", env=e)
            if r.returncode:
                raise Trouble("building the harness failed:\n" + r.stderr[-3000:])
            r = run(["gcc", "-O2", "-o", BIN + "/ptr", ROOT + "/harness/ptr/ptr.c"])
            if r.returncode:
                raise Trouble("building ptr failed:\n" + r.stderr[-3000:])


_scratch = []


def scratch():
    d = tempfile.mkdtemp(prefix="verif-")
    _scratch.append(d)
    return d


def cleanup():
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)
    _scratch.clear()


class Tlc:
    """A TLC run in the background."""

    def __init__(self, module, cfg, env=None, args=(), workers=4, heap="4g", timeout=800):
        self.dir = scratch()
        self.t0 = time.time()
        self.module, self.cfg, self.timeout = module, cfg, timeout
        e = dict(os.environ)
        e.update(env or {})
        self.out = os.path.join(self.dir, "out")
        cfgp = cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg)
        cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + self.dir, "-cp", CP(), "tlc2.TLC",
               "-workers", str(workers), "-noGenerateSpecTE", "-metadir", self.dir + "/md", *args, "-config", cfgp, module + ".tla"]
        self.f = open(self.out, "w")
        self.p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=self.f, stderr=subprocess.STDOUT)

    def wait(self):
        try:
            self.p.wait(max(1, self.timeout - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise Trouble("TLC timed out on %s" % self.cfg)
        self.f.close()
        self.text = open(self.out, errors="replace").read()
        self.wall = time.time() - self.t0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", self.text)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        return self

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.f.close()


_cp = None


def CP():
    global _cp
    if _cp is None:
        t = open("/usr/local/bin/tlc").read() if os.path.exists("/usr/local/bin/tlc") else run(["bash", "-c", "cat $(which tlc)"]).stdout
        m = re.search(r"-cp\s+\"?([^\s\"]+)", t)
        _cp = m.group(1) if m else TLA_CP
    return _cp


def model_check(t, what):
    """Evaluates an exhaustive run of a design module; a counterexample here is a
    defect of the design or of the model, never a verdict on the code."""
    t.wait()
    if "Model checking completed. No error has been found." not in t.text:
        raise Trouble("model checking of %s did not succeed:\n%s" % (what, t.text[-3000:]))
    return t.distinct, t.generated


# ---------------------------------------------------------------- reporting
def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def save_replay(pid, obj):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    s = json.dumps(obj, indent=1, sort_keys=True)
    p = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha256(s.encode()).hexdigest()[:10]))
    open(p, "w").write(s)
    return p


def evidence(pid, tier, level, coverage, t0, extra=None):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    o = {"property": pid, "tier": tier, "seed": SEED, "level": level, "coverage": coverage, "wall_s": round(time.time() - t0, 2)}
    if extra:
        o.update(extra)
    json.dump(o, open(os.path.join(d, pid + ".json"), "w"), indent=1)


def violation(pid, path):
    print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
