"""Runs of the workflow: allocation, upload of source materials, generation, upload of filters; one script at a time in this process, or the whole of crlite-generate.sh."""
import fcntl
import hashlib
import json
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile

import world

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NAME = re.compile(r"([0-9]{8})-([0-9]+)\Z")
DIRS = {"clubcard-all": "all", "clubcard-priority": "priority"}
NOBODY = 65534


def tok(data):
    return hashlib.sha1(data).hexdigest()[:10]


def ident(name):
    m = NAME.match(name)
    return (int(m.group(1)), int(m.group(2))) if m else (-1, -1)


class FlowWorld(world.World):
    def __init__(self, seed=0):
        super().__init__(seed)
        self.bucket = {"b": {}}
        self.ws = self.id = ""
        self.wide = self.uploading = False
        self.allocs = []

    def step(self, key):
        n = self.hits
        try:
            return super().step(key)
        finally:
            if self.hits > n:
                self.emit("Disturbed")

    # effects on the bucket
    def store(self, name, data):
        run, _, path = name.partition("/")
        d, n = ident(run)
        kind, keys = "other", []
        if d >= 0 and path == "completed":
            kind = "done"
            self.emit("Loc", id=run, files=self.local(run))
        m = re.fullmatch(r"(clubcard-all|clubcard-priority)/filter(\.delta)?", path)
        if d >= 0 and m:
            kind = "delta" if m.group(2) else "full"
            try:
                keys = sorted(json.loads(data)["keys"])
            except Exception:
                kind = "other"
        self.bucket["b"][name] = data
        self.emit("Obj", name=name, tok=tok(data), run=run if d >= 0 else "", d=d, n=n, path=path, kind=kind, dir=m.group(1) if m else "", keys=keys, by=self.by)

    def local(self, run):
        """The files of a run that have to be uploaded."""
        out, top = [], os.path.join(self.ws, run)
        for p, dirs, files in os.walk(top):
            rel = os.path.relpath(p, top)
            for f in files:
                full, r = os.path.join(p, f), os.path.normpath(os.path.join(rel, f))
                if os.path.islink(full) or not os.path.isfile(full):
                    continue
                if r.split("/")[0] in DIRS or (self.wide and r.split("/")[0] != "log"):
                    out.append({"p": r, "t": tok(open(full, "rb").read())})
        return out

    def gcs_put(self, bucket, name, data):
        how = self.gfault("gput")
        if bucket != "b":
            self.emit("Obj", name="?", tok="", run="", d=-1, n=-1, path="", kind="foreign", dir="", keys=[], by=self.by)
            return
        self.store(str(name), data)
        self.after(how)
        if how == "after":
            from google.api_core import exceptions
            raise exceptions.ServiceUnavailable("injected")

    def gcs_delete(self, bucket, name):
        self.gfault("gdel")
        self.bucket["b"].pop(name, None)
        self.emit("Gone", name=name, run=name.split("/")[0], by=self.by)

    def mods(self, l):
        for m in l:
            k = m["m"]
            if k == "day":
                self.clock += 86400 * m["n"]
            elif k == "obj":
                self.store(m["name"], m.get("data", "x").encode())
            elif k == "rmrun":
                for n in [n for n in self.bucket["b"] if n.startswith(m["id"] + "/")]:
                    del self.bucket["b"][n]
                    self.emit("Gone", name=n, run=m["id"], by="env")
            elif k == "ldir":
                os.makedirs(os.path.join(self.ws, m["name"]), exist_ok=True)
                self.emit("Ldir", name=m["name"])
            elif k == "wipe":
                shutil.rmtree(self.ws)
                os.makedirs(self.ws)
                self.emit("Wipe")
            elif k == "lfile":
                p = os.path.join(self.ws, self.id, m["path"])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if m.get("link"):
                    os.symlink(m["link"], p)
                else:
                    open(p, "w").write(m.get("data", "x" + m["path"]))
            else:
                raise ValueError(k)

    def get_clock(self):
        return self.clock


class FileWorld:
    """The same world seen from a subprocess: kept in a file."""

    def __init__(self, d):
        object.__setattr__(self, "_d", d)

    def _do(self, f):
        with open(self._d + "/lock", "a") as l:
            fcntl.flock(l, fcntl.LOCK_EX)
            w = pickle.load(open(self._d + "/w", "rb"))
            old, world.W = world.W, w
            try:
                return f(w)
            except world.Killed:
                pickle.dump(w, open(self._d + "/w", "wb"))
                os.killpg(os.getpgid(0), signal.SIGKILL)
            finally:
                world.W = old
                pickle.dump(w, open(self._d + "/w", "wb"))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "clock":
            return self._do(lambda w: w.clock)
        return lambda *a, **k: self._do(lambda w: getattr(w, name)(*a, **k))


def keys(rev, reasons):
    return sorted({k for r, ks in rev.items() for k in ks})


def populate(top, s):
    """What the collectors leave for a run: revoked serials by reason, known serials, log coverage, enrolment."""
    rev = s["rev"]
    for d in ("known", "revoked", "log"):
        os.makedirs(top + "/" + d, exist_ok=True)
    everything = sorted({k for ks in rev.values() for k in ks} | {"ff"})
    open(top + "/known/iss", "w").write("".join("%s\n" % k for k in everything))
    open(top + "/revoked/iss", "w").write("".join("%s%s\n" % (r, k) for r in sorted(rev) for k in rev[r]))
    open(top + "/ct-logs.json", "w").write("[]")
    open(top + "/enrolled.json", "w").write("[]")
    open(top + "/crl-audit.json", "w").write("{}")
    open(top + "/log/generate.log", "w").write("log")


def run(sc, tmp, verbose, script):
    os.chmod(tmp, 0o755)
    home = tmp + "/home"
    os.makedirs(home)
    shutil.copy(HERE + "/box/rust-create-cascade", home + "/rust-create-cascade")
    os.chmod(home + "/rust-create-cascade", 0o755)
    w = world.W = FlowWorld(sc.get("seed", 0))
    w.ws = tmp + "/processing"
    os.makedirs(w.ws)
    old_env, old_tmp = dict(os.environ), tempfile.tempdir
    os.makedirs(tmp + "/t")
    os.environ.update(HOME=home, GOOGLE_APPLICATION_CREDENTIALS="x", TMPDIR=tmp + "/t")
    tempfile.tempdir = tmp + "/t"
    kills = 0

    def scr(path, argv, n):
        """One script in this process; says how it ended."""
        code, killed, what, text = script("workflow/" + path, argv, False, tmp + "/t")
        if verbose:
            print("  ", path, code, what, text[-700:], file=sys.stderr)
        return code, killed

    def alloc(plan_running):
        before = set(os.listdir(w.ws))
        w.emit("ABegin")
        code, killed = scr("0-allocate_identifier", ["--path", w.ws, "--filter-bucket", "b"], 0)
        new = sorted(set(os.listdir(w.ws)) - before)
        out = getattr(script, "stdout", "").strip()
        name = os.path.basename(out)
        d, n = ident(name)
        ok = code == 0 and out == os.path.join(w.ws, name) and os.path.isdir(out)
        w.emit("AEnd", code=code, killed=killed, calm=w.hits == w.hits0, name=name if ok else "", d=d if ok else -1, n=n if ok else -1, made=name in new, stamp=ok and os.path.isfile(out + "/timestamp"), new=new)
        return code, killed, name if ok else ""

    def upload(s, i):
        w.id, w.wide = i, False
        w.emit("Disturbed")
        w.emit("UBegin", id=i, noop=bool(s.get("noop")))
        code, killed = scr("3-upload_mlbf_to_storage", [os.path.join(w.ws, i), "--filter-bucket", "b"] + (["--noop"] if s.get("noop") else []), 3)
        w.emit("UEnd", code=code, killed=killed, calm=w.hits == w.hits0, sound=s.get("sound", True), bad=False)

    def gen(s):
        code, killed, i = alloc(True)
        if code or not i:
            return killed
        top = os.path.join(w.ws, i)
        w.id = i
        populate(top, s)
        json.dump(s.get("mode", {}), open(home + "/gen.json", "w"))
        if s.get("src"):
            w.emit("UBegin", id=i, noop=bool(s.get("noop")))
            code, killed = scr("1-upload_data_to_storage", [top, "--filter-bucket", "b"] + (["--noop"] if s.get("noop") else []), 1)
            w.emit("SEnd", code=code, killed=killed, calm=w.hits == w.hits0, files=[{"p": f["p"], "t": f["t"]} for f in wide(top)])
            if code:
                return killed
        for rs in ("all", "priority"):
            code, killed = scr("2-generate_mlbf", [top, "--filter-bucket", "b", "--reason-set", rs, "--filter-type", "clubcard"] + s.get("genargs", []), 2)
            if code:
                return killed
        w.running, r = False, w.running
        w.mods(s.get("late", []))
        w.running = r
        w.emit("UBegin", id=i, noop=bool(s.get("noop")))
        code, killed = scr("3-upload_mlbf_to_storage", [top, "--filter-bucket", "b"] + (["--noop"] if s.get("noop") else []), 3)
        w.emit("UEnd", code=code, killed=killed, calm=w.hits == w.hits0, sound=not s.get("mode") and s.get("sound", True), bad=False)
        return killed

    def wide(top):
        w.wide = True
        try:
            return w.local(os.path.basename(top))
        finally:
            w.wide = False

    try:
        w.emit("Reset", id=sc["id"])
        for s in sc["steps"]:
            o = s["op"]
            if o == "mods":
                w.mods(s["do"])
                continue
            if o == "e2e":
                kills += whole(w, s, tmp, home, verbose)
                w = world.W
                continue
            w.begin_run(s.get("plan", []))
            w.hits0 = w.hits
            if o == "alloc":
                killed = alloc(False)[1]
            elif o == "gen":
                killed = gen(s)
            elif o == "again":
                i = s.get("id", w.id)
                if not all(os.path.isfile(os.path.join(w.ws, i, c, "filter")) for c in DIRS):
                    s = dict(s, sound=False)
                upload(s, i)
                killed = w.dead
            else:
                raise ValueError(o)
            kills += bool(killed)
            w.end_run()
        w.emit("Finish")
        return w, kills
    finally:
        os.environ.clear()
        os.environ.update(old_env)
        tempfile.tempdir = old_tmp


def box(tmp, verbose=False):
    """A fresh directory in which an unprivileged user runs a script; copies of what it needs."""
    n = len([x for x in os.listdir(tmp) if x.startswith("e2e")])
    repo, py = tmp + "/repo", tmp + "/py"
    if not n:  # copies which any user may read
        os.chmod(tmp, 0o755)
        shutil.copytree(REPO + "/workflow", repo + "/workflow", symlinks=True)
        shutil.copytree(REPO + "/containers/scripts", repo + "/containers/scripts", symlinks=True)
        shutil.copytree(HERE, py, ignore=shutil.ignore_patterns("__pycache__"))
        for x in (repo, py):
            for p, ds, fs in os.walk(x):
                for y in [p] + [p + "/" + f for f in fs]:
                    m = os.stat(y).st_mode
                    os.chmod(y, m | (0o055 if os.path.isdir(y) else 0o044 | (0o011 if m & 0o100 else 0)))
        q = os.path.dirname(tmp)
        while os.path.realpath(q).startswith(os.path.realpath("/tmp") + "/") and os.stat(q).st_uid == os.geteuid():
            os.chmod(q, os.stat(q).st_mode | 0o011)
            q = os.path.dirname(q)
    d = "%s/e2e%d" % (tmp, n)
    for x in (d, d + "/path", d + "/bin", d + "/t"):
        os.makedirs(x, exist_ok=True)
    with open(d + "/path/python3", "w") as f:
        f.write('#!/bin/sh\nPYTHONPATH="%s/box:%s:%s/stubs" exec %s "$@"\n' % (py, py, py, sys.executable))
    os.chmod(d + "/path/python3", 0o755)
    return d


def inbox(tmp, d, w, path, env):
    """Runs a script of /repo as an unprivileged user in a world kept in a file; the world comes back in world.W."""
    repo = tmp + "/repo"
    w.running = True
    pickle.dump(w, open(d + "/w", "wb"))
    env = dict({"PATH": d + "/path:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": d, "TMPDIR": d + "/t", "TZ": "UTC", "PYTHONDONTWRITEBYTECODE": "1", "VERIF_WORLD": d, "VERIF_REPO": repo,
                "crlite_workflow": repo + "/workflow", "GOOGLE_APPLICATION_CREDENTIALS": "x"}, **env)
    user = NOBODY if os.geteuid() == 0 else None
    if user:
        for p, ds, fs in os.walk(tmp):
            for x in [p] + [p + "/" + f for f in fs]:
                os.chown(x, NOBODY, NOBODY, follow_symlinks=False)
    p = subprocess.Popen(["/usr/bin/timeout", "-k", "1", "60", repo + "/" + path], cwd=d + "/t", env=env, stdin=subprocess.DEVNULL, stdout=open(d + "/out", "w"), stderr=subprocess.STDOUT, start_new_session=True, user=user, group=user, extra_groups=[] if user else None)
    code = p.wait()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    text = open(d + "/out").read()
    world.W = pickle.load(open(d + "/w", "rb"))
    if user:
        for p_, ds, fs in os.walk(tmp):
            os.chmod(p_, 0o755)
            for x in [p_] + [p_ + "/" + f for f in fs]:
                os.chown(x, 0, 0, follow_symlinks=False)
    return code, text


def whole(w, s, tmp, home, verbose):
    """containers/scripts/crlite-generate.sh as an unprivileged user, with stand-ins of the collectors and the generator."""
    d = box(tmp)
    os.makedirs(tmp + "/persistent/crls", exist_ok=True)
    open(tmp + "/persistent/crls/a.crl", "w").write("crl")
    for b in ("aggregate-crls", "aggregate-known"):
        shutil.copy(HERE + "/box/collector", d + "/bin/" + b)
        os.chmod(d + "/bin/" + b, 0o755)
    json.dump(dict(s.get("mode", {}), rev=s["rev"]), open(home + "/gen.json", "w"))
    before = set(os.listdir(w.ws))
    w.begin_run(s.get("plan", []))
    w.hits0, w.wide = w.hits, True
    w.emit("UBegin", id="", noop=bool(s.get("local")))
    env = {"HOME": home, "crlite_bin": d + "/bin", "crlite_processing": w.ws, "crlite_persistent": tmp + "/persistent", "crlite_filter_bucket": "b", "statsdHost": "127.0.0.1"}
    if s.get("local"):
        env["DoNotUpload"] = "x"
    code, text = inbox(tmp, d, w, "containers/scripts/crlite-generate.sh", env)
    w2 = world.W
    w2.end_run()
    killed = code in (-9, 137) or w2.dead
    new = sorted(set(os.listdir(w2.ws)) - before)
    w2.id = new[0] if len(new) == 1 else w2.id
    if len(new) == 1:
        w2.emit("UId", id=new[0])
    w2.emit("UEnd", code=137 if killed else code, killed=killed, calm=w2.hits == w2.hits0, sound=not s.get("mode"), bad=any(x in ("fail", "part") for x in s.get("mode", {}).values()))
    w2.wide = False
    if verbose:
        print("  generate.sh", code, text[-1500:], file=sys.stderr)
    return killed
