#!/usr/bin/env python3
"""pub.py -in SCENARIOS -out TRACES -res RESULTS -work DIR -j JOBS: runs moz_kinto_publisher/main.py (or workflow scripts) of /repo in simulated worlds."""
import argparse
import base64  # noqa: F401
import contextlib
import io
import json
import multiprocessing
import os
import re
import shutil
import signal
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, HERE + "/stubs"]
os.environ["TZ"] = "UTC"
real_time, real_monotonic = time.time, time.monotonic
time.tzset()
import random  # noqa
import warnings  # noqa

import requests  # noqa
import requests.adapters  # noqa

import world  # noqa

sys.modules["world"] = world
CODE = {}


def send(self, req, **kw):
    status, body, headers = world.W.http(req)
    r = requests.Response()
    r.status_code, r._content, r.url, r.request = status, body, req.url, req
    r.headers.update(headers)
    r.encoding = "utf-8"
    r.raw = io.BytesIO(body)
    return r


def script(path, argv, first, workdir):
    """Runs a script of /repo in this process, as __main__: (exit code or None, killed, what)."""
    full = REPO + "/" + path
    if full not in CODE:
        CODE[full] = compile(open(full).read(), full, "exec")
    for n, m in list(sys.modules.items()):
        f = getattr(m, "__file__", None) or ""
        if f.startswith(REPO + "/") or n in ("settings", "workflow", "__init__"):
            del sys.modules[n]
    g = {"__name__": "__main__", "__file__": full, "__builtins__": __builtins__}
    old, cwd = (sys.argv, sys.path[:], sys.stdout, sys.stderr), os.getcwd()
    sys.argv = [full] + argv
    sys.path[:0] = [os.path.dirname(full), REPO] if first else [os.path.dirname(full)]
    os.chdir(workdir)
    out, std = io.StringIO(), io.StringIO()
    sys.stdout, sys.stderr = std, out

    def hang(*a):
        raise world.Hang()

    signal.signal(signal.SIGALRM, hang)
    signal.setitimer(signal.ITIMER_REAL, 30)
    code, killed, what = 0, False, ""
    mainmod = sys.modules["__main__"]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import types
            m = types.ModuleType("__main__")
            m.__dict__.update(g)
            sys.modules["__main__"] = m
            exec(CODE[full], m.__dict__)
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except world.Killed:
        code, killed, what = 137, True, "killed"
    except world.Hang:
        code, what = 124, "hang"
    except BaseException as e:
        code, what = 1, "%s: %s" % (type(e).__name__, e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.modules["__main__"] = mainmod
        sys.argv, sys.path[:], sys.stdout, sys.stderr = old
        os.chdir(cwd)
    script.stdout = std.getvalue()
    return code, killed or world.W.dead, what, out.getvalue() + std.getvalue()


def publish(sc, tmp, verbose):
    w = world.W = world.World(sc.get("seed", 0))
    w.order = sc.get("order", "desc")
    w.emit("Reset", id=sc["id"])
    w.emit_bucket()
    kills = 0
    for n, s in enumerate(sc["steps"]):
        if s["op"] == "mods":
            w.mods(s["do"])
            continue
        w.emit_up()
        w.emit("Begin", noop=bool(s.get("noop")))
        w.begin_run(s.get("plan", []))
        d = os.path.join(tmp, "dl%d" % (n if s.get("fresh", True) else 0))
        argv = ["--filter-bucket", "b", "--download-path", d] + (["--noop"] if s.get("noop") else [])
        code, killed, what, text = script("moz_kinto_publisher/main.py", argv, True, tmp)
        w.end_run()
        kills += killed
        w.emit("End", code=code, killed=killed, lfail=w.lfail, calm=w.hits == w.hits0)
        if verbose:
            print("  run", n, code, what, text[-600:], file=sys.stderr)
    w.emit("Finish")
    return w, kills


def work(job):
    n, sc, tmp, verbose = job
    t0 = real_time()
    d = tempfile.mkdtemp(dir=tmp)
    try:
        kind = sc.get("kind", "publish")
        if kind == "publish":
            w, kills = publish(sc, d, verbose)
        elif kind == "sign":
            import sign
            w, kills = sign.run(sc, d, verbose, script)
        else:
            import flow
            w, kills = flow.run(sc, d, verbose, script)
        ev = "".join(json.dumps(e, separators=(",", ":")) + "\n" for e in w.events)
        return ev, {"id": sc["id"], "err": "", "events": len(w.events), "cmds": sum(w.classes.values()), "kills": kills, "hooks": w.hits, "ms": int((real_time() - t0) * 1000), "classes": w.classes}
    except Exception as e:
        import traceback
        return "", {"id": sc["id"], "err": "%s %s" % (e, traceback.format_exc()[-600:]), "events": 0, "cmds": 0, "kills": 0, "hooks": 0, "ms": 0, "classes": {}}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    p = argparse.ArgumentParser()
    for a in ("in", "out", "res", "work", "bin"):
        p.add_argument("-" + a)
    p.add_argument("-j", type=int, default=4)
    p.add_argument("-v", action="store_true")
    a = p.parse_args()
    scs = [json.loads(x) for x in open(getattr(a, "in"))]
    os.makedirs(a.work, exist_ok=True)
    requests.adapters.HTTPAdapter.send = send
    for k in [k for k in os.environ if k.lower().endswith("_proxy") or k.startswith("KINTO")]:
        del os.environ[k]
    jobs = [(n, s, a.work, a.v) for n, s in enumerate(scs)]
    ctx = multiprocessing.get_context("fork")
    with open(a.out, "w") as o, open(a.res, "w") as r:
        if a.j <= 1 or a.v:
            world.patch_clock()
            it = map(work, jobs)
        else:
            pool = ctx.Pool(a.j, initializer=world.patch_clock, maxtasksperchild=200)
            it = pool.imap(work, jobs, chunksize=4)
        for ev, res in it:
            o.write(ev)
            r.write(json.dumps(res) + "\n")


if __name__ == "__main__":
    main()
