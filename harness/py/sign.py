"""Automatic sign-off: crlite-signoff-tool.py in this process, or the whole of crlite-signoff.sh as an unprivileged user."""
import os
import pickle
import shutil
import sys

import flow
import world

COLL = {"Put": world.CRL, "Del": world.CRL, "IPut": world.INT, "IDel": world.INT, "LPut": world.LOGS, "LDel": world.LOGS}


class SignWorld(world.World):
    def emit(self, ev, **kw):
        if ev in COLL:
            ev, kw = "GEdit", {"coll": COLL[ev], "by": self.by}
        super().emit(ev, **kw)

    def emit_read(self, coll):
        if self.running:
            self.emit("GRead", coll=coll)

    def mods(self, l):
        for m in l:
            if m["m"] == "status":
                c = self.colls[m["coll"]]
                c["t"] += 1
                c["status"] = m["st"]
                self.emit("Review", coll=m["coll"], st=m["st"], by="env")
            elif m["m"] == "touch":
                self.touch(m["coll"])
                self.emit("GEdit", coll=m["coll"], by="env")
            else:
                super().mods([m])


def run(sc, tmp, verbose, script):
    w = world.W = SignWorld(sc.get("seed", 0))
    w.emit("Reset", id=sc["id"])
    old = dict(os.environ)
    kills = 0
    try:
        for s in sc["steps"]:
            if s["op"] == "mods":
                w.mods(s["do"])
            elif s["op"] == "tool":
                name = s["coll"]
                noop = bool(s.get("noop") or s.get("env"))
                os.environ.update({"KINTO_NOOP": s["env"]} if s.get("env") else {})
                w.emit("GBegin", **{"for": [name] if name in (world.CRL, world.INT) else [], "dry": noop, "size": "none"})
                w.begin_run(s.get("plan", []))
                code, killed, what, text = script("containers/scripts/crlite-signoff-tool.py", [name] + (["--noop"] if s.get("noop") else []), True, tmp)
                w.end_run()
                os.environ.pop("KINTO_NOOP", None)
                kills += bool(killed)
                w.emit("GEnd", code=code, killed=killed, calm=w.hits == w.hits0 and name in (world.CRL, world.INT), judged=[name])
                if verbose:
                    print("  tool", name, code, what, text[-500:], file=sys.stderr)
            elif s["op"] == "sign":
                kills += whole(w, s, tmp, verbose)
                w = world.W
            else:
                raise ValueError(s["op"])
        w.emit("Finish")
        return w, kills
    finally:
        os.environ.clear()
        os.environ.update(old)


def whole(w, s, tmp, verbose):
    d = flow.box(tmp, verbose)
    shutil.copytree(tmp + "/repo/containers/scripts", d + "/bin/scripts")
    limit, size = s.get("limit"), s.get("size")
    if size is not None:
        os.makedirs(d + "/processing/crlite_db")
        with open(d + "/processing/crlite_db/crlite.filter", "w") as f:
            f.truncate(size)
    cls = "unknown" if size is None else "big" if size > (10485760 if limit is None else limit) else "ok"
    env = {"crlite_bin": d + "/bin", "crlite_processing": d + "/processing", "crlite_filter_bucket": s.get("bucket", "crlite-filters-prod")}
    if limit is not None:
        env["max_filter_size"] = str(limit)
    if s.get("env"):
        env["KINTO_NOOP"] = s["env"]
    known = env["crlite_filter_bucket"] in ("crlite-filters-prod", "crlite-filters-stage", "crlite-filters-dev")
    w.emit("GBegin", **{"for": [world.INT, world.CRL], "dry": bool(s.get("env")), "size": cls})
    w.begin_run(s.get("plan", []))
    code, text = flow.inbox(tmp, d, w, "containers/scripts/crlite-signoff.sh", env)
    w2 = world.W
    w2.end_run()
    killed = code in (-9, 137) or w2.dead
    w2.emit("GEnd", code=137 if killed else code, killed=killed, calm=w2.hits == w2.hits0 and known, judged=[world.CRL])
    if verbose:
        print("  signoff.sh", code, text[-900:], file=sys.stderr)
    return bool(killed)
