"""The world the publisher and the upload scripts live in: a clock, buckets, a collection server, attachments, the log list."""
import base64
import copy
import datetime as _dt
import hashlib
import json
import random
import re
import time as _time

BASE = 1609459200  # 2021-01-01
REAL_DT, REAL_DATE = _dt.datetime, _dt.date
_real_sleep = _time.sleep

W = None  # the current world


class Killed(BaseException):
    pass


class Hang(BaseException):
    pass


class FakeDT(REAL_DT):
    @classmethod
    def now(cls, tz=None):
        return cls.fromtimestamp(W.clock, tz)

    @classmethod
    def utcnow(cls):
        return cls.fromtimestamp(W.clock, _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


class FakeDate(REAL_DATE):
    @classmethod
    def today(cls):
        return cls.fromtimestamp(W.clock)


def patch_clock():
    _dt.datetime, _dt.date = FakeDT, FakeDate
    _time.time = lambda: W.clock
    _time.monotonic = lambda: W.clock
    _time.perf_counter = lambda: W.clock
    _time.time_ns = lambda: int(W.clock * 1e9)
    _time.sleep = lambda s: W.sleep(s)


RUNID = re.compile(r"(\d{8})-(\d+)\Z")
CRL, INT, LOGS = "cert-revocations", "intermediates", "ct-logs"


class World:
    def __init__(self, seed=0):
        self.rng = random.Random(seed)
        self.clock = BASE + 90 * 86400
        self.events, self.serial = [], 0
        self.colls = {c: {"status": "signed", "recs": {}, "t": 1} for c in (CRL, INT, LOGS)}
        self.att = {}
        self.bucket = {"b": {}}
        self.upstream = {"operators": []}
        self.order = "desc"
        self.running = self.dead = False
        self.by = "env"
        self.plan, self.count, self.ops, self.hits, self.sleeps, self.lfail = [], {}, 0, 0, 0, False
        self.classes = {}
        self.cap = {}

    # ------------------------------------------------------------ plumbing
    def emit(self, ev, **kw):
        self.events.append(dict({"ev": ev}, **kw))

    def begin_run(self, plan):
        self.plan, self.count, self.ops, self.sleeps, self.dead, self.running, self.by, self.lfail = list(plan), {}, 0, 0, False, True, "pub", False
        self.hits0 = self.hits

    def end_run(self):
        self.running, self.by = False, "env"

    def step(self, key):
        """One request (or sleep) of the program: returns what is to happen to it."""
        if not self.running:
            return ""
        if self.dead:
            raise Killed()
        self.ops += 1
        self.classes[key] = self.classes.get(key, 0) + 1
        if self.ops > 20000:
            raise Hang()
        n = self.count[key] = self.count.get(key, 0) + 1
        how = ""
        for p in self.plan:
            if p.get("at") == self.ops - 1 or ("on" in p and re.fullmatch(p["on"], key) and (p.get("nth", 1) == n or p.get("every"))):
                if "do" in p:
                    self.by, self.running = "env", False
                    self.mods(p["do"])
                    self.by, self.running = "pub", True
                    self.hits += 1
                if "how" in p and not how:
                    how = p["how"]
                    self.hits += 1
        if how == "kill":
            self.dead = True
            raise Killed()
        return how

    def after(self, how):
        if how == "killafter":
            self.dead = True
            raise Killed()

    def sleep(self, s):
        self.clock += s
        self.sleeps += 1
        self.step("sleep")

    # ------------------------------------------------------- the collections
    def kinto(self, op, coll, a):
        import requests
        from kinto_http.exceptions import CollectionNotFound, KintoException
        key = op + (":" + coll if coll else "")
        how = self.step(key)
        if how == "lie" and (coll == CRL or op == "patch_collection"):  # the server stores what it says it has stored
            how = ""
        if how == "conn":
            self.lfail |= coll == LOGS
            raise requests.exceptions.ConnectionError("injected")
        if how == "before":
            self.lfail |= coll == LOGS
            raise KintoException("injected: 503 " + key)
        if op == "info":
            return {"capabilities": {"attachments": {"base_url": "https://attachments.test/"}}, "settings": {}}
        if coll not in self.colls:
            raise CollectionNotFound("404 " + coll)
        c = self.colls[coll]
        if op == "list":
            out = [copy.deepcopy(r) for r in c["recs"].values()]
            out.sort(key=lambda r: r.get("last_modified", 0), reverse=True)
            if self.order == "asc":
                out.reverse()
            elif self.order == "shuffle":
                self.rng.shuffle(out)
            f = a["filters"]
            for k, v in f.items():
                if not k.startswith("_"):
                    out = [r for r in out if str(r.get(k)).lower() == str(v).lower()]
            if f.get("_sort"):
                for s in reversed(f["_sort"].split(",")):
                    path = s.lstrip("-").split(".")
                    def val(r):
                        for p in path:
                            r = r.get(p) if isinstance(r, dict) else None
                        return (r is not None, r if isinstance(r, (int, float)) else 0, str(r))
                    out.sort(key=val, reverse=s.startswith("-"))
            return out
        if op == "get":
            if a["id"] not in c["recs"]:
                raise KintoException("404")
            return {"data": copy.deepcopy(c["recs"][a["id"]]), "permissions": {}}
        if op == "collection":
            self.emit_read(coll)
            return {"data": {"id": coll, "status": c["status"], "last_modified": c["t"]}, "permissions": {}}
        if op == "patch_collection" and a.get("if_match") is not None and a["if_match"] != c["t"]:
            raise KintoException("412 Precondition Failed")
        if how != "lie":
            if op == "patch_collection":
                c["t"] += 1
                c["status"] = a["data"].get("status", c["status"])
                if "status" in a["data"]:
                    self.emit("Review", coll=coll, st=c["status"], by=self.by)
            elif op == "create":
                i = a["id"] or self.newid()
                if i in c["recs"]:
                    raise KintoException("412 Precondition Failed")
                self.put(coll, i, dict(a["data"], id=i))
                a["id"] = i
            elif op == "update":
                old = c["recs"].get(a["id"], {})
                d = dict(a["data"], id=a["id"])
                self.put(coll, a["id"], d)
                del old
            elif op == "patch":
                if a["id"] not in c["recs"]:
                    raise KintoException("404")
                self.put(coll, a["id"], dict(c["recs"][a["id"]], **a["data"]))
            elif op == "delete":
                if a["id"] not in c["recs"]:
                    if not a.get("if_exists"):
                        raise KintoException("404")
                    return None
                self.drop(coll, a["id"])
        elif op == "create" and not a["id"]:
            a["id"] = self.newid()
        self.lfail |= coll == LOGS and how in ("lie", "after")
        self.after(how)
        if how == "after":
            raise KintoException("injected: 504 " + key)
        if op == "patch_collection":
            return {"data": {"id": coll, "status": c["status"], "last_modified": c["t"]}}
        if op == "delete":
            return {"id": a["id"], "deleted": True}
        return {"data": copy.deepcopy(c["recs"].get(a["id"], dict(a.get("data") or {}, id=a["id"]))), "permissions": {}}

    def emit_read(self, coll):
        pass

    def newid(self):
        self.serial += 1
        h = hashlib.md5(b"%d" % self.serial).hexdigest()
        return "%s-%s" % (h[:8], h[8:12])

    def touch(self, coll):
        c = self.colls[coll]
        c["t"] += 1
        c["status"] = "work-in-progress"
        return c["t"]

    def put(self, coll, i, rec):
        new = i not in self.colls[coll]["recs"]
        rec = copy.deepcopy(rec)
        rec["last_modified"] = self.touch(coll)
        rec.setdefault("schema", 1)
        self.colls[coll]["recs"].pop(i, None)
        self.colls[coll]["recs"][i] = rec
        self.emit({CRL: "Put", INT: "IPut", LOGS: "LPut"}[coll], id=i, by=self.by, new=new, x={CRL: self.a_crl, INT: self.a_int, LOGS: self.a_log}[coll](rec))

    def drop(self, coll, i):
        if i in self.colls[coll]["recs"]:
            del self.colls[coll]["recs"][i]
            self.touch(coll)
            self.emit({CRL: "Del", INT: "IDel", LOGS: "LDel"}[coll], id=i, by=self.by)

    def attach(self, coll, i, name, data, mime):
        self.serial += 1
        loc = "bucket/%s/%d.bin" % (coll, self.serial)
        self.att[loc] = data
        rec = self.colls[coll]["recs"].get(i)
        rec = dict(rec or {"id": i}, attachment={"hash": hashlib.sha256(data).hexdigest(), "size": len(data), "filename": name, "location": loc, "mimetype": mime})
        self.put(coll, i, rec)

    # what the specification sees of a record
    def a_crl(self, r):
        inc, det = r.get("incremental"), r.get("details")
        name = det.get("name") if isinstance(det, dict) else None
        kind = "bad" if "incremental" not in r else "full" if inc is None or inc is False else "delta" if inc is True else "bad"
        t = -1
        try:
            t = int(REAL_DT.fromisoformat(name.split("Z-")[0]).replace(tzinfo=_dt.timezone.utc).timestamp()) - BASE
        except Exception:
            kind = "bad"
        if kind == "delta" and not isinstance(r.get("parent"), str):
            kind = "bad"
        art, run, a = "", "", r.get("attachment")
        if isinstance(a, dict):
            data = self.att.get(a.get("location"), b"")
            m = re.fullmatch(rb"ARTEFACT ([^/]+)/(.*)\n", data)
            art = (m.group(1) + b"/" + m.group(2)).decode() if m else "?"
            run = m.group(1).decode() if m else "?"
            if str(a.get("filename")).rsplit("-", 1)[0] != run:
                kind = "bad"
        eff = r.get("effectiveTimestamp")
        fx = r.get("filter_expression")
        ch = r.get("channel", "")
        return {"ch": ch if isinstance(ch, str) else "?", "kind": kind, "parent": r["parent"] if isinstance(r.get("parent"), str) else "", "run": run, "art": art, "ts": t,
                "eff": (eff // 1000 - BASE) if isinstance(eff, int) and eff % 1000 == 0 else -1, "named": isinstance(name, str), "fx": isinstance(fx, str) and ("'%s'" % ch) in fx.replace('"', "'")}

    def a_int(self, r):
        """der: the certificate the record stands for ("" if it is not usable), whatever is wrong with it."""
        a, d = r.get("attachment"), r.get("derHash")
        gone = isinstance(a, dict) and a.get("location") not in self.att
        try:
            want = base64.b64decode(d.replace("-", "+").replace("_", "/"), validate=True).hex()
            got = pem_der(self.att[a["location"]].decode())
            ok = hashlib.sha256(got).hexdigest() == want and "pem" not in r and "id" in r and len(a["hash"]) == 64 and all(k in a for k in ("filename", "size", "mimetype"))
        except Exception:
            return {"der": "", "claim": str(d), "gone": gone}
        return {"der": want[:16] if ok else "", "claim": want[:16], "gone": gone}

    def a_log(self, r):
        s = lambda k: r[k] if isinstance(r.get(k), str) else "?"
        b = lambda k: {True: "yes", False: "no"}.get(r.get(k), "?") if isinstance(r.get(k), bool) else "?"
        return {"log": s("logID"), "desc": s("description"), "key": s("key"), "url": s("url"), "mmd": r["mmd"] if isinstance(r.get("mmd"), int) else -1, "adm": b("admissible"), "op": s("operator"), "tiled": b("tiled"), "enr": b("crlite_enrolled")}

    # ------------------------------------------------------------- buckets
    def gfault(self, key):
        from google.api_core import exceptions
        how = self.step(key)
        if how in ("before", "err"):
            raise exceptions.ServiceUnavailable("injected")
        if how == "conn":
            raise ConnectionError("injected")
        if how == "forbidden":
            raise exceptions.Forbidden("injected")
        if how == "gone":
            raise exceptions.NotFound("injected")
        return how

    def gcs_list(self, bucket, prefix, delimiter):
        self.gfault("glist")
        items, prefixes = [], set()
        for n in self.bucket.setdefault(bucket, {}):
            if n.startswith(prefix):
                rest = n[len(prefix):]
                if delimiter and delimiter in rest:
                    prefixes.add(prefix + rest.split(delimiter)[0] + delimiter)
                else:
                    items.append(n)
        return sorted(items), sorted(prefixes)

    def short(self, name):
        return name.split("/", 1)[1] if "/" in name else name

    def gcs_exists(self, bucket, name):
        self.gfault("gexists:" + self.short(name))
        return name in self.bucket.setdefault(bucket, {})

    def gcs_get(self, bucket, name):
        from google.api_core import exceptions
        self.gfault("gget:" + self.short(name))
        b = self.bucket.setdefault(bucket, {})
        if name not in b:
            raise exceptions.NotFound(name)
        return b[name]

    def gcs_put(self, bucket, name, data):
        how = self.gfault("gput:" + self.short(name))
        if how != "lie":
            self.bucket.setdefault(bucket, {})[name] = data
            self.emit("Upload", name=name, data=hashlib.sha256(data).hexdigest()[:16])
        self.after(how)
        if how == "after":
            from google.api_core import exceptions
            raise exceptions.ServiceUnavailable("injected")

    def gcs_delete(self, bucket, name):
        self.gfault("gdel:" + self.short(name))
        self.bucket.setdefault(bucket, {}).pop(name, None)

    def runs(self):
        out = {}
        for n in self.bucket["b"]:
            d = n.split("/")[0]
            m = RUNID.match(d)
            if m and "/" in n:
                out.setdefault(d, []).append(n[len(d) + 1:])
        return sorted(out.items(), key=lambda x: [int(y) for y in x[0].split("-")])

    def emit_bucket(self):
        rs = []
        for rid, files in self.runs():
            try:
                t = int(REAL_DT.fromisoformat(self.bucket["b"][rid + "/timestamp"].decode()).replace(tzinfo=_dt.timezone.utc).timestamp()) - BASE
            except Exception:
                t = -1
            d, n = rid.split("-")
            rs.append({"id": rid, "d": int(d), "n": int(n), "done": "completed" in files, "ts": t, "logs": "ct-logs.json" in files,
                       "full": [x.split("/")[0] for x in files if re.fullmatch(r"[^/]+/filter", x)], "delta": [x.split("/")[0] for x in files if re.fullmatch(r"[^/]+/filter.delta", x)]})
        loc, ok, sane = [], False, False
        if rs:
            try:
                sane = all(map(local_der, json.loads(self.bucket["b"][rs[-1]["id"] + "/enrolled.json"])))
                loc = sorted({x for x in map(local_der, json.loads(self.bucket["b"][rs[-1]["id"] + "/enrolled.json"])) if x})
                ok = True
            except Exception:
                pass
        self.emit("Bucket", runs=rs, loc=loc, locok=ok, sane=bool(ok and sane))

    # ------------------------------------------------ HTTP beside the client
    def http(self, req):
        """Answers a prepared request: (status, body, headers)."""
        import requests
        url = req.url
        m = re.match(r".*/buckets/[^/]+/collections/([^/]+)/records/([^/]+)/attachment$", url)
        if m and req.method == "POST":
            coll, rid = m.groups()
            how = self.step("attach:" + coll)
            if coll == CRL and how in ("lie", "garble"):
                how = ""
            if how == "conn":
                raise requests.exceptions.ConnectionError("injected", request=req)
            if how == "before":
                return 503, b"injected", {}
            name, mime, data = multipart(req)
            if how == "garble":
                data = data[: len(data) // 2]
            if how != "lie":
                self.attach(coll, rid, name, data, mime)
            self.after(how)
            if how == "after":
                return 504, b"injected", {}
            return 200, b"{}", {}
        if url.startswith("https://attachments.test/"):
            how = self.step("pem")
            if how == "conn":
                raise requests.exceptions.ConnectionError("injected", request=req)
            if how in ("before", "after"):
                return 500, b"injected", {}
            d = self.att.get(url[len("https://attachments.test/"):])
            if d is None:
                return 404, b"", {}
            return 200, d, {"content-type": "text/plain"}
        if "log_list" in url:
            how = self.step("loglist")
            if how == "conn":
                raise requests.exceptions.ConnectionError("injected", request=req)
            if how == "before":
                return 503, b"injected", {}
            b = json.dumps(self.upstream).encode()
            if how == "garble":
                b = b[: len(b) // 2]
            return 200, b, {"content-type": "application/json"}
        self.step("other:" + url)
        return 404, b"", {}

    # --------------------------------------------------------- outside events
    def mods(self, l):
        dirty = False
        for m in l:
            k = m["m"]
            if k == "run":
                self.add_run(m)
                dirty = True
            elif k == "done":
                self.bucket["b"][m["run"] + "/completed"] = b"done"
                dirty = True
            elif k == "lose":
                for n in [n for n in self.bucket["b"] if n.startswith(m["run"] + "/" + m.get("what", ""))]:
                    del self.bucket["b"][n]
                dirty = True
            elif k == "ts":
                self.bucket["b"][m["run"] + "/timestamp"] = iso(m["ts"]).encode()
                dirty = True
            elif k == "stray":
                self.bucket["b"][m["name"]] = b"x"
            elif k == "tick":
                self.clock += m["s"]
            elif k == "put":  # a record of the filters made by hand
                i = m.get("id") or self.newid()
                art, name = m.get("art", ""), m.get("name")
                t = m.get("ts", 0)
                rec = {"id": i, "incremental": m["kind"] == "delta", "details": {"name": iso(t) + "Z-" + ("diff" if m["kind"] == "delta" else "full")}, "effectiveTimestamp": (BASE + t) * 1000, "channel": m.get("ch", "default")}
                if m["kind"] == "delta":
                    rec["parent"] = m.get("parent") or self.find(m["ch"], m.get("parent_run", "")) or "none"
                for u in m.get("unset", ()):
                    rec.pop(u, None)
                rec.update(m.get("set", {}))
                if art:
                    loc = "hand/%s" % i
                    self.att[loc] = b"ARTEFACT %s\n" % art.encode()
                    rec["attachment"] = {"hash": "", "size": 1, "filename": name or "%s-%s.filter" % (art.split("/")[0], m.get("ch", "default")), "location": loc, "mimetype": "x"}
                self.put(CRL, i, rec)
            elif k == "edit":
                for i in self.select(m):
                    r = copy.deepcopy(self.colls[CRL]["recs"][i])
                    for u in m.get("unset", ()):
                        r.pop(u, None)
                    r.update(copy.deepcopy(m.get("set", {})))
                    if "parent_run" in m:
                        r["parent"] = self.find(r.get("channel", "default"), m["parent_run"]) or "none"
                    if "self" in m:
                        r["parent"] = i
                    if "rename" in m and "attachment" in r:
                        r["attachment"]["filename"] = m["rename"]
                    self.put(CRL, i, r)
            elif k == "del":
                for i in self.select(m):
                    self.drop(CRL, i)
            elif k == "copy":
                for i in self.select(m):
                    r = copy.deepcopy(self.colls[CRL]["recs"][i])
                    r["id"] = self.newid()
                    r.update(m.get("set", {}))
                    self.put(CRL, r["id"], r)
            elif k == "irec":
                self.add_int(m)
            elif k == "idel":
                for i, r in list(self.colls[INT]["recs"].items()):
                    if m["cert"] == "*" or self.a_int(r)["claim"] == CERTS[m["cert"]][1]:
                        self.drop(INT, i)
            elif k == "iedit":
                for i, r in list(self.colls[INT]["recs"].items()):
                    if self.a_int(r)["claim"] == CERTS[m["cert"]][1]:
                        r = copy.deepcopy(r)
                        for u in m.get("unset", ()):
                            r.pop(u, None)
                        if "pem" in m:
                            self.att["hand/%s" % i] = CERTS[m["pem"]][2].encode() if m["pem"] in CERTS else m["pem"].encode()
                            r["attachment"] = dict(r.get("attachment") or {"hash": "0" * 64, "size": 1, "filename": "x.pem", "mimetype": "text/plain"}, location="hand/%s" % i)
                        r.update(m.get("set", {}))
                        self.put(INT, i, r)
            elif k == "upstream":
                self.upstream = {"version": "1", "operators": [{"name": o["name"], "email": [], "logs": [up_log(x, False) for x in o.get("logs", [])], "tiled_logs": [up_log(x, True) for x in o.get("tiled", [])]} for o in m["ops"]]}
            elif k == "lrec":
                x = up_log(m, False)
                i = m.get("id") or self.newid()
                r = {"id": i, "admissible": m.get("adm", True), "crlite_enrolled": m.get("enr", True), "description": x["description"], "key": x["key"], "logID": x["log_id"], "mmd": x["mmd"], "operator": m.get("op", "Op"), "tiled": m.get("tiled", False), "url": x["url"]}
                for u in m.get("unset", ()):
                    r.pop(u, None)
                self.put(LOGS, i, r)
            elif k == "lenr":
                for i, r in list(self.colls[LOGS]["recs"].items()):
                    if r.get("description") == m["n"] or m["n"] == "*":
                        self.put(LOGS, i, dict(r, crlite_enrolled=m["enr"]))
            elif k == "ldel":
                for i, r in list(self.colls[LOGS]["recs"].items()):
                    if r.get("description") == m["n"]:
                        self.drop(LOGS, i)
            elif k == "sign":
                for n, c in self.colls.items():
                    c["status"] = "signed"
                    self.emit("Review", coll=n, st="signed", by=self.by)
            else:
                raise ValueError("mod " + k)
        if dirty:
            self.emit_bucket()

    def add_run(self, m):
        self.clock += m.get("gap", 0)
        rid = m["id"]
        b = self.bucket["b"]
        files = {"ct-logs.json": b"[]", "timestamp": iso(m["ts"] if "ts" in m else int(self.clock) - BASE).encode(), "known/aaaa": b"x",
                 "enrolled.json": (m["raw"] if "raw" in m else json.dumps([local_entry(x) for x in m.get("local", ["c0", "c1"])])).encode()}
        for d in ("clubcard-all", "clubcard-priority"):
            for f in ("filter", "filter.delta", "revset.bin"):
                files["%s/%s" % (d, f)] = b"ARTEFACT %s/%s/%s\n" % (rid.encode(), d.encode(), f.encode())
        if m.get("done", True):
            files["completed"] = b"done"
        for f, data in files.items():
            if f not in m.get("miss", ()):
                b[rid + "/" + f] = data

    def add_int(self, m):
        der, hx, pem = CERTS[m["cert"]]
        i, bad = self.newid(), m.get("bad", "")
        r = {"id": i, "derHash": base64.b64encode(hashlib.sha256(der).digest()).decode()}
        if bad != "noattach":
            loc = "hand/%s" % i
            body = {"garbage": "not a certificate", "other": CERTS["c9"][2], "trail": pem + "\n\n", "gone": None}.get(bad, pem)
            if body is not None:
                self.att[loc] = body.encode()
            r["attachment"] = {"hash": hashlib.sha256(pem.encode()).hexdigest(), "size": len(pem), "filename": "x.pem", "location": loc, "mimetype": "text/plain"}
        if bad == "nohash":
            del r["derHash"]
        elif bad == "badhash":
            r["derHash"] = "AAAA"
        elif bad == "shorthash":
            r["attachment"]["hash"] = "ab"
        elif bad == "b64":
            r["derHash"] = "!!"
        elif bad == "pem":
            r["pem"] = pem
        self.put(INT, i, r)

    def select(self, m):
        out = []
        for i, r in self.colls[CRL]["recs"].items():
            x = self.a_crl(r)
            if "ch" in m and x["ch"] != m["ch"]:
                continue
            if "kind" in m and x["kind"] != m["kind"]:
                continue
            if "run" in m and x["run"] != m["run"]:
                continue
            out.append(i)
        return sorted(out, key=lambda i: self.a_crl(self.colls[CRL]["recs"][i])["ts"])[slice(*m["slice"]) if "slice" in m else slice(None)]

    def find(self, ch, run):
        for i, r in self.colls[CRL]["recs"].items():
            x = self.a_crl(r)
            if x["ch"] == ch and x["run"] == run:
                return i

    def emit_up(self):
        ls, ok = [], True
        for o in self.upstream["operators"]:
            for k, t in (("logs", False), ("tiled_logs", True)):
                for x in o[k]:
                    ls.append({"log": x["log_id"], "state": sorted(x.get("state", {"none": 0}))[0] if x.get("state") else "none", "tiled": "yes" if t else "no", "desc": x["description"], "key": x["key"], "url": x.get("monitoring_url", "") if t else x["url"], "mmd": x["mmd"], "op": o["name"]})
                    ok &= base64.b64encode(hashlib.sha256(base64.b64decode(x["key"])).digest()).decode() == x["log_id"]
        ok &= len({x["log"] for x in ls}) == len(ls)
        self.emit("Upstream", logs=ls, ok=ok)


def iso(t):
    return REAL_DT.fromtimestamp(BASE + t, _dt.timezone.utc).replace(tzinfo=None).isoformat(timespec="seconds")


def up_log(x, tiled):
    key = base64.b64encode(b"KEY-" + x["n"].encode() * 4).decode()
    l = {"description": x.get("desc", x["n"]), "log_id": base64.b64encode(hashlib.sha256(base64.b64decode(key)).digest()).decode(), "key": key, "mmd": x.get("mmd", 86400), "state": {x.get("state", "usable"): {"timestamp": "2020-01-01T00:00:00Z"}}, "temporal_interval": {}}
    if x.get("badid"):
        l["log_id"] = "A" + l["log_id"][1:]
    url = x.get("url", "https://%s.test/2021/" % x["n"].lower())
    if tiled:
        l.update(submission_url="https://submit.%s.test/" % x["n"].lower(), monitoring_url=url)
    else:
        l["url"] = url
    return l


# ------------------------------------------------------------- certificates
def tlv(tag, *parts):
    b = b"".join(parts)
    n = len(b)
    return bytes([tag]) + (bytes([n]) if n < 128 else bytes([0x81, n]) if n < 256 else b"\x82" + n.to_bytes(2, "big")) + b


def make_cert(n, subject, key, after):
    name = lambda *kv: tlv(0x30, *[tlv(0x31, tlv(0x30, tlv(6, o), tlv(0x0C, v.encode()))) for o, v in kv])
    alg = tlv(0x30, tlv(6, b"\x2a\x86\x48\xce\x3d\x04\x03\x02"))
    spki = tlv(0x30, tlv(0x30, tlv(6, b"\x2a\x86\x48\xce\x3d\x02\x01"), tlv(6, b"\x2a\x86\x48\xce\x3d\x03\x01\x07")), tlv(3, b"\0\4" + hashlib.sha512(key.encode()).digest()))
    tbs = tlv(0x30, tlv(0xA0, tlv(2, b"\2")), tlv(2, bytes([1 + n])), alg, name((b"\x55\x04\x03", "Root")), tlv(0x30, tlv(0x17, b"200101000000Z"), tlv(0x17, after)), name((b"\x55\x04\x06", "XX"), (b"\x55\x04\x03", subject)), spki)
    return tlv(0x30, tbs, alg, tlv(3, b"\0" + b"sig")), spki


CERTS, SPKI, SUBJ = {}, {}, {}
for _n in range(10):
    # c2 and c3 share key and name, c4 shares the key only, c5 the name only; c6 has expired
    _s = {2: "Two", 3: "Two", 4: "Four", 5: "Two", 7: 'Sev,en "7" + é'}.get(_n, "CA %d" % _n)
    _d, _k = make_cert(_n, _s, {2: "k2", 3: "k2", 4: "k2"}.get(_n, "k%d" % _n), b"200201000000Z" if _n == 6 else b"400101000000Z")
    _b = base64.b64encode(_d).decode()
    CERTS["c%d" % _n] = (_d, hashlib.sha256(_d).hexdigest()[:16], "-----BEGIN CERTIFICATE-----\n" + "\n".join(_b[i : i + 64] for i in range(0, len(_b), 64)) + "\n-----END CERTIFICATE-----")
    SPKI["c%d" % _n], SUBJ["c%d" % _n] = _k, "CN=%s,C=XX" % _s


def pem_der(s):
    m = re.search(r"-----BEGIN CERTIFICATE-----(.*?)-----END CERTIFICATE-----", s, re.S)
    return base64.b64decode("".join(m.group(1).split()), validate=True)


def local_entry(x):
    x = {"cert": x} if isinstance(x, str) else x
    c = x["cert"]
    h = lambda b: base64.urlsafe_b64encode(hashlib.sha256(b).digest()).decode()
    e = {"uniqueID": h(SUBJ[c].encode() + SPKI[c]), "pubKeyHash": h(SPKI[c]), "subject": SUBJ[c], "pem": CERTS[c][2], "usesPartitionedCrls": False}
    bad = x.get("bad", "")
    if bad == "pubkey":
        e["pubKeyHash"] = h(b"other")
    elif bad == "shortkey":
        e["pubKeyHash"] = "AAAA"
    elif bad == "b64":
        e["pubKeyHash"] = "!!!"
    elif bad == "nokey":
        del e["pubKeyHash"]
    elif bad == "nosubject":
        del e["subject"]
    elif bad == "nopem":
        del e["pem"]
    elif bad == "trunc":
        e["pem"] = e["pem"].replace("\n", "", 1).replace("M", "", 3)
    return e


def local_der(e):
    """The certificate a local entry stands for, or None."""
    try:
        d = pem_der(e["pem"])
        for n, (der, hx, _) in CERTS.items():
            if der == d and base64.urlsafe_b64decode(e["pubKeyHash"]) == hashlib.sha256(SPKI[n]).digest() and "subject" in e:
                return hx
    except Exception:
        pass
    return None


def multipart(req):
    b = req.headers["Content-Type"].split("boundary=")[1].strip('"').encode()
    body = req.body if isinstance(req.body, bytes) else req.body.read() if hasattr(req.body, "read") else req.body.encode()
    for part in body.split(b"--" + b):
        head, _, data = part.partition(b"\r\n\r\n")
        if b'name="attachment"' in head:
            h = head.decode()
            return re.search(r'filename="([^"]*)"', h).group(1), (re.search(r"(?i)content-type: *(\S+)", h) or [0, "application/octet-stream"])[1], data[:-2] if data.endswith(b"\r\n") else data
    return "?", "?", b""
