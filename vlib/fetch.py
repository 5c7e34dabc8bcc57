"""Ingestion: the real ct-fetch against logs under the harness' control, validated against Fetch.tla."""
import json, random, re
from .common import *
from . import traces

PROPS = ["A01", "A02", "A03", "A04", "A05", "A06", "A07", "A08"]
FAM = traces.Family("fetch", "fetch", "FetchTrace", "MCF1/MCFetch over Fetch")

GOOD = ["a0", "b1", "pre", "presig", "samekey", "short", "hibit", "a2", "one", "long", "presigx", "nulls", "h59", "h00", "midnight", "h23", "b3",
        "farpast2050", "soon", "zeast", "zwest", "neg", "zero", "nonmin", "a4", "b5", "selfkey1", "selfkey2", "selfname", "selfkeyname", "isca", "noeku", "othereku", "nosubject", "notyet", "shortlived", "longchain"]
MIX = ["a0", "b1", "exp", "pre", "presig", "samekey", "root", "short", "hibit", "exppre", "a2", "one", "long", "presigx", "nulls", "h59", "h00", "midnight",
       "h23", "b3", "expold", "farpast2050", "soon", "zeast", "zwest", "neg", "zero", "nonmin", "a4", "b5", "selfkey1", "selfkey2", "selfname", "selfkeyname", "isca", "noeku", "othereku", "nosubject", "notyet", "shortlived", "longchain"]
FEW = ["a0", "b1", "exp", "a2", "presig"]


def R(id="A", kinds=FEW, **kw): return dict({"id": id, "kind": "rfc", "local": "yes", "kinds": kinds, "ts0": 1000, "mmd": 0}, **kw)
def T(id="A", kinds=FEW, **kw): return R(id, kinds, kind="tiled", **kw)
def grow(n, log="A"): return {"op": "grow", "log": log, "n": n}
def run(*at, **kw): return dict({"op": "run", "at": list(at)}, **kw)
def t(c, n, act, cnt=1): return {"c": c, "n": n, "cnt": cnt, "act": act}
def lie(*ls, log="A"): return {"op": "lie", "log": log, "lies": [dict(l) for l in ls]}
def op(o, **kw): return {"op": o, **kw}


SETTLE, AGE, COMMIT, FLUSH = (op(x) for x in ("settle", "age", "commit", "flush"))


def Sc(id, batch, logs, steps, slow=0, **kw):
    return dict({"id": id, "batch": batch, "logs": logs, "steps": steps}, **kw)


RFC_LIES = ["alterts", "altercert", "dup", "swap", "missing", "insert", "junk", "rootalt", "fork", "proofbad", "proofzero", "prooftrunc", "proofextra", "proofempty", "proofswap",
            "proofshort", "surplus", "emptyents", "drop", "reverse", "sthsmall", "sthzero"]
TILED_LIES = ["alterts", "altercert", "dup", "swap", "missing", "insert", "junk", "rootalt", "fork", "surplus", "emptyents", "drop", "reverse", "tiletrunc", "hashtile", "tilefork",
              "ckptkey", "ckptsize", "ckptts", "ckptroot", "ckptsig", "sthsmall", "sthzero"]
HFAULTS = ["status:500", "status:404", "status:503", "status:200", "reset", "garbage", "empty", "trunc"]
WERR = ["err:OOM command not allowed when used memory > 'maxmemory'.", "err:ERR injected", "drop", "droppost"]


# ------------------------------------------------------------------ families
def fam_sizes(r, deep):
    """Sizes of logs and batches, growing in two steps."""
    for b in ((4, 5, 8, 12, 16, 64) if deep else (4, 8, 16)):
        for n in (range(0, 42) if deep else list(range(0, 14)) + [17, 23, 33]):
            for m in ((0, 1, 3, 9, 20) if deep else (r.choice([0, 1, 2, 3]), r.choice([5, 9, 13]))):
                yield Sc("size-%d-%d-%d" % (b, n, m), b, [R(kinds=MIX[n % 7:] + MIX[:n % 7])], [grow(n), run(), grow(m), SETTLE])
    for b, ns in ((1, (1, 4, 7)), (2, (3, 4, 5, 6, 9)), (3, (4, 5, 7, 10)), (7, (8, 9, 10, 23)), (32, (31, 33, 34, 35, 64, 100)), (128, (129, 130, 131, 300))):
        for n in ns:
            yield Sc("sizeb-%d-%d" % (b, n), b, [R(kinds=MIX)], [grow(n), SETTLE, grow(3), SETTLE])


def fam_tsizes(r, deep):
    """Sizes of tiled logs around the borders of tiles and batches."""
    for b in ((4, 16, 100, 256, 1000) if deep else (4, 256)):
        for n in ((0, 1, 2, 3, 5, 16, 17, 100, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600, 768, 770) if deep else (0, 1, 2, 5, 255, 256, 257, 512, 520)):
            for m in ((0, 1, 2, 255, 256, 300) if deep else (r.choice([0, 1, 2]), r.choice([250, 256, 300]))):
                yield Sc("tsize-%d-%d-%d" % (b, n, m), b, [T(kinds=MIX[n % 5:] + MIX[:n % 5])], [grow(n), run(), grow(m), SETTLE])


def fam_kinds(r, deep):
    """Every kind of certificate and timestamp, alone and mixed, in both kinds of log."""
    for i, k in enumerate(GOOD + ["exp", "exppre", "expold", "root"]):
        yield Sc("kind-%s" % k, 4, [R("A", [k]), T("B", [k]), R("C", [k, "a0"], ts0=40, mmd=86400)], [grow(5, "A"), grow(3, "B"), grow(6, "C"), run(), COMMIT, SETTLE])
    for i in range(20 if deep else 6):
        ks = r.sample(MIX, 9)
        yield Sc("kinds-%d" % i, r.choice([4, 8, 9]), [R("A", ks, ts0=r.choice([100, 100000])), T("B", ks), R("C", MIX, slash=True)], [grow(20, "A"), grow(30, "B"), grow(31, "C"), run(), grow(9, "A"), SETTLE])


HIST = [("rn", "rfc", 8, 21, []), ("ru", "rfc", 8, 12, ["settle", 19]), ("tn", "tiled", 16, 40, []), ("tu", "tiled", 16, 40, ["settle", 300])]


def before(kind, n, h):
    """A log's history before the run of interest."""
    s = [grow(n)]
    if h:
        s += [SETTLE, grow(h[1]), AGE]
    return s


def log1(kind, **kw): return [R(**kw)] if kind == "rfc" else [T(**kw)]


def fam_killhttp(r, deep):
    """Killed or asked to stop at each request to the log."""
    for nm, kind, b, n, h in HIST:
        for k in range(1, 14):
            for a in ("kill", "killpost", "term", "int"):
                if not deep and (a in ("killpost", "int") and k % 2 or kind == "tiled" and k % 2):
                    continue
                yield Sc("kh-%s-%d-%s" % (nm, k, a), b, log1(kind), before(kind, n, h) + [run(t("http", k, a)), SETTLE])


def fam_killcmd(r, deep):
    """Killed or asked to stop at each command to the cache."""
    for nm, kind, b, n, h in HIST:
        for k in range(1, 60 if deep else 44):
            for a in ("kill", "killpost", "term"):
                if not deep and (k * 7 + len(a) + len(nm)) % 3:
                    continue
                yield Sc("kc-%s-%d-%s" % (nm, k, a), b, log1(kind, kinds=MIX[1:]), before(kind, n, h) + [run(t("cmd", k, a)), SETTLE])
        for c in ("sadd", "set", "expireat", "get"):
            for k in range(1, 5):
                yield Sc("kw-%s-%s-%d" % (nm, c, k), b, log1(kind), before(kind, n, h) + [run(t(c, k, "kill" if k % 2 else "killpost")), run(t(c, k, "term")), SETTLE])


def fam_wfault(r, deep):
    """The cache refuses writes and the process is stopped or killed before it can try again."""
    for nm, kind, b, n, h in HIST:
        for c in ("sadd", "set", "expireat"):
            for k in ((1, 2, 3, 4, 5) if deep else (1, 2, 4)):
                for i, w in enumerate(WERR):
                    for a in ("kill", "term"):
                        if not deep and (k + i + len(a)) % 3:
                            continue
                        # the refused command is the last thing that happens but for requests already under way
                        if (k + i) % 2 == 0 or deep:    # writes are possible again by the time the process stops
                            yield Sc("wr-%s-%s-%d-%d-%s" % (nm, c, k, i, a), b, log1(kind), before(kind, n, h) + [run(t(c, k, w, 1 if w[0] == "e" else 4), t(c, k, "later:%s:300" % a)), SETTLE])
                        yield Sc("wf-%s-%s-%d-%d-%s" % (nm, c, k, i, a), b, log1(kind), before(kind, n, h) + [run(t(c, k, w, 999), t(c, k, "later:%s:300" % a)), SETTLE])


def fam_slow(r, deep):
    """The cache refuses writes for a while and the process goes on: nothing may be lost.  Takes half a minute each."""
    cs = []
    for nm, kind, b, n, h in HIST:
        for c in ("sadd", "set", "expireat"):
            for k in (1, 2, 3, 5, 7):
                for i, w in enumerate(WERR):
                    cs.append((nm, kind, b, n, h, c, k, i, w))
    if not deep:
        cs = r.sample(cs, 26)
    for nm, kind, b, n, h, c, k, i, w in cs:
        cnt = 1 if w.startswith("err") else 4
        yield Sc("slow-%s-%s-%d-%d" % (nm, c, k, i), b, log1(kind), before(kind, n, h) + [run(t(c, k, w, cnt)), SETTLE])
    # writes are refused twice; two logs share the writer; the failing batch is a full one without a position
    for i, (c, k, w) in enumerate([("sadd", 1, WERR[0]), ("sadd", 9, WERR[2]), ("set", 2, WERR[0]), ("sadd", 14, WERR[1])] * (3 if deep else 1)):
        yield Sc("slow2-%d" % i, (4, 8, 16)[i % 3], [R("A"), T("B"), R("C")], [grow(20, "A"), grow(40, "B"), grow(9, "C"), run(t(c, k, w, 1 if w[0] == "e" else 4)), SETTLE])
    for i in range(12 if deep else 4):
        kind = ("rfc", "tiled")[i % 2]
        yield Sc("slowf-%d" % i, 8, log1(kind), [grow(20), run(t("sadd" if i % 4 < 2 else "set", 1 + i, WERR[i % 4], 1 if i % 4 < 2 else 4), t("sth", 3, "grow:A:9"), forever=True), SETTLE])


def fam_lies(r, deep):
    """Logs that misbehave in every way known, in their first pass, in an update and in a backfill."""
    for kind, lies in (("rfc", RFC_LIES), ("tiled", TILED_LIES)):
        for li in lies:
            for i in ((0, 1, 3, 7, 8, 12, 15, 19) if deep else (0, 3, 8, 12, 15)):
                for ph in ("first", "update", "back"):
                    if not deep and ph != ("first", "update", "back")[(i + len(li)) % 3] and i not in (3, 12):
                        continue
                    if ph == "back" and kind == "tiled":
                        continue
                    b = 8
                    pre = {"first": [grow(20)], "update": [grow(6), SETTLE, grow(14), AGE], "back": [grow(20), run()]}[ph]
                    yield Sc("lie-%s-%s-%d-%s" % (kind, li, i, ph), b, log1(kind), pre + [lie({"kind": li, "i": i}), run(), AGE, run(), lie(), SETTLE])
        # lies that fit together
        for i in range(60 if deep else 20):
            ls = [{"kind": r.choice(lies), "i": r.randrange(20)} for _ in range(2)]
            yield Sc("lies-%s-%d" % (kind, i), 8, log1(kind, kinds=MIX), [grow(r.choice([4, 9, 13, 20])), run(), lie(*ls), run(), grow(r.choice([0, 5, 8])), AGE, run(), lie(), grow(1), SETTLE])


def fam_hfault(r, deep):
    """Requests fail: errors, nonsense, cut off."""
    for nm, kind, b, n, h in HIST:
        for k in range(1, 12):
            for i, a in enumerate(HFAULTS):
                if not deep and (k + i + len(nm)) % 3:
                    continue
                yield Sc("hf-%s-%d-%d" % (nm, k, i), b, log1(kind), before(kind, n, h) + [run(t("http", k, a, 3 if i % 2 else 1)), AGE, SETTLE])
    for c in ("sth", "proof", "ents", "tile", "issuer"):
        for i, a in enumerate(HFAULTS):
            kind = "tiled" if c in ("tile", "issuer") or i % 2 and c != "proof" else "rfc"
            if kind == "tiled" and a == "reset":
                continue
            yield Sc("hfc-%s-%d" % (c, i), 8, log1(kind, kinds=MIX), [grow(21), run(t(c, 1, a, 999)), AGE, run(t(c, 2, a, 999)), SETTLE])


def fam_growth(r, deep):
    """The log grows, or changes how much it serves, at each request."""
    for nm, kind, b, n, h in HIST:
        for k in range(1, 13 if deep else 9):
            for g in ((1, 7, 30, 300) if deep else (7, 30)):
                yield Sc("gr-%s-%d-%d" % (nm, k, g), b, log1(kind), before(kind, n, h) + [run(t("http", k, "grow:A:%d" % g), t("http", k + 2, "page:A:%d" % (k % 3 + 1))), SETTLE])
    for p in ((1, 2, 3, 4, 5, 7) if deep else (1, 2, 3, 7)):
        for n in (10, 21, 33):
            yield Sc("page-%d-%d" % (p, n), 16, log1("rfc", page=p, kinds=MIX), [grow(n), run(), grow(5), SETTLE])
    # front ends that disagree about the size
    for n, s in ((20, 1), (20, 5), (20, 12), (9, 8), (33, 16)):
        for kind in ("rfc", "tiled"):
            yield Sc("stale-%s-%d-%d" % (kind, n, s), 8, log1(kind), [grow(n), run(), op("stale", log="A", n=s), AGE, run(), AGE, run(), op("stale", log="A", n=0), SETTLE])


def fam_enrol(r, deep):
    """Which logs are enrolled, locally and remotely; failing logs beside healthy ones."""
    for rem in ("", "ok", "err", "garbage", "nodata", "down"):
        for i in range(5 if deep else 2):
            logs = []
            for j, l in enumerate("ABCDE"):
                x = (R if (i + j) % 3 else T)(l)
                x["local"] = (["yes", "yes", "no", "", "yes"][j] if i == 0 else r.choice(["yes", "yes", "no", ""]))
                x["remote"] = (["", "no", "yes", "yes", "yes"][j] if i == 0 else r.choice(["yes", "no", ""])) if rem else ""
                if not x["local"] and not x["remote"]:
                    x["local"] = "yes"
                logs.append(x)
            logs[0]["local"] = "yes"
            if logs[0]["remote"] == "no":
                logs[0]["remote"] = "yes"
            yield Sc("enrol-%s-%d" % (rem or "none", i), 8, logs, [grow(6 + j, l) for j, l in enumerate("ABCDE")] + [run(), run(env=["GOMAXPROCS=1"]), SETTLE], remote=rem)
    for i, br in enumerate(["status:500", "status:404", "reset", "garbage", "status:429"]):
        for kind in ("rfc", "tiled"):
            logs = [dict(log1(kind)[0], id="X", broken=br), R("A"), T("B"), R("C", kinds=MIX)]
            if br in ("status:429", "reset") and kind == "tiled":
                continue                # it is tried again for minutes
            yield Sc("broken-%s-%d" % (kind, i), 8, logs, [grow(9, x) for x in "XABC"] + [run(), SETTLE])
    # many logs, few processors
    for i in range(10 if deep else 4):
        logs = [(R if j % 3 else T)("L%d" % j, kinds=MIX if j % 2 else FEW) for j in range(9)]
        yield Sc("many-%d" % i, r.choice([4, 8, 16]), logs, [grow(r.choice([1, 4, 5, 9, 17]), "L%d" % j) for j in range(9)] + [run(env=["GOMAXPROCS=%d" % (i % 3 + 1)]), grow(4, "L1"), run(), SETTLE])
    for i in range(30 if deep else 12):
        yield Sc("quick-%d" % i, 8, [R("A"), R("B")] if i % 2 else [R("A")], [grow(5 + i % 4, "A")] + [grow(4, "B")] * (i % 2) + [run(env=["GOMAXPROCS=%d" % (i % 4 + 1)]) for _ in range(2)])


def fam_cache(r, deep):
    """Entries move to storage, the cache is lost, keys of older versions, reads that fail."""
    for nm, kind, b, n, h in HIST:
        for i in range(3 if deep else 1):
            yield Sc("cm-%s-%d" % (nm, i), b, log1(kind, kinds=MIX), before(kind, n, h) + [SETTLE, COMMIT, grow(5 + i), AGE, run(), FLUSH, run(), COMMIT, grow(7), SETTLE])
            yield Sc("cl-%s-%d" % (nm, i), b, log1(kind, kinds=MIX), before(kind, n, h) + [run(), COMMIT, FLUSH, run(t("cmd", 6 + 5 * i, "kill")), op("flush"), SETTLE])
        yield Sc("old-%s" % nm, b, log1(kind), before(kind, n, h) + [run(), op("oldkey", log="A"), grow(5), AGE, run(), op("oldkey", log="A"), SETTLE])
        for k in range(1, 6):
            for w in ("err:ERR injected", "err:LOADING Redis is loading the dataset in memory", "drop", "droppost"):
                yield Sc("rf-%s-%d-%s" % (nm, k, w.split()[0][-4:]), b, log1(kind), before(kind, n, h) + [run(), AGE, run(t("get", k, w, 1 if w[0] == "e" else 5)), SETTLE])
    yield Sc("oldk", 8, [R("A", slash=True), T("B", slash=True)], [grow(20, "A"), grow(30, "B"), run(), op("oldkey", log="A"), op("oldkey", log="B"), run(t("set", 1, "kill")), run(), SETTLE])


def fam_delay(r, deep):
    """The cache is slow while the log is fast, and the other way round."""
    for nm, kind, b, n, h in HIST:
        for c, ms in (("sadd", 30), ("set", 40), ("sadd", 5), ("ents", 30), ("sth", 40)):
            for a in ("", "kill", "term"):
                at = [t(c, 1, "delay:%d" % ms, 6)]
                if a:
                    at.append(t("http", r.randint(3, 9), a))
                yield Sc("dl-%s-%s%d-%s" % (nm, c, ms, a), b, log1(kind), before(kind, n, h) + [run(*at), run(), SETTLE])


def fam_forever(r, deep):
    """A fetcher that keeps running while logs grow and fail."""
    for i in range(16 if deep else 6):
        kind = ("rfc", "tiled")[i % 2]
        at = [t("sth", 2, "grow:A:9"), t("sth", 4, "grow:A:%d" % (3 if kind == "rfc" else 300))]
        if i % 3 == 1:
            at.append(t("http", 5, "status:503", 2))
        if i % 3 == 2:
            at.append(t("ents", 2, "reset", 1))
        logs = log1(kind, kinds=MIX) + ([R("B"), T("C")] if i % 4 == 3 else [])
        yield Sc("fe-%d" % i, 8, logs, [grow(13)] + [grow(9, x["id"]) for x in logs[1:]] + [run(*at, forever=True), SETTLE])


def fam_random(r, deep):
    """Random histories."""
    for i in range(300 if deep else 40):
        logs = []
        for l in "AB"[:r.choice([1, 1, 2])]:
            logs.append((R if r.random() < .65 else T)(l, kinds=r.sample(MIX, r.randint(2, 9)), page=r.choice([0, 0, 1, 3, 7]), slash=r.random() < .2))
        st = []
        for l in logs:
            st.append(grow(r.choice([0, 1, 3, 4, 5, 9, 14, 25]), l["id"]))
        for _ in range(r.randint(2, 6)):
            x = r.random()
            l = r.choice(logs)
            at = []
            if r.random() < .35:
                at.append(t(r.choice(["http", "cmd", "sadd", "set", "ents"]), r.randint(1, 12), r.choice(["kill", "killpost", "term"])))
            if r.random() < .3:
                at.append(t("http", r.randint(1, 9), "grow:%s:%d" % (l["id"], r.randint(1, 12))))
            if r.random() < .25:
                at.append(t(r.choice(["http", "ents", "sth"]), r.randint(1, 9), r.choice(HFAULTS[:3] + HFAULTS[4:])))
            if r.random() < .15:
                at.append(t("ents", r.randint(1, 5), "lie:%s:%s:%d" % (l["id"], r.choice(["alterts", "altercert", "swap", "drop", "surplus", "fork"]), r.randint(0, 12))))
            if x < .15:
                st += [COMMIT]
            elif x < .35:
                st += [grow(r.choice([1, 2, 6, 11]), l["id"])]
            elif x < .45:
                st += [lie({"kind": r.choice(RFC_LIES if l["kind"] == "rfc" else TILED_LIES), "i": r.randint(0, 15)}, log=l["id"])]
            elif x < .5:
                st += [op("sthts", log=l["id"], n=r.randint(1, 500))]
            if r.random() < .6:
                st.append(AGE)
            st.append(run(*at))
        for l in logs:
            st.append(lie(log=l["id"]))
        yield Sc("rnd-%d" % i, r.choice([4, 5, 8, 16]), logs, st + [SETTLE])


# --------------------------------------------- behaviours of the design (TLC)
def translate(h, tiled):
    sc = 86 if tiled else 1
    st, cur, http, sets, sadd, last, flushes = [], None, 0, 0, 0, "", 0
    liekind = {"alter": "altercert", "fork": "fork", "proofbad": "proofbad", "empty": "emptyents"}
    for x in h:
        o = x["op"]
        if o == "begin":
            cur = run()
            st += [AGE, cur]
            http = sets = flushes = 0
        elif o == "http":
            http += 1
        elif o in ("flush", "take"):
            flushes += o == "flush"
        elif o == "save":
            sets += 1
        elif o == "grow":
            if cur is None:
                st.append(grow(x["n"] * sc))
            else:
                cur["at"].append(t("http", http + 1, "grow:A:%d" % (x["n"] * sc)))
        elif o == "lie":
            k, i = x["kind"], x["i"] * sc
            if k == "down":
                if cur is None:
                    continue
                cur["at"].append(t("http", http + 1, "status:500", 3))
            elif cur is None:
                st.append(lie({"kind": liekind[k], "i": i}) if k != "none" else lie())
            else:
                cur["at"].append(t("http", http + 1, "lie:A:%s:%d" % (liekind[k], i) if k != "none" else "lie:A:"))
        elif o in ("kill", "term"):
            if last == "flush":
                cur["at"].append(t("set", sets + 1, o))
            elif last == "save":
                cur["at"].append(t("set", max(1, sets), "killpost" if o == "kill" else "term"))
            elif last == "take":
                cur["at"].append(t("sadd", 2 * flushes + 1, o))
            else:
                cur["at"].append(t("http", http + 1, o))
            if o == "kill":
                cur = None
        elif o == "quit":
            cur["at"] += [t("sadd", 2 * flushes + 1, WERR[0], 999), t("set", sets + 1, WERR[0], 999), t("sadd", 2 * flushes + 1, "later:term:200"), t("set", sets + 1, "later:term:200")]
        elif o == "end":
            cur = None
        elif o == "commit":
            st.append(COMMIT)
        elif o == "lose":
            st.append(FLUSH)
        last = o
    return st


def scripts(text, limit, tag, tiled):
    seen, out = set(), []
    for m in re.finditer(r'^"SCRIPT (.*)"$', text, re.M):
        h = json.loads(m.group(1).replace('\\"', '"'))
        st = translate(h, tiled)
        key = json.dumps(st)
        if key not in seen:
            seen.add(key)
            out.append(st)
    rr = random.Random(tag)
    rr.shuffle(out)
    lg = T(kinds=["a0", "b1", "exp", "a2", "pre", "presig", "one", "b3"] + GOOD) if tiled else R(kinds=["a0", "b1", "exp", "a2", "pre", "presig", "one", "b3"] + GOOD)
    return [Sc("mc-%s-%d" % (tag, i), 256 if tiled else 4, [lg], st + [lie(), SETTLE]) for i, st in enumerate(out[:limit])]


FAMS = {"sizes": fam_sizes, "tsizes": fam_tsizes, "kinds": fam_kinds, "killhttp": fam_killhttp, "killcmd": fam_killcmd, "wfault": fam_wfault, "slow": fam_slow, "lies": fam_lies,
        "hfault": fam_hfault, "growth": fam_growth, "enrol": fam_enrol, "cache": fam_cache, "delay": fam_delay, "forever": fam_forever, "rnd": fam_random}
QUICK = {
    "A01": ["killhttp", "killcmd", "wfault", "tsizes", "growth", "delay", "rnd"],
    "A02": ["lies", "rnd", "hfault", "growth"],
    "A03": ["cache", "sizes", "tsizes", "killhttp", "growth", "rnd"],
    "A04": ["sizes", "tsizes", "killhttp", "growth", "cache", "forever", "rnd"],
    "A05": ["kinds", "sizes", "lies", "rnd", "tsizes"],
    "A06": ["growth", "lies", "sizes", "tsizes", "kinds", "rnd", "cache"],
    "A07": ["enrol", "hfault", "lies", "rnd", "kinds"],
    "A08": ["slow", "wfault"],
}
MCCFG = {"A01": ["MCF1_mix"], "A02": ["MCF1_lieq"], "A03": ["MCF1_loss"], "A04": ["MCF1_live", "MCF1_tlive"], "A05": ["MCF1_kill"], "A06": ["MCF1_lieq"], "A07": ["MCF1_tiledq"], "A08": ["MCF1_mix"]}
DEEPCFG = ["MCF1_mix", "MCF1_lie", "MCF1_loss", "MCF1_tiled", "MCF1_live", "MCF1_tlive", "MCF1_lielive", "MCF1_kill"]


def scenarios(pid, deep):
    out = []
    for f in (FAMS if deep else QUICK[pid]):
        out += list(FAMS[f](random.Random("%s/%s/%s" % (SEED, f, "deep" if deep else pid)), deep))
    return out


def slowness(s):
    """Long scenarios first."""
    return 0 if s["id"].startswith("slow") else 1 if s["id"].startswith("fe-") else 2


def check(pid, tier, t0):
    deep = tier == "thorough"
    work = scratch()
    build()
    mcs = [Tlc("MCF1", c + ".cfg", workers=4 if deep else 2, timeout=1500) for c in (DEEPCFG if deep else MCCFG[pid])]
    h = int(hashlib.sha256(("%s/%s" % (pid, SEED)).encode()).hexdigest()[:6], 16)
    sims = [Tlc("MCF1", "MCF1_sim%d.cfg" % n, args=["-simulate", "num=%d" % (600 if deep else 120), "-depth", "70", "-seed", str(h + n)], workers=1) for n in (1, 2, 3)]
    scs = scenarios(pid, deep)
    for n, s in enumerate(sims):
        s.wait()
        if "violated" in s.text:
            raise Trouble("simulation of the design violates a property:\n" + s.text[-2000:])
        scs += scripts(s.text, 200 if deep else 25, "%s-%d" % (pid, n), n == 1)
    nmc = sum(1 for s in scs if s["id"].startswith("mc-"))
    byid = {s["id"]: s for s in scs}
    scs = sorted(byid.values(), key=slowness)
    o, res = traces.execute(FAM, scs, work, jobs=40 if deep or pid == "A08" else 20, timeout=3000 if deep else 600)
    errs = [r for r in res if r.get("err")]
    broken, ntr, states, _ = traces.validate(FAM, o, work, chunks=6, timeout=3000 if deep else 600)
    mc_d = mc_g = 0
    for m in mcs:
        d, g = model_check(m, "MCF1")
        mc_d += d
        mc_g += g
    return traces.finish(FAM, pid, tier, t0, scs, byid, res, errs, broken, ntr, states, mc_d, mc_g, nmc, work)


def replay(pid, obj, t0):
    return traces.replay(FAM, pid, obj, t0)
