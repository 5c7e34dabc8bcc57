"""Cache/storage pipeline: scenarios for the real programs, validated against Store.tla."""
import json, os, random, re, subprocess, threading, time
from .common import *
from . import traces

FAM = traces.Family("store", "pipeline", "StoreTrace", "MC1/MCCommit over Store")

PROPS = ["S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "S09", "S10", "K01", "K02", "K03"]


# ------------------------------------------------------------------ fixtures
def B(id, iss, kind="future", k=1):
    return {"id": id, "issuer": iss, "kind": kind, "k": k}


def E(id, log, ts, ser, bin, legacy=False):
    return {"id": id, "log": log, "ts": ts, "serial": ser, "bin": bin, "legacy": legacy}


def L(id, mmd=1):
    return {"id": id, "mmd": mmd}


class Sc:
    """A scenario under construction."""

    def __init__(self, id, fx, steps=None, **kw):
        self.d = {"id": id, "steps": list(steps or []), **fx, **kw}

    def __iadd__(self, steps):
        self.d["steps"] += steps if isinstance(steps, list) else [steps]
        return self


def ingest(*e, **kw): return {"op": "ingest", "e": list(e), **kw}
def commit(**kw): return {"op": "commit", "proc": "commit", **kw}
def known(**kw): return {"op": "commit", "proc": "known", "name": "D", **kw}
def op(o, **kw): return {"op": o, **kw}


ENSURE, FLUSH, LOCKEXP, REFETCH, SAVEALL, EXPECT, JOIN = (op(x) for x in ("ensure", "flush", "lockexpire", "refetch", "saveall", "expect", "join"))
TAIL = [JOIN, LOCKEXP, ENSURE, REFETCH, SAVEALL, commit(), EXPECT]
TAILK = [JOIN, LOCKEXP, ENSURE, REFETCH, SAVEALL, known(), EXPECT]
DIFF = [op("saveall", maxts=60000), commit(), EXPECT]      # everything covered: a last, complete commit

# two issuers with three bins, a third that is not enrolled, two logs, legacy entries
STD = {"bins": [B("b1", "I1", "future", 1), B("b2", "I1", "future", 2), B("b3", "I2", "future", 3), B("b4", "I2", "day", 2), B("b5", "I3", "future", 4)],
       "logs": [L("L1", 1), L("L2", 2)],
       "entries": [E("e1", "L1", 1000, "01", "b1"), E("e2", "L1", 2000, "02", "b2"), E("e3", "L1", 3000, "03", "b1"), E("e4", "L1", 5001, "04", "b3"),
                   E("e5", "L1", 4200, "05", "b1"), E("e6", "L1", 9000, "06", "b2"), E("e7", "L1", 9500, "07", "b5"), E("e8", "L1", 12000, "08", "b3"),
                   E("f1", "L2", 2000, "01", "b1"), E("f2", "L2", 4000, "0a", "b3"), E("f3", "L2", 9000, "0b", "b1"), E("f4", "L2", 12000, "0c", "b5"),
                   E("g1", "L1", 0, "0d0d", "b1", True), E("g2", "L1", 0, "00", "b4", True)],
       "issuers": ["I1", "I2", "I3"], "enroll": ["I1", "I2"], "threads": 2}
# a small one, for enumerations
SML = {"bins": [B("b1", "I1", "future", 1), B("b2", "I2", "future", 2)], "logs": [L("L1", 1)],
       "entries": [E("e1", "L1", 1000, "01", "b1"), E("e2", "L1", 2000, "02", "b2"), E("e3", "L1", 3000, "03", "b1"),
                   E("e4", "L1", 5000, "04", "b1"), E("e5", "L1", 7000, "05", "b2"), E("e6", "L1", 9000, "06", "b1")],
       "issuers": ["I1", "I2"], "enroll": ["I1", "I2"], "threads": 1}
EXPB = dict(STD, bins=STD["bins"] + [B("p1", "I1", "past", 1), B("p2", "I2", "dayPast", 1), B("q1", "I2", "edge", 0), B("q2", "I3", "dayEdge", 0), B("q3", "I1", "next", 0)])
PRE = [op("prestore", bin="p1", s=["aa"]), op("prestore", bin="p2", s=["ab", "ac"]), op("prestore", bin="q1", s=["ad"]), op("prestore", bin="q2", s=["ae"]), op("prestore", bin="q3", s=["af", "b0"])]

# an issuer with many bins; entries that arrive late although they are below the cut-off
MANY = {"bins": [B("b%d" % i, "I1", "future", i) for i in range(1, 7)] + [B("b7", "I2", "future", 7)], "logs": [L("L1", 1)],
        "entries": [E("m%d" % i, "L1", 1000 + i, "0%d" % i, "b%d" % i) for i in range(1, 8)] + [E("z%d" % i, "L1", 400 + i, "1%d" % i, "b%d" % i) for i in range(1, 6)] + [E("y1", "L1", 9000, "20", "b1")],
        "issuers": ["I1", "I2"], "enroll": ["I1", "I2"], "threads": 2}
MANY1 = ["m1", "m2", "m3", "m4", "m5", "m6"]
LATE = dict(SML, entries=SML["entries"] + [E("z1", "L1", 100, "0e", "b1"), E("z2", "L1", 150, "0f", "b2")])

STD1, STD2 = ["e1", "e2", "e3", "e4", "f1", "f2", "g1", "g2"], ["e5", "e6", "e7", "f3"]
SML1, SML2 = ["e1", "e2", "e3"], ["e4", "e5"]


def first(fx, a): return [ENSURE, ingest(*a), SAVEALL]
def later(fx, a, b): return first(fx, a) + [commit(), ingest(*b), SAVEALL]


def phases():
    yield "s1", SML, first(SML, SML1)
    yield "s2", SML, later(SML, SML1, SML2)
    yield "t1", EXPB, [ENSURE] + PRE + [ingest(*STD1), SAVEALL]
    yield "t2", EXPB, [ENSURE] + PRE + [ingest(*STD1), SAVEALL, known(), ingest(*STD2), SAVEALL]


CLS = ["lock", "lockchk", "epoch", "scanlogs", "getlog", "scanserials", "read:b1", "rem:b1", "read:b2", "rem:b2", "incr", "unlock"]
CLSK = 14     # commands of a commit over SML
CLST = 26     # ... over EXPB


# ------------------------------------------------------------------ families
def fam_kill(R, deep):
    """Killed before or after each command of a commit."""
    for ph, fx, pre in phases():
        for proc in ("commit", "known"):
            for k in range(1, (CLSK if ph[0] == "s" else CLST) + 1):
                for w in ("pre", "post"):
                    if not deep and ph[0] == "t" and (k + (w == "pre") + (proc == "known")) % 2:
                        continue
                    x = commit(at=[{"k": k, "kill": w}]) if proc == "commit" else known(at=[{"k": k, "kill": w}])
                    yield Sc("kill-%s-%s-%d%s" % (ph, proc, k, w), fx, pre + [x] + (TAIL if k % 2 else TAILK) + (DIFF if w == "pre" else []))
    # two kills in a row, and a kill of the retry without a restart of the fetcher
    for k in range(4, CLSK):
        for j in ((2, 5, 8, 11) if deep else (5, 9)):
            yield Sc("kill2-%d-%d" % (k, j), SML, later(SML, SML1, SML2) + [commit(at=[{"k": k, "kill": "pre"}]), LOCKEXP, commit(at=[{"k": j, "kill": "post"}]),
                     LOCKEXP, ingest("e6"), SAVEALL, commit()] + TAIL)


FAULTS = ["ERR injected", "LOADING Redis is loading the dataset in memory", "OOM command not allowed when used memory > 'maxmemory'.", "drop", "droppost"]


def fam_fault(R, deep):
    """A cache command fails or loses its connection."""
    for ph, fx, pre in phases():
        for proc in ("commit", "known"):
            for k in range(1, (CLSK if ph[0] == "s" else CLST) + 1):
                for i, f in enumerate(FAULTS):
                    if not deep and (i != (k + (proc == "known") + len(ph)) % 5 and not (i == 0 and ph == "s2")):
                        continue
                    if f == "droppost" and proc == "known" and k == 1:
                        continue            # it waits for the lock it does not know it has
                    x = commit(at=[{"k": k, "fault": f}]) if proc == "commit" else known(at=[{"k": k, "fault": f}])
                    yield Sc("fault-%s-%s-%d-%s" % (ph, proc, k, f.split()[0]), fx, pre + [x] + TAIL + DIFF)
            # all commands of a class fail
    for c in CLS:
        for f in FAULTS[:1] + ["drop"]:
            x = commit(at=[{"cls": c, "fault": f} for _ in range(16)])
            yield Sc("faults-%s-%s" % (c, f.split()[0]), SML, later(SML, SML1, SML2) + [x] + TAIL + DIFF)


def fam_fskill(R, deep):
    """Killed before or after each file operation."""
    for ph, fx, pre in phases():
        for proc in ("commit", "known"):
            n = {"s1": 26, "s2": 26, "t1": 60, "t2": 60}[ph] + (20 if proc == "known" else 0)
            for k in range(1, n + 1):
                for w in ("pre", "post"):
                    if not deep and (ph == "t1" or w == "post" and k % 3 or ph == "t2" and (k + (proc == "known")) % 3):
                        continue
                    fs = {"ops": "write,fsync,rename,create,mkdir,unlink,chmod,truncate", "n": k, "act": "kill" + w}
                    x = commit(fs=fs) if proc == "commit" else known(fs=fs)
                    yield Sc("fsk-%s-%s-%d%s" % (ph, proc, k, w), fx, pre + [x] + TAIL + DIFF)


def fam_fserr(R, deep):
    """A file operation fails."""
    N = {"write": 9, "fsync": 5, "rename": 5, "create": 6, "mkdir": 3, "openr": 8, "read": 10, "unlink": 3}
    for ph, fx, pre in phases():
        for proc in ("commit", "known"):
            for o, n in N.items():
                if ph[0] == "t":
                    n *= 2
                for k in range(1, n + 1):
                    for a in ("EIO", "ENOSPC", "EACCES"):
                        if a == "EACCES" and o not in ("openr", "create", "mkdir", "unlink"):
                            continue
                        if not deep and (ph == "t1" or ph == "s1" and k % 2 or ph == "t2" and (k + (proc == "known")) % 2 or a != ("EIO", "ENOSPC")[(k + len(o)) % 2]):
                            continue
                        fs = {"ops": o, "n": k, "act": a}
                        x = commit(fs=fs) if proc == "commit" else known(fs=fs)
                        yield Sc("fse-%s-%s-%s%d%s" % (ph, proc, o, k, a), fx, pre + [x] + TAIL + DIFF)
            for o in ("write", "fsync", "rename", "create"):
                for k in ((1, 2, 3, 4, 6, 8) if deep else (1, 3)):
                    fs = {"ops": o, "n": k, "plus": True, "act": "ENOSPC"}
                    x = commit(fs=fs) if proc == "commit" else known(fs=fs)
                    yield Sc("fsp-%s-%s-%s%d" % (ph, proc, o, k), fx, pre + [x] + TAIL + DIFF)


def fam_fsmany(R, deep):
    """A file operation fails for one of many bins of an issuer."""
    for proc in ("commit", "known"):
        for o, n in (("write", 10), ("fsync", 8), ("rename", 8), ("create", 10), ("openr", 16), ("read", 20)):
            for k in range(1, n + 1):
                if not deep and (k + (proc == "known") + len(o)) % 2:
                    continue
                fs = {"ops": o, "n": k, "act": ("EIO", "ENOSPC")[k % 2]}
                x = commit(fs=fs) if proc == "commit" else known(fs=fs)
                n1 = [op("saveall", maxts=1500)]
                yield Sc("fsm-%s-%s%d" % (proc, o, k), MANY, first(MANY, MANY1) + n1 + ([commit(), ingest("z1", "z2", "z3", "z4", "z5")] if k % 2 else []) + [x] + TAIL + DIFF)


def fam_concurrent(R, deep):
    """The fetcher ingests and saves positions while a commit is at each of its commands."""
    ops = {"is": [ingest("e4", "e5", "e6"), SAVEALL], "i": [ingest("e4", "e5")], "s": [op("saveall", maxts=5000)], "iisave": [ingest("e4"), SAVEALL, ingest("e5", "e6"), SAVEALL]}
    for ph, a in (("1", first(SML, SML1)), ("2", first(SML, SML1) + [commit()])):
        for k in range(1, CLSK + 1):
            for n, o in ops.items():
                if not deep and n in ("i", "s") and k % 2:
                    continue
                yield Sc("conc-%s-%d-%s" % (ph, k, n), SML, a + [commit(at=[{"k": k, "ops": o}]), known()] + TAIL + DIFF)
    for k in range(2, CLST, 1 if deep else 2):
        yield Sc("concT-%d" % k, EXPB, [ENSURE] + PRE + [ingest(*STD1), SAVEALL, known(at=[{"k": k, "ops": [ingest(*STD2), SAVEALL]}])] + TAIL + DIFF)
    # entries below the cut-off arrive late (a backfill, an untidy log) while a commit runs
    bf = dict(MANY, threads=2)
    for k in range(3, 30, 1 if deep else 2):
        for n in (0, 1):
            yield Sc("concB-%d-%d" % (n, k), bf, first(bf, MANY1) + [commit()] * n + [ingest("m7"), SAVEALL][:2 * n] + [commit(at=[{"k": k, "ops": [ingest("z1", "z2", "z3")]}, {"k": k + 3, "ops": [ingest("z4", "z5")]}]), known()] + TAIL + DIFF)
    for k in range(3, CLSK + 1):
        yield Sc("concb-%d" % k, LATE, first(LATE, SML1) + [commit(at=[{"k": k, "ops": [ingest("z1", "z2")]}])] + TAIL + DIFF)
    # concurrent ingestion and a kill later on
    for k in range(3, CLSK):
        for j in range(k + 1, CLSK + 1, 1 if deep else 3):
            yield Sc("concK-%d-%d" % (k, j), SML, first(SML, SML1) + [commit(), ingest("e4"), SAVEALL, commit(at=[{"k": k, "ops": [ingest("e5", "e6"), SAVEALL]}, {"k": j, "kill": "pre"}])] + TAIL + DIFF)


def drv(name, raw, **kw): return op("drv", name=name, raw=raw, **kw)


def fam_lock(R, deep):
    """The commit lock: acquire, release, expiry, foreign tokens, races."""
    yield Sc("lock-1", SML, [ENSURE, drv("A", "acquire"), drv("B", "acquire"), drv("A", "has", tok="A"), drv("B", "has", tok="x"), drv("B", "release", tok="x"), drv("A", "release", tok="A"),
                             drv("B", "acquire"), drv("A", "release", tok="A"), drv("B", "has", tok="B"), drv("B", "release", tok="B")])
    yield Sc("lock-2", SML, first(SML, SML1) + [drv("A", "commit", tok="x"), drv("A", "acquire"), drv("B", "commit", tok="x"), commit(), drv("A", "commit", tok="A"), drv("A", "release", tok="A"), commit()] + TAIL)
    yield Sc("lock-3", SML, first(SML, SML1) + [drv("A", "acquire"), LOCKEXP, drv("A", "commit", tok="A"), drv("B", "acquire"), drv("A", "commit", tok="A"), drv("A", "release", tok="A"), drv("B", "has", tok="B"),
                                                drv("B", "commit", tok="B"), drv("B", "release", tok="B")] + TAIL)
    yield Sc("lock-4", SML, first(SML, SML1) + [drv("A", "acquire"), ENSURE, drv("A", "release", tok="A"), commit(), FLUSH, drv("A", "acquire"), ENSURE, drv("A", "release", tok="A"), ENSURE, REFETCH, SAVEALL, commit()] + TAIL)
    yield Sc("lock-5", SML, first(SML, SML1) + [drv("F", "commit", tok="x"), drv("A", "acquire"), drv("F", "commit", tok="A"), drv("A", "release", tok="A"), commit()] + TAIL)
    # the holder is presumed dead while it is releasing
    for c in (1, 2, 3):
        yield Sc("lock-rel-%d" % c, SML, [ENSURE, drv("A", "acquire"), drv("A", "release", tok="A", at=[{"k": c, "ops": [LOCKEXP, drv("B", "acquire")]}]), drv("B", "has", tok="B"), drv("B", "release", tok="B")])
        yield Sc("lock-relb-%d" % c, SML, [ENSURE, drv("A", "acquire"), LOCKEXP, drv("B", "acquire"), drv("A", "release", tok="A", at=[{"k": c, "ops": [drv("C", "acquire")]}]), drv("B", "has", tok="B"), drv("B", "release", tok="B")])
        yield Sc("lock-acq-%d" % c, SML, [ENSURE, drv("A", "acquire", at=[{"k": c, "ops": [drv("B", "acquire")]}]), drv("A", "has", tok="A"), drv("B", "has", tok="B"), drv("A", "release", tok="A"), drv("B", "release", tok="B")])
        yield Sc("lock-acqf-%d" % c, SML, [ENSURE, drv("A", "acquire", at=[{"k": c, "fault": "ERR injected"}]), drv("A", "has", tok="A"), drv("A", "release", tok="A")] + first(SML, SML1) + [commit()] + TAIL)
        yield Sc("lock-relf-%d" % c, SML, [ENSURE, drv("A", "acquire"), drv("A", "release", tok="A", at=[{"k": c, "fault": "ERR injected"}]), LOCKEXP] + first(SML, SML1) + [commit()] + TAIL)
    # another process tries at every command of a commit
    for k in range(1, CLSK + 1):
        for n, o in (("acq", [drv("A", "acquire"), drv("A", "commit", tok="A"), drv("A", "release", tok="A")]), ("com", [commit(name="E")]), ("raw", [drv("A", "commit", tok="x")])):
            yield Sc("lockrace-%d-%s" % (k, n), SML, later(SML, SML1, SML2) + [commit(at=[{"k": k, "ops": o}])] + TAIL)
    for k in range(2, 20, 1 if deep else 2):
        yield Sc("lockraceK-%d" % k, STD, later(STD, STD1, STD2) + [known(at=[{"k": k, "ops": [commit(name="E"), drv("A", "acquire"), drv("A", "release", tok="A")]}])] + TAIL)
        yield Sc("lockens-%d" % k, SML, later(SML, SML1, SML2) + [commit(at=[{"k": k, "ops": [ENSURE]}])] + TAIL)
    # a commit that fails early still releases, a lost pair included
    yield Sc("lock-fail", SML, first(SML, SML1) + [commit(), FLUSH, commit(), drv("A", "acquire"), drv("A", "release", tok="A"), known(), drv("A", "acquire"), drv("A", "release", tok="A")] + TAIL)
    # the storage call with a lost lock in the middle
    for k in range(1, 12):
        yield Sc("lockmid-%d" % k, SML, later(SML, SML1, SML2) + [drv("A", "acquire"), drv("A", "commit", tok="A", at=[{"k": k, "kill": "pre"}]), drv("B", "acquire"), LOCKEXP, drv("B", "acquire"), drv("B", "commit", tok="B"),
                                                                  drv("B", "release", tok="B")] + TAIL)


def fam_loss(R, deep):
    """The cache server (or the storage) is lost or rolled back."""
    L2 = later(SML, SML1, SML2)
    for n in range(0, 3):                                   # number of commits before
        pre = first(SML, SML1) + [commit()] * n
        more = [ingest("e4"), SAVEALL]
        for w in ("commit", "known"):
            x = commit() if w == "commit" else known()
            if n:
                yield Sc("loss-flush-%d-%s" % (n, w), SML, pre + [FLUSH, x] + TAIL + DIFF)
                yield Sc("loss-flush2-%d-%s" % (n, w), SML, pre + more + [FLUSH, x, ENSURE, x] + TAIL + DIFF)
                yield Sc("loss-flushi-%d-%s" % (n, w), SML, pre + [FLUSH, ENSURE, REFETCH, ingest("e5"), x] + TAIL + DIFF)
            yield Sc("loss-roll-%d-%s" % (n, w), SML, pre + more + [op("snap"), ingest("e5"), SAVEALL, x, op("rollback"), x] + TAIL + DIFF)
            yield Sc("loss-roll2-%d-%s" % (n, w), SML, pre + more + [op("snap"), x, commit(), ingest("e5"), SAVEALL, commit(), op("rollback"), x, ENSURE, REFETCH, x] + TAIL + DIFF)
            yield Sc("loss-rolls-%d-%s" % (n, w), SML, pre + more + [op("snap"), ingest("e5"), SAVEALL, op("rollback"), x] + TAIL + DIFF)
            yield Sc("loss-st-%d-%s" % (n, w), SML, pre + more + [op("stsnap"), commit(), op("strollback"), x] + TAIL + DIFF)
            yield Sc("loss-st2-%d-%s" % (n, w), SML, pre + more + [op("stsnap"), commit(), ingest("e5"), SAVEALL, commit(), op("strollback"), x] + TAIL + DIFF)
            # after an interrupted commit
            for k in ((3, 8, 11) if not deep else range(1, CLSK)):
                if n:
                    yield Sc("loss-k-%d-%s-%d" % (n, w, k), SML, pre + more + [commit(at=[{"k": k, "kill": "pre"}]), FLUSH, x] + TAIL + DIFF)
                    yield Sc("loss-kr-%d-%s-%d" % (n, w, k), SML, pre + [op("snap")] + more + [commit(at=[{"k": k, "kill": "post"}]), op("rollback"), x] + TAIL + DIFF)
    # the rewind itself is interrupted, fails or meets another process
    for k in range(1, 12):
        yield Sc("loss-ens-kill-%d" % k, SML, L2 + [commit(), FLUSH, dict(ENSURE, at=[{"k": k, "kill": "pre"}])] + TAIL + DIFF)
        yield Sc("loss-ens-killp-%d" % k, STD, later(STD, STD1, STD2) + [commit(), op("snap"), SAVEALL, commit(), op("rollback"), dict(ENSURE, at=[{"k": k, "kill": "post"}])] + TAIL + DIFF)
        yield Sc("loss-ens-err-%d" % k, SML, L2 + [commit(), FLUSH, dict(ENSURE, at=[{"k": k, "fault": "ERR injected"}])] + TAIL + DIFF)
        yield Sc("loss-ens-com-%d" % k, SML, L2 + [commit(), FLUSH, dict(ENSURE, at=[{"k": k, "ops": [commit()]}])] + TAIL + DIFF)
        yield Sc("ok-ens-com-%d" % k, SML, L2 + [dict(ENSURE, at=[{"k": k, "ops": [commit()]}])] + TAIL + DIFF)
        yield Sc("loss-ens-com2-%d" % k, SML, L2 + [op("snap"), commit(), op("rollback"), dict(ENSURE, at=[{"k": k, "ops": [commit(), drv("A", "acquire"), drv("A", "release", tok="A")]}])] + TAIL + DIFF)
        # the cache is ahead of a storage that was rolled back
        for w in ("pre", "post") if deep else ("pre",):
            yield Sc("loss-ens-st-%d%s" % (k, w), SML, first(SML, SML1) + [commit(), op("stsnap"), ingest("e4"), SAVEALL, commit(), ingest("e5"), SAVEALL, commit(), op("strollback"), dict(ENSURE, at=[{"k": k, "kill": w}])] + TAIL + DIFF)
            yield Sc("loss-ens-stf-%d%s" % (k, w), SML, first(SML, SML1) + [commit(), op("stsnap"), ingest("e4"), SAVEALL, commit(), ingest("e5"), SAVEALL, op("strollback"), dict(ENSURE, at=[{"k": k, "fault": FAULTS[(k + (w == "pre")) % 5]}])] + TAIL + DIFF)
    # ensure is quiet on consistent pairs, at any time
    yield Sc("ok-ens", STD, [ENSURE, ENSURE, ingest(*STD1), ENSURE, SAVEALL, ENSURE, commit(), ENSURE, ENSURE, ingest(*STD2), ENSURE, SAVEALL, commit(), known(), ENSURE, commit()] + TAIL + DIFF)
    yield Sc("ok-empty", SML, [ENSURE, commit(), ENSURE, commit(), known(), ENSURE] + first(SML, SML1)[1:] + [commit()] + TAIL)
    yield Sc("loss-empty", SML, [ENSURE, commit(), commit(), FLUSH, commit(), ENSURE] + first(SML, SML1)[1:] + [commit()] + TAIL)
    for n in (3, 9, 10, 11):                               # generations with several digits
        yield Sc("loss-many-%d" % n, SML, first(SML, SML1) + [commit()] * n + [op("snap"), commit(), ENSURE, commit(), op("rollback"), commit()] + TAIL + DIFF)
        yield Sc("ok-many-%d" % n, SML, first(SML, SML1) + [commit()] * n + [ENSURE, commit(), FLUSH, commit()] + TAIL + DIFF)


def fam_known(R, deep):
    """Overlapping runs that produce known lists."""
    for k in range(1, 20, 1 if deep else 2):
        yield Sc("k3-com-%d" % k, STD, later(STD, STD1, STD2) + [known(at=[{"k": k, "ops": [op("spawn", proc="commit", name="E"), op("sleep", delay=60)]}]), JOIN, ingest("e8", "f4"), SAVEALL] + TAIL)
        yield Sc("k3-kno-%d" % k, STD, later(STD, STD1, STD2) + [known(at=[{"k": k, "ops": [ingest("e8", "f4"), SAVEALL, op("spawn", proc="known", name="E"), op("sleep", delay=60)]}]), JOIN] + TAIL)
    for sig in ("TERM", "INT"):
        for k in range(1, 24, 1 if deep else 2):
            yield Sc("sig-%s-%d" % (sig, k), EXPB, [ENSURE] + PRE + [ingest(*STD1), SAVEALL, commit(), ingest(*STD2), SAVEALL, known(at=[{"k": k, "sig": sig}])] + TAIL)
        for k in range(1, 12, 1 if deep else 3):
            yield Sc("sigc-%s-%d" % (sig, k), SML, later(SML, SML1, SML2) + [commit(at=[{"k": k, "sig": sig}])] + TAIL)
    # waits for the lock, then works; stops waiting when told to
    yield Sc("k3-wait", STD, first(STD, STD1) + [drv("A", "acquire"), op("spawn", proc="known", name="D"), op("sleep", delay=300), drv("A", "release", tok="A"), JOIN] + TAIL)
    yield Sc("k3-waitd", STD, first(STD, STD1) + [drv("A", "acquire"), drv("A", "commit", tok="A"), op("spawn", proc="known", name="D"), op("sleep", delay=300), ingest("e5"), LOCKEXP, JOIN] + TAIL)
    yield Sc("k3-waitsig", STD, first(STD, STD1) + [drv("A", "acquire"), op("spawn", proc="known", name="D", at=[{"k": 2, "sig": "TERM"}]), op("sleep", delay=1500), drv("A", "release", tok="A"), JOIN] + TAIL)
    yield Sc("k3-two", STD, first(STD, STD1) + [op("spawn", proc="known", name="D"), op("spawn", proc="known", name="E"), JOIN, ingest(*STD2), SAVEALL, op("spawn", proc="known", name="D"), op("spawn", proc="commit", name="E"), JOIN] + TAIL)
    for th in (1, 2, 4, 16):
        yield Sc("k1-%d" % th, dict(EXPB, threads=th), [ENSURE] + PRE + [ingest(*STD1), SAVEALL, known(), known(), ingest(*STD2), SAVEALL, known(), ingest("e8", "f4"), known()] + TAILK + [op("saveall", maxts=60000), known()])
        yield Sc("k1e-%d" % th, dict(STD, threads=th, enroll=["I3"]), first(STD, STD1) + [known(), ingest(*STD2), SAVEALL, known()] + TAILK)
        yield Sc("k1n-%d" % th, dict(STD, threads=th, enroll=[]), first(STD, STD1) + [known()] + TAILK)
        yield Sc("k1x-%d" % th, dict(STD, threads=th, enroll=["I1", "I2", "I3"]), [ENSURE, ingest("e1"), known(), ingest("e2", "e3"), SAVEALL, known()] + TAILK)


def fam_cutoff(R, deep):
    """Boundaries of the coverage."""
    cases = []
    for mmd in (0, 1, 2, 60, 86400):
        for mx in (0, 1, mmd * 1000 - 1, mmd * 1000, mmd * 1000 + 1, mmd * 1000 + 5000):
            if mx >= 0:
                cases.append((mmd, mx))
    for i, (mmd, mx) in enumerate(cases):
        cut = max(0, mx - mmd * 1000)
        ts = sorted({t for t in (0, 1, cut - 1, cut, cut + 1, cut + 2, mx - 1, mx) if 0 <= t <= mx})
        other = [E("o%d" % j, "L2", t, "b%d" % j, "b2") for j, t in enumerate((cut, cut + 1))]
        fx = {"bins": [B("b1", "I1"), B("b2", "I1", "future", 3)], "logs": [L("L1", mmd), L("L2", 1)],
              "entries": [E("e%d" % j, "L1", t, "a%d" % j, "b1" if j % 2 else "b2") for j, t in enumerate(ts)] + other, "issuers": ["I1"], "enroll": ["I1"], "threads": 1 + i % 3}
        ids = [e["id"] for e in fx["entries"]]
        for base in (0, 1700000000000):
            if base and cut == 0:
                continue
            yield Sc("cut-%d-%d-%d" % (mmd, mx, base > 0), fx, [ENSURE, ingest(*ids), op("saveall", log="L1"), commit(), known(), op("saveall", log="L1", maxts=1), commit(), op("saveall"), commit()], tsbase=base)
    # shared serials, prefixes, odd lengths of serial and both logs
    sers = ["00", "0000", "000000", "01", "0100", "ff", "ffff" * 10, "7f" * 20, "0a", "0d0a", "22", "2c"]
    fx = {"bins": [B("b1", "I1"), B("b2", "I1", "future", 2), B("b3", "I2")], "logs": [L("L1", 1), L("L2", 0)],
          "entries": [E("e%d" % j, "L1", 1000 + j, s, ("b1", "b2", "b3")[j % 3]) for j, s in enumerate(sers)] + [E("f%d" % j, "L2", 2000 - j, s, ("b1", "b3", "b2")[j % 3]) for j, s in enumerate(sers)],
          "issuers": ["I1", "I2"], "enroll": ["I1", "I2"], "threads": 2}
    ids = [e["id"] for e in fx["entries"]]
    yield Sc("ser-1", fx, [ENSURE, ingest(*ids), SAVEALL, commit(), op("saveall", maxts=9000), commit(), ingest(*ids), commit(), known()] + TAIL + DIFF)
    yield Sc("ser-2", fx, [ENSURE, ingest(*ids[:12]), SAVEALL, commit(), ingest(*ids[12:]), op("saveall", log="L2"), commit(), op("saveall", maxts=9000), known()] + TAIL + DIFF)
    leg = dict(fx, entries=fx["entries"] + [E("g%d" % j, "L1", 0, s, "b1", True) for j, s in enumerate(["00", "1111", "99" * 7 + "aa", "ab" * 20, "31" * 37, "32" * 38, "33" * 39])])
    yield Sc("ser-3", leg, [ENSURE, ingest(*(["g%d" % j for j in range(7)] + ids)), commit(), SAVEALL, commit(), known()] + TAIL + DIFF)


def big(n, m):
    """m entries for the cache; n serials are in storage beforehand."""
    es = [E("x%d" % j, "L1", 1000 + j, "%06x" % (j * 37 + 5), "b%d" % (1 + j % 2)) for j in range(m)]
    pre = [op("prestore", bin="b%d" % b, s=["%08x" % (j * 91 + b) for j in range(n // 2)]) for b in (1, 2)]
    return {"bins": [B("b1", "I1"), B("b2", "I2")], "logs": [L("L1", 0)], "entries": es, "issuers": ["I1", "I2"], "enroll": ["I1", "I2"], "threads": 2}, pre


def fam_big(R, deep):
    """Lists larger than the buffers in between, more entries than one scan page."""
    for m in ((700, 2500) if deep else (700,)):
        fx, _ = big(0, m)
        ids = [e["id"] for e in fx["entries"]]
        yield Sc("big-%d" % m, fx, [ENSURE, ingest(*ids[:m // 2]), SAVEALL, known(), ingest(*ids[m // 2:]), SAVEALL, commit(), known()] + TAIL)
    for n in ((1200, 3000, 9000) if deep else (1200,)):
        fx, pre = big(n, 12)
        ids = [e["id"] for e in fx["entries"]]
        for proc in ("commit", "known"):
            for o, ks in (("write", range(1, 9)), ("fsync", (1, 2, 3)), ("read", (1, 2, 3, 4, 6))):
                for k in ks:
                    for a in ("killpre", "ENOSPC"):
                        fs = {"ops": o, "n": k, "act": a}
                        x = commit(fs=fs) if proc == "commit" else known(fs=fs)
                        yield Sc("big-%d-%s-%s%d%s" % (n, proc, o, k, a), fx, [ENSURE] + pre + [ingest(*ids[:6]), SAVEALL, commit(), ingest(*ids[6:]), SAVEALL, x] + TAIL)


def fam_expiry(R, deep):
    """Files of past, current and coming hours and days; litter."""
    for th in (1, 4):
        fx = dict(EXPB, threads=th)
        ids = [e["id"] for e in STD["entries"]]
        yield Sc("exp-1-%d" % th, fx, [ENSURE] + PRE + [commit(), commit()] + TAIL)
        yield Sc("exp-2-%d" % th, fx, [ENSURE] + PRE + [ingest(*STD1), SAVEALL, known()] + PRE[:2] + [ingest(*STD2), SAVEALL, known()] + TAIL)
        yield Sc("exp-3-%d" % th, fx, [ENSURE] + PRE + [op("litter"), ingest(*STD1), SAVEALL, commit(), op("litter"), ingest(*STD2), SAVEALL, known()] + TAIL, fswatch=True)
        yield Sc("exp-4-%d" % th, fx, [ENSURE, op("litter"), ingest(*STD1), SAVEALL, commit(at=[{"cls": "rem:b1", "kill": "pre"}]), op("litter"), LOCKEXP, commit(), known()] + TAIL, fswatch=True)
    many = dict(STD, bins=STD["bins"] + [B("p%d" % k, "I%d" % (1 + k % 3), "past", k) for k in range(0, 30, 3)] + [B("d%d" % k, "I%d" % (1 + k % 3), "dayPast", k) for k in (0, 1, 2, 40, 400)]
                + [B("n%d" % k, "I%d" % (1 + k % 3), "day", 10 + k) for k in range(3)] + [B("dE", "I1", "dayEdge", 0), B("hE", "I3", "edge", 0), B("hN", "I2", "next", 0)])
    pre = [op("prestore", bin=b["id"], s=["c%d" % (j % 10), "d%d" % (j % 10)]) for j, b in enumerate(many["bins"]) if b["id"][0] in "pdnh"]
    yield Sc("exp-5", many, [ENSURE] + pre + [ingest(*STD1), SAVEALL, known()] + TAIL)
    # an issuer with a long-past file appears only in storage
    one = dict(SML, bins=SML["bins"] + [B("p1", "I2", "past", 2), B("p2", "I1", "dayPast", 3)])
    for k in range(8, 15):
        yield Sc("exp-kill-%d" % k, one, [ENSURE, op("prestore", bin="p1", s=["aa"]), op("prestore", bin="p2", s=["aa"]), ingest(*SML1), SAVEALL, commit(at=[{"k": k, "kill": "pre"}])] + TAIL)
    for k in (1, 2, 3):
        yield Sc("exp-unl-%d" % k, one, [ENSURE, op("prestore", bin="p1", s=["aa"]), op("prestore", bin="p2", s=["aa"]), ingest(*SML1), SAVEALL, commit(fs={"ops": "unlink", "n": k, "act": "EIO"})] + TAIL)


def fam_readonly(R, deep):
    """Whatever happens to the fetcher, storage stays untouched (every change below it is watched)."""
    L2 = later(SML, SML1, SML2)
    kw = {"fswatch": True}
    yield Sc("ro-1", SML, [ENSURE, ingest(*SML1), SAVEALL, ENSURE, REFETCH, drv("F", "commit", tok="x"), drv("A", "acquire"), drv("F", "commit", tok="A"), drv("A", "release", tok="A"), commit(), ENSURE, drv("F", "commit", tok="x")] + TAIL, **kw)
    for k in range(1, 12):
        yield Sc("ro-k%d" % k, SML, L2 + [commit(), FLUSH, dict(ENSURE, at=[{"k": k, "kill": "pre"}]), LOCKEXP, ENSURE, REFETCH, ENSURE] + TAIL, **kw)
        yield Sc("ro-e%d" % k, SML, L2 + [commit(), FLUSH, dict(ENSURE, at=[{"k": k, "fault": "ERR injected"}]), LOCKEXP, ENSURE, REFETCH, ENSURE] + TAIL, **kw)
    for k in range(1, 6):
        yield Sc("ro-i%d" % k, SML, L2 + [ingest("e6", at=[{"k": k, "fault": FAULTS[k % 5]}]), REFETCH, SAVEALL, commit(), op("snap"), SAVEALL, commit(), op("rollback"), ENSURE, ingest("e6"), REFETCH] + TAIL, **kw)
    yield Sc("ro-lit", SML, [op("litter"), ENSURE, ingest(*SML1), SAVEALL, op("litter"), ENSURE, commit(), op("litter"), ENSURE, FLUSH, op("litter"), ENSURE] + TAIL, **kw)
    yield Sc("ro-st", SML, L2 + [op("stsnap"), commit(), op("strollback"), ENSURE, REFETCH, ENSURE, drv("F", "commit", tok="x")] + TAIL, **kw)


def fam_ingest(R, deep):
    """Insertion into the cache: lifetimes, duplicates, failing writes."""
    fx = dict(STD, bins=STD["bins"] + [B("n1", "I1", "next", 0), B("n2", "I2", "edge", 0)], entries=STD["entries"] + [E("h1", "L1", 20000, "e1", "n1"), E("h2", "L2", 21000, "e2", "n2")])
    yield Sc("ing-1", fx, [ENSURE, ingest("e1"), ingest("e1", "e2"), ingest("h1"), ingest("h2"), SAVEALL, commit(), ingest("e1", "e2"), ingest("h1"), commit()] + TAIL)
    for k in range(1, 8):
        for f in FAULTS if deep else FAULTS[k % 2::2]:
            yield Sc("ing-f%d-%s" % (k, f.split()[0]), SML, [ENSURE, ingest("e1", "e2", "e3", "e4", at=[{"k": k, "fault": f}]), REFETCH, ingest("e1", "e2", "e3", "e4"), SAVEALL, commit()] + TAIL + DIFF)
        yield Sc("ing-k%d" % k, SML, [ENSURE, ingest("e1", "e2", "e3", "e4", at=[{"k": k, "kill": "pre"}]), ENSURE, ingest("e1", "e2", "e3", "e4"), SAVEALL, commit()] + TAIL + DIFF)
    # removed from the cache, then accepted again
    yield Sc("ing-again", SML, first(SML, SML1) + [commit(), ingest(*SML1), commit(), ingest(*SML1), known(), op("saveall", maxts=9000), ingest(*SML1), commit(), ingest(*SML1), commit()] + TAIL)


def fam_window(R, deep):
    """The known finding: entries above the cut-off lost with the cache are not fetched again."""
    yield Sc("kf-window", SML, [ENSURE, ingest("e1", "e2", "e3", "e4"), SAVEALL, commit(), FLUSH, ENSURE, REFETCH, ingest("e5"), SAVEALL, commit()])


def fam_random(R, deep, n=None):
    n = n or (600 if deep else 60)
    for i in range(n):
        r = random.Random("%s/%d" % (R.seed0, i))
        ns = r.choice([1, 2, 3])
        bins = [B("b%d" % j, "I%d" % r.randint(1, ns), "future", j) for j in range(1, r.randint(2, 5))]
        logs = [L("L%d" % j, r.choice([0, 1, 2, 5])) for j in range(1, r.randint(2, 4))]
        ents = []
        for lg in logs:
            t = 0
            for j in range(r.randint(2, 7)):
                t += r.choice([1, 1, 400, 1000, 2000, 3000])
                ents.append(E("%s-%d" % (lg["id"], j), lg["id"], max(0, t + r.choice([0, 0, -500, 700])), "%02x" % r.randint(0, 12), r.choice(bins)["id"]))
            seen = set()
            ents = [e for e in ents if not ((e["log"], e["ts"], e["serial"], e["bin"]) in seen or seen.add((e["log"], e["ts"], e["serial"], e["bin"])))]
        fx = {"bins": bins, "logs": logs, "entries": ents, "issuers": ["I%d" % j for j in range(1, ns + 1)], "enroll": ["I%d" % j for j in range(1, ns + 1) if r.random() < .7], "threads": r.choice([1, 2, 8])}
        per = {l["id"]: [e["id"] for e in ents if e["log"] == l["id"]] for l in logs}
        pos = {l["id"]: 0 for l in logs}
        st = [ENSURE]
        dirty = False                       # a rewind may have happened: refetch before positions are saved

        def fetch():
            o = []
            for l in per:
                k = r.randint(0, 3)
                b = per[l][pos[l]:pos[l] + k]
                pos[l] += len(b)
                if b:
                    o.append(ingest(*b))
            if r.random() < .8:
                o.append(SAVEALL if r.random() < .8 else op("saveall", log=r.choice(logs)["id"]))
            return o

        ncom, can, hassnap = 0, False, False
        for _ in range(r.randint(2, 7 if deep else 5)):
            st += fetch()
            x = r.random()
            mk = commit if r.random() < .6 else known
            k = r.randint(1, 22)
            if x < .3:
                st.append(mk()); ncom += 1
            elif x < .45:
                st += [mk(at=[{"k": k, "kill": r.choice(["pre", "post"])}]), LOCKEXP]
            elif x < .55:
                st += [mk(at=[{"k": max(2, k), "fault": r.choice(FAULTS)}]), LOCKEXP]
            elif x < .65:
                st += [mk(at=[{"k": k, "ops": fetch()}])]; ncom += 1
            elif x < .72:
                st += [mk(fs={"ops": "write,fsync,rename,create", "n": r.randint(1, 30), "act": r.choice(["killpre", "killpost", "EIO", "ENOSPC"])}), LOCKEXP]
            elif x < .8:
                st += [mk(at=[{"k": k, "ops": [commit(name="E")]}])]; ncom += 1
            elif x < .87:
                st += [op("snap")]; hassnap = True
            elif x < .93:
                st += [dict(ENSURE, at=[{"k": r.randint(1, 10), "kill": "pre"}]), LOCKEXP, ENSURE, REFETCH]
            elif ncom >= 1:
                if hassnap and r.random() < .5:
                    st += [op("rollback")]
                else:
                    st += [FLUSH]
                if r.random() < .5:
                    st.append(mk())
                st += [LOCKEXP, ENSURE, REFETCH]
        yield Sc("rnd-%d" % i, fx, st + TAIL + DIFF)


# --------------------------------------------- behaviours of the design (TLC)
MC2FX = {"bins": [B("b1", "I1", "future", 1), B("b2", "I1", "future", 2), B("b3", "I2", "future", 3)], "logs": [L("L1", 1), L("L2", 2)],
         "entries": [E("e1", "L1", 1000, "01", "b1"), E("e2", "L1", 4000, "02", "b2"), E("e3", "L1", 3000, "03", "b1"), E("e4", "L1", 5001, "04", "b3"),
                     E("f1", "L2", 2000, "01", "b1"), E("f2", "L2", 4000, "05", "b3")],
         "issuers": ["I1", "I2"], "enroll": ["I1"], "threads": 2}


def translate(h):
    """A behaviour of MCCommit (its hist) as steps for the real programs."""
    st, i, run = [], 0, set()
    kind = {}
    lastcls = {}
    for x in h:
        a, o = x["a"], x["op"]
        if o == "begin":
            kind[a] = x["kind"]
            run.add(a)
            st.append(op("gate", proc=x["kind"], name=a))
        elif o == "step":
            lastcls[a] = x["cls"]
            if x["cls"] != "-":
                st.append(op("adv", name=a, cls=x["cls"]))
        elif o in ("fault", "faultrem"):
            lastcls[a] = "fault"
            st.append(op("advfault", name=a))
        elif o == "crash":
            run.discard(a)
            st.append(op("crash", name=a))
        elif o == "end":
            run.discard(a)
            # a list run that finds the lock taken waits; in the design it gives up
            st.append(op("crash" if kind[a] == "known" and lastcls.get(a) == "lock" else "finish", name=a))
            st.append(op("lockdead"))
        elif o == "ensure":
            run.add("F")
            st.append(op("gate", proc="ensure", name="F"))
        elif o == "estep":
            st.append(op("adv", name="F", cls=x["cls"]))
        elif o == "eend":
            run.discard("F")
            st.append(op("finish", name="F"))
        elif o == "fcrash":
            st.append(op("crash", name="F") if "F" in run else op("drvkill", name="F"))
            run.discard("F")
        elif o == "ingest":
            e = x["e"]
            st.append(ingest(*sorted(e)))
        elif o == "save":
            r = x["r"]
            st.append(op("save", log=r["log"], min=r["min"], max=r["max"], mints=r["mints"], maxts=r["maxts"]))
        else:
            st.append(op(o))
    for a in ("C", "D", "F"):
        st.append(op("lockdead"))
        if a in run:            # a list run that does not have the lock yet might wait for a dead holder
            st.append(op("crash" if kind.get(a) == "known" and lastcls.get(a, "lock") == "lock" else "finish", name=a))
    return st


def scripts(text, limit, tag):
    seen, out = set(), []
    for m in re.finditer(r'^"SCRIPT (.*)"$', text, re.M):
        h = json.loads(m.group(1).replace('\\"', '"'))
        st = translate(h)
        key = json.dumps([s for s in st if s["op"] not in ("finish",)][:-1])
        if key in seen:
            continue
        seen.add(key)
        out.append(st)
    # spread over different shapes
    rr = random.Random(tag)
    rr.shuffle(out)
    return [Sc("mc-%s-%d" % (tag, i), MC2FX, st + TAIL + DIFF) for i, st in enumerate(out[:limit])]


FAMS = {"kill": fam_kill, "fault": fam_fault, "fskill": fam_fskill, "fserr": fam_fserr, "fsmany": fam_fsmany, "conc": fam_concurrent, "lock": fam_lock, "loss": fam_loss, "known": fam_known,
        "cut": fam_cutoff, "big": fam_big, "exp": fam_expiry, "ro": fam_readonly, "ing": fam_ingest, "rnd": fam_random, "win": fam_window}
# families in each property's quick check (thorough runs all of them, deep)
QUICK = {
    "S01": ["kill", "conc", "ing", "fault", "loss", "rnd", "exp", "big"],
    "S02": ["conc", "kill", "cut", "fserr", "loss", "rnd", "win"],
    "S03": ["cut", "conc", "known", "exp", "ing", "rnd", "big", "lock"],
    "S04": ["exp", "cut", "ing", "conc", "kill", "big", "rnd", "known"],
    "S05": ["fskill", "big", "kill", "fserr"],
    "S06": ["loss", "rnd", "kill", "lock", "conc"],
    "S07": ["lock", "loss", "known", "kill", "rnd"],
    "S08": ["fserr", "fsmany", "big"],
    "S09": ["kill", "fskill", "fault", "loss", "lock", "rnd"],
    "S10": ["ro", "loss", "exp"],
    "K01": ["known", "exp", "cut", "rnd", "big", "conc"],
    "K02": ["fserr", "fsmany", "known", "big", "fault"],
    "K03": ["known", "lock", "conc", "rnd"],
}
MCCFG = {"S01": "crash", "S02": "crash", "S03": "fault", "S04": "fault", "S05": "crash", "S06": "lossq", "S07": "lossq", "S08": "fault", "S09": "crash", "S10": "lossq", "K01": "fault", "K02": "fault", "K03": "crash"}


class Rnd:
    def __init__(self, seed): self.seed0 = seed


def scenarios(pid, deep):
    R = Rnd("%s/%s" % (SEED, "deep" if deep else pid))
    out = []
    for f in (FAMS if deep else QUICK[pid]):
        out += [s.d for s in FAMS[f](R, deep)]
    return out


def simulate(pid, deep):
    cfgs = ["MC2_sim1.cfg", "MC2_sim2.cfg", "MC2_sim3.cfg"]
    h = int(hashlib.sha256(("%s/%s" % (pid, SEED)).encode()).hexdigest()[:6], 16)
    return [Tlc("MC2", c, args=["-simulate", "num=%d" % (600 if deep else 150), "-depth", "45", "-seed", str(h + n)], workers=1) for n, c in enumerate(cfgs)]


def check(pid, tier, t0):
    deep = tier == "thorough"
    work = scratch()
    build()
    mcs = [Tlc("MC1", "MC1_%s.cfg" % c, workers=4 if deep else 2) for c in (("crash", "fault", "loss", "big") if deep else (MCCFG[pid],))]
    sims = simulate(pid, deep)
    scs = scenarios(pid, deep)
    for n, t in enumerate(sims):
        t.wait()
        if "Invariant" in t.text and "violated" in t.text:
            raise Trouble("simulation of the design violates a property:\n" + t.text[-2000:])
        got = scripts(t.text, 150 if deep else 14, "%s-%d" % (pid, n))
        scs += [s.d for s in got]
    nmc = sum(1 for s in scs if s["id"].startswith("mc-"))
    byid = {}
    for s in scs:
        byid[s["id"]] = s
    scs = list(byid.values())
    o, res = traces.execute(FAM, scs, work, timeout=2400 if deep else 600)
    errs = [r for r in res if r.get("err")]
    broken, ntr, states, _ = traces.validate(FAM, o, work, chunks=6)
    mc_d = mc_g = 0
    for m in mcs:
        d, g = model_check(m, "MC1")
        mc_d += d
        mc_g += g
    return traces.finish(FAM, pid, tier, t0, scs, byid, res, errs, broken, ntr, states, mc_d, mc_g, nmc, work)


def replay(pid, obj, t0):
    return traces.replay(FAM, pid, obj, t0)
