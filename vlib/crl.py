"""Revocation lists: the real aggregate-crls against servers under the harness' control, validated against Crl.tla."""
import json, random, re
from .common import *
from . import traces

PROPS = ["R01", "R02", "R03", "R04", "R05", "R06", "R07"]
FAM = traces.Family("crl", "crl", "CrlTrace", "MCCrl over Crl")


def C(id, by, *ents, **kw): return dict({"id": id, "by": by, "ents": [e if isinstance(e, dict) else E(e) for e in ents]}, **kw)
def E(s, r=-1, x=""): return {"s": s, "r": r, "x": x}
def I(id, full="", *part): return {"id": id, "full": full, "part": list(part)}
def run(ans, *at, **kw): return dict({"op": "run", "ans": {u: ([a] if isinstance(a, str) else list(a)) for u, a in ans.items()}, "at": list(at)}, **kw)
def t(c, n, act): return {"c": c, "n": n, "cnt": 1, "act": act}
def fs(ops, match, n, act): return {"ops": ops, "match": match, "n": str(n), "act": act}
def spoil(i, u, how): return {"op": "spoil", "i": i, "u": u, "how": how}
def Sc(id, issuers, contents, steps, threads=2): return {"id": id, "threads": threads, "issuers": issuers, "contents": contents, "steps": steps}


U1, U2, U3, U4 = "http://crl.a.test/a1.crl", "http://crl.a.test/a2.crl", "http://crl.b.test/b1.crl", "http://crl.b.test/b2.crl"
H5 = ["lm", "chunk", "gzip", "slow", "redir", "ctype"]
UA = {"a1": U1, "a2": U2}


def base(*more):
    """Two contents per URL, and things that are no valid CRL of a."""
    return [C("A1", "a", E("01", 1), "0080", E("7f00", 4)), C("A1n", "a", E("01", 1), E("22", 9)), C("A2", "a", E("31", 5)), C("A2n", "a", E("31", 5), "32", E("33", 3)),
            C("B1", "b", E("41", 1), "01"), C("B1n", "b", "42", E("41", 1))] + list(more)


TWO = [I("a", "", U1, U2), I("b", U3)]
FULL = [I("a", U1), I("b", U3)]
GOODRUN = {U1: "ok:A1", U2: "ok:A2", U3: "ok:B1"}
NEWRUN = {U1: "ok:A1n", U2: "ok:A2n", U3: "ok:B1n"}
DOWN = {U1: "status:503", U2: "reset", U3: "status:404"}

BADC = {"forged": C("X", "x", "51", name="a"), "other": C("X", "x", "51"), "foreign": C("X", "b", "51", name="a"), "foreignb": C("X", "b", "51"), "html": C("X", "a", alter="html"), "blank": C("X", "a", alter="empty"),
        "cert": C("X", "a", alter="cert"), "text": C("X", "a", alter="text"), "nosig": C("X", "a", "51", alter="nosig"), "sig": C("X", "a", "51", alter="sig"), "swap": C("X", "a", "51", E("01", 1), alter="swap"),
        "flip5": C("X", "a", "51", alter="flip:5"), "flip60": C("X", "a", "51", "53", alter="flip:60"), "flip99": C("X", "a", "51", alter="flip:99"), "flip85": C("X", "a", "51", gen=20, alter="flip:85"),
        "trunc30": C("X", "a", "51", gen=40, alter="trunc:30"), "trunc99": C("X", "a", "51", gen=40, alter="trunc:99"), "trunc1": C("X", "a", "51", alter="trunc:1"),
        "forgedempty": C("X", "x", name="a"), "sigempty": C("X", "a", alter="sig")}
BADA = ["status:204", "status:301", "status:304", "status:400", "status:403", "status:404:A1n", "status:404", "status:410:A1n", "status:500:A1n", "status:502", "status:503:A1n", "status:202:A1n", "status:203:A1n", "status:299:A1n", "reset",
        "cut:A1n:0", "cut:A1n:1", "cut:A1n:50", "cut:A1n:99", "cutchunk:A1n:50", "badlen:A1n", "206:A1n"]
PROCBAD = ["dup", "big", "neg", "bad"]


def fam_answers(r, deep):
    """Every way to answer, with and without an earlier copy, retried or not."""
    for n, a in enumerate(BADA):
        for k, (iss, pre) in enumerate(((TWO, []), (FULL, [run(GOODRUN)]))):
            if deep or (n + k) % 2 == r.randrange(2):
                yield Sc("ans-%d-%d" % (n, k), iss, base(), pre + [run(dict(NEWRUN, **{U1: a})), run(NEWRUN)], 1 + n % 3)
        yield Sc("ans-%d-retry" % n, TWO, base(), [run(GOODRUN), run(dict(NEWRUN, **{U1: [a] * (1 + n % 3) + ["ok:A1n"]})), run(DOWN)], 2)
    for n, (k, x) in enumerate(BADC.items()):
        for j, pre in enumerate(([], [run(GOODRUN)])):
            yield Sc("bad-%s-%d" % (k, j), [TWO, FULL][j], base(x), pre + [run(dict(NEWRUN, **{U1: ["ok", "chunk", "gzip", "lm"][n % 4] + ":X"})), run(dict(DOWN, **{U2: "ok:A2n"}))], 1 + n % 3)
    for n, h in enumerate(H5):
        yield Sc("how-%s" % h, TWO, base(), [run({u: x.replace("ok", h) for u, x in GOODRUN.items()}), run(DOWN), run({u: x.replace("ok", h) for u, x in NEWRUN.items()})], 1 + n % 2)
    for n, fl in enumerate(("expired", "old", "future", "v1", "nonext")):
        yield Sc("flag-%s" % fl, FULL, base(C("X", "a", "51", "52", flags=[fl])), [run(GOODRUN), run(dict(NEWRUN, **{U1: "ok:X"})), run(DOWN)], 2)
    yield Sc("pem", FULL, base(C("X", "a", E("51", 1), "52", alter="pem")), [run(GOODRUN), run(dict(NEWRUN, **{U1: "ok:X"})), run(DOWN)], 2)
    yield Sc("older", FULL, base(C("X", "a", "51", flags=["old"])), [run({U1: "ok:A1", U3: "ok:B1"}), run({U1: "ok:X", U3: "status:500"}), run({U1: "reset", U3: "ok:B1n"})], 2)
    yield Sc("rsa", [I("r", U1), I("b", "", U3, U4)], [C("R1", "r", E("01", 1), gen=10), C("R1n", "r", E("01", 2)), C("F", "x", "05", name="r"), C("G", "r", "07", alter="sig"), C("B1", "b", "01"), C("B2", "b", "02")],
             [run({U1: "ok:R1", U3: "ok:B1", U4: "ok:B2"}), run({U1: "ok:F", U3: "ok:B1", U4: "ok:B2"}), run({U1: "ok:G", U3: "ok:B1", U4: "ok:R1n"}), run({U1: "ok:R1n", U3: "ok:R1", U4: "ok:B2"})], 2)
    for n in (1, 2, 3, 4, 5):  # resumption
        for k, h in enumerate(("resume", "same", "404")):
            yield Sc("resume-%s-%d" % (h, n), FULL, base(C("X", "a", gen=60), C("Y", "a", gen=61)), [run(GOODRUN), run({U1: ["cut:X:%d" % (n * 19)] + ([["resume:X"], ["resume:Y"], ["206:X"], ["ok:X"], ["resume:Y", "ok:X"]][(n + k) % 5]), U3: "ok:B1n"}, head={U1: h + ":X"}), run(NEWRUN)], 1)


ENTS = {"reasons": [E("%02x" % (16 + x), x) for x in range(11)] + [E("70", -1), E("71", 255), E("72", 128)],
        "serials": ["00", "7f", "80", "ff", "0080", "00ff", "ff7f", "01" + "00" * 19, "7f" * 20, "00" + "ff" * 20, "0a", "0d", "20", "2e", "00b1", "30", "3030"],
        "twice": [E("11", 1), E("11", 1), "12", "12"], "twodiff": [E("11", 1), E("11", 4), E("11", -1)], "zero": [E("11", 0), E("12", -1)], "extras": [E("11", 1, "other"), E("12", -1, "other"), E("13", 4, "crit"), E("14", 5, "after"), E("15", -1, "after")],
        "none": [], "big": []}


def fam_entries(r, deep):
    """Contents of lists: serial numbers, reasons, repetitions, lists that cannot be processed."""
    for k, es in ENTS.items():
        g = 700 if k == "big" else 0
        yield Sc("ent-%s" % k, [I("a", U1), I("b", "", U3, U4), I("c", "http://crl.c.test/c.crl")], [C("P", "a", *es, gen=g), C("Q", "b", *es, gen=g), C("Q2", "b", "61", *es[: len(es) // 2], gen=g and 350), C("Z", "c", E("01", 1)), C("Z0", "c")],
                 [run({U1: "ok:P", U3: "ok:Q", U4: "ok:Q2", "http://crl.c.test/c.crl": "ok:Z"}), run({U1: "status:500", U3: "ok:Q", U4: "cut:Q2", "http://crl.c.test/c.crl": "ok:Z0"})], 1 + len(k) % 3)
    for n, x in enumerate(PROCBAD):
        for pos in (0, 1, 2):
            es = ["61", E("62", 1), "63"]
            es.insert(pos, E("64", r.choice([-1, 1]) if x == "dup" else -1, x))
            yield Sc("proc-%s-%d" % (x, pos), [[I("a", U1, U2), I("b", U3)], [I("a", U1), I("b", U3)], [I("a", U1), I("b", U3, U4)]][pos], base(C("X", "a", *es), C("B2", "b")),
                     [run(dict(GOODRUN, **{U4: "ok:B2"}))] * (n % 2) + [run(dict(GOODRUN, **{U1: "ok:X", U4: "ok:B2"})), run(DOWN)], 2)
    yield Sc("empties", [I("a", "", U1, U2), I("b", U3)], [C("A0", "a"), C("A1", "a", "05"), C("B0", "b"), C("A2", "a", flags=["v1"])], [run({U1: "ok:A0", U2: "ok:A2", U3: "ok:B0"}), run({U1: "ok:A1", U2: "ok:A2", U3: "reset"}), run({U1: "ok:A0", U2: "reset", U3: "reset"})])
    yield Sc("nourl", [I("a"), I("b", U3)], base(), [run({U3: "ok:B1"}), run({U3: "reset"})])
    yield Sc("firstfail", TWO, base(), [run({U1: "ok:A1", U2: "status:404", U3: "status:404"}), run({U1: "status:404", U2: "ok:A2", U3: "ok:B1"}), run({U1: "ok:A1n", U2: "ok:A2", U3: "ok:B1"})])
    # partitions and distribution points
    for n, (d1, d2) in enumerate((([U1], [U2]), ([U1, U2], [U2]), ([], [U2]), ([U2], [U1]), (["http://elsewhere.test/x.crl", U1], [U2]), ([U1.upper()], [U2]), ([U1 + "?x"], [U2]), (["ldap://x/y", U1], ["http://crl.a.test/a2.crl/"]))):
        yield Sc("dp-%d" % n, [I("a", "", U1, U2), I("b", U3)], [C("P", "a", "01", dp=d1), C("Q", "a", "02", dp=d2), C("B", "b", "03", dp=[U4])], [run({U1: "ok:P", U2: "ok:Q", U3: "ok:B"}), run({U1: "reset", U2: "ok:P", U3: "ok:B"})])
    yield Sc("dp-full", [I("a", U1, U2), I("b", U3)], [C("P", "a", "01", dp=[U1]), C("Q", "a", "02", dp=[U2]), C("B", "b", "03")], [run({U1: "ok:P", U2: "ok:Q", U3: "ok:B"})])


PAIRS = [["http://h.test/a/x.crl", "http://h.test/b/x.crl"], ["http://h.test/x.crl", "http://h.test:8080/x.crl"], ["http://h.test/x.crl", "https://h.test/x.crl"], ["http://h.test/x.crl", "http://h.test/X.crl"],
         ["http://h.test/x.crl", "http://h.test/x"], ["http://h.test/x.crl?p=1", "http://h.test/x.crl?p=2"], ["http://h.test/x?a;b", "http://h.test/x?a;B"], ["http://h.test/x.crl?a=b", "http://h.test/x.crl?A=b"],
         ["http://h.test/a_b.crl", "http://h.test/ab.crl"], ["http://h.test/a/b.crl", "http://h.test/a%2Fb.crl"], ["http://h.test/", "http://h.test/x"], ["http://h.test/x+y.crl", "http://h.test/x%2By.crl", "http://h.test/x%20y.crl"],
         ["http://h.test/q?x=1&y=2", "http://h.test/q?x=1%26y=2"], ["http://h.test/q?x=1&x=2", "http://h.test/q?x=2&x=1"], ["http://h.test/q?s=%3B1", "http://h.test/q?s=%3B2"], ["http://h.test/q?s=;1", "http://h.test/q?s=;2"], ["http://h.test/q?%zz=1", "http://h.test/q?%zy=2"],
         ["http://a.test/h-x.crl", "http://a.test-h/x.crl"], ["http://h.test/x.crl", "http://h.test/x.crl.crl"], ["http://h.test/a/../x.crl", "http://h.test/x.crl"], ["http://h.test/x.crl/", "http://h.test/x.crl"], ["http://h.test/x,y.crl", "http://h.test/xy.crl"],
         ["http://h.test/" + "l" * 60 + "1.crl", "http://h.test/" + "l" * 60 + "2.crl"], ["http://h.test//x.crl", "http://h.test/x.crl"], ["http://h.test/x.crl", "http://g.test/x.crl"], ["http://h.test/q?a=1&b=;", "http://h.test/q?a=1&c=;", "http://h.test/q?a=1"],
         ["http://h.test/cgi?id=abcdefghijklmnop0", "http://h.test/cgi?id=abcdefghijklmnop1", "http://h.test/cgi?id=abcdefghijklmnoP0"]]


def fam_names(r, deep):
    """URLs that are easily taken for each other, at one issuer and at two."""
    for n, us in enumerate(PAIRS):
        comma = any("," in u for u in us)
        cs = [C("P%d" % i, "a", "%02x" % (1 + i)) for i in range(len(us))] + [C("N%d" % i, "a", "%02x" % (17 + i)) for i in range(len(us))]
        an = {u: "ok:P%d" % i for i, u in enumerate(us)}
        bn = {u: ("ok:N%d" % i if i == n % len(us) else "reset") for i, u in enumerate(us)}
        yield Sc("name-%d" % n, [I("a", "", *us)] if not comma else [I("a", us[0], *us[1:])], cs, [run(an), run(bn), run({u: "status:404" for u in us}), run(an)], 1)
    us = sorted({u for p in PAIRS[: len(PAIRS) if deep else 12] for u in p if "," not in u})
    yield Sc("name-all", [I("a", "", *us[::2]), I("b", "", *us[1::2])], [C("P%d" % i, "ab"[i % 2], "%04x" % (257 + i)) for i in range(len(us))], [run({u: "ok:P%d" % i for i, u in enumerate(us)}), run({u: "reset" if i % 3 == 0 else "ok:P%d" % i for i, u in enumerate(us)})], 4)
    # one URL at two issuers
    yield Sc("shared", [I("a", "", U1, U2), I("b", U1), I("c", U1)], base(), [run({U1: "ok:A1", U2: "ok:A2"}), run({U1: "ok:B1", U2: "ok:A2n"}), run({U1: "ok:A1n", U2: "reset"})], 3)
    yield Sc("shared2", [I("a", U1), I("b", U1)], base(), [run({U1: "ok:B1"}), run({U1: "ok:A1"}), run({U1: "reset"}), run({U1: "ok:B1n"}), run({U1: "ok:A1n"})], 2)


def fam_faults(r, deep):
    """Failing operations on the copies and on the lists."""
    todo = []
    for ops, n in (("mkdir", 6), ("create", 8), ("write", 8), ("rename", 5), ("openr", 14), ("read", 16), ("unlink", 3), ("fsync", 4), ("chmod", 4)):
        for k in range(1, n + 1):
            for a in (("EIO", "ENOSPC", "EACCES") if deep else (r.choice(["EIO", "ENOSPC", "EACCES"]),)):
                todo.append((ops, "crls/", str(k), a))
        todo.append((ops, "crls/", "1+", "EACCES"))
    for ops in ("create", "write", "rename", "fsync", "mkdir", "chmod", "truncate"):
        for k in (1, 2, 3):
            todo.append((ops, "revoked", str(k), r.choice(["EIO", "ENOSPC"])))
        todo.append((ops, "revoked", "1+", "ENOSPC"))
    todo += [(o, "enrolled", str(k), "ENOSPC") for o in ("create", "write", "rename") for k in (1, 2)]
    for n, f in enumerate(todo):
        first = (n // 2) % 2 == 0
        yield Sc("fault-%s-%s-%s-%s" % (f[0], f[1].strip("/"), f[2], f[3]), TWO, base(C("X", "a", gen=300), C("B3", "b", gen=260)), ([run(GOODRUN)] if first else []) + [run(dict(NEWRUN, **({U1: "ok:X", U3: "ok:B3"} if n % 2 else {})), fs=fs(*f)), run(dict(NEWRUN, **{U2: "status:500"}))], 1 + n % 2)


def fam_kills(r, deep):
    """The process is killed, and what later runs make of what it left."""
    big = (C("X", "a", gen=300), C("B3", "b", gen=260))
    for n in range(1, 4):
        for c in ("req", "mid"):
            for k, (an, h) in enumerate((({U1: "slow:A1n", U2: "slow:A2n", U3: "slow:B1n"}, {}), ({U1: "slow:X", U2: "hang:A2n", U3: "slow:B3"}, {U1: "resume:X", U3: "resume:B3"}))):
                yield Sc("kill-%s-%d-%d" % (c, n, k), TWO, base(*big), [run(GOODRUN)] * (n % 2 if not deep else k) + [run(an, t(c, n, "kill")), run(dict(DOWN, **{U3: "resume:B3"} if k else {}), head=h), run(dict(NEWRUN, **{U2: "reset"}))], 1 + n % 3)
    for ops, m, cnt in (("rename", "crls/", 3), ("create", "crls/", 3), ("write", "crls/", 3), ("unlink", "crls/", 3), ("create", "revoked", 3), ("write", "revoked", 6), ("rename", "revoked", 2), ("fsync", "revoked", 2)):
        for k in range(1, cnt + 1):
            for a in (("killpre", "killpost") if deep else (("killpre", "killpost")[(k + len(ops)) % 2],)):
                yield Sc("fskill-%s-%s-%d-%s" % (ops, m.strip("/"), k, a), TWO, base(*big), [run(GOODRUN), run({U1: "ok:X", U2: "ok:A2n", U3: "ok:B3"}, fs=fs(ops, m, k, a)), run(DOWN), run(dict(NEWRUN, **{U2: "reset"}))], 1 + k % 2)


def fam_signals(r, deep):
    """The process is told to stop at every request, in the middle of answers, and while it writes."""
    big = (C("X", "a", gen=300), C("B3", "b", gen=260), C("D1", "d", "05"))
    iss = [I("a", "", U1, U2), I("b", U3), I("d", "http://crl.d.test/d.crl")]
    an = {U1: "slow:X", U2: "slow:A2n", U3: "slow:B3", "http://crl.d.test/d.crl": "slow:D1"}
    for n in range(1, 6):
        for c in ("req", "mid"):
            for s in (("term", "int") if deep else (("term", "int")[n % 2],)):
                for th in ((1, 2, 4) if deep else (1 + n % 3,)):
                    for k, a in enumerate((an, {u: "hang" + x[4:] for u, x in an.items()}, {u: [["status:503"], x][j % 2] for j, (u, x) in enumerate(an.items())})):
                        if deep or (n + k) % 2 == 0 or c == "mid":
                            yield Sc("sig-%s-%d-%s-%d-%d" % (c, n, s, th, k), iss, base(*big), [run(dict(GOODRUN, **{"http://crl.d.test/d.crl": "ok:D1"}))] * ((n + k) % 2) + [run(a, t(c, n, s)), run(dict(NEWRUN, **{"http://crl.d.test/d.crl": "reset"}))], th)
    for ops, m, cnt in (("rename", "crls/", 4), ("openr", "crls/", 14), ("read", "crls/", 12), ("create", "revoked", 3), ("write", "revoked", 6), ("rename", "revoked", 3), ("create", "enrolled", 1), ("create", "audit", 1)):
        for k in range(1, cnt + 1):
            yield Sc("fssig-%s-%s-%d" % (ops, m.strip("/"), k), iss, base(*big), [run({u: x.replace("slow", "ok") for u, x in an.items()}, fs=fs(ops, m, k, "term")), run(dict(NEWRUN, **{"http://crl.d.test/d.crl": "reset"}))], 1 + k % 2)


def fam_spoil(r, deep):
    """Copies are damaged between runs; what may still be used, and what is put in their place."""
    for n, h in enumerate(("remove", "garbage", "empty", "trunc", "append", "flip", "foreign:X", "foreign:F", "dir", "aged")):
        for k, (an, bn) in enumerate(((DOWN, NEWRUN), (NEWRUN, DOWN), (dict(NEWRUN, **{U1: "ok:F"}), GOODRUN), (dict(DOWN, **{U1: "cut:A1n:60"}), DOWN))):
            if deep or (n + k) % 2 == 0 or h in ("foreign:F", "dir"):
                yield Sc("spoil-%s-%d" % (h.replace(":", ""), k), TWO, base(C("X", "b", "51"), C("F", "x", "52", name="a")), [run(GOODRUN), spoil("a", U1, h), run(an), run(bn)], 1 + k % 2)


def fam_random(r, deep):
    """Several issuers and runs, anything happening."""
    for n in range(300 if deep else 36):
        names = r.sample(["a", "b", "c", "d", "r"], r.randint(1, 4))
        iss, cs, urls = [], [], {}
        for i in names:
            us = ["http%s://%s.test/%s" % (r.choice(["", "", "s"]), r.choice(["crl", "h", i]), p) for p in r.sample(["%s/x.crl" % i, "%s/y.crl" % i, "%s/z?s=1" % i, "%s/z?s=2" % i, "%s.crl" % i], r.randint(1, 3))]
            iss.append(I(i, "", *us) if r.random() < .5 else I(i, us[0], *us[1:]))
            for j, u in enumerate(us):
                urls[u] = i
                for v in range(3):
                    cs.append(C("%s%d%d" % (i, j, v), i, *[E("%02x%02x" % (r.randint(1, 127), r.randint(0, 255)), r.choice([-1, 0, 1, 3, 4, 5, 9, 10])) for _ in range(r.randint(0, 5))], **({"gen": r.choice([0, 0, 0, 30, 200])})))
                    cs[-1]["dp"] = [u]
        bad = []
        for k, x in enumerate(r.sample(list(BADC.values()), 3)):
            if x["id"] and not (x.get("alter") in ("cert", "empty") and any(b.get("alter") in ("cert", "empty") for b in bad)):
                y = dict(x, id="X%d" % k)
                y["by"] = y["by"] if y["by"] == "x" else r.choice(names)
                y.pop("name", None)
                bad.append(y)
        bad = [b for b in bad if b.get("alter") or b["by"] == "x"]
        cs += bad
        pb = C("PB", names[0], "01", E("02", -1, r.choice(PROCBAD)))
        cs.append(pb)
        first = next(u for u, i in urls.items() if i == names[0])  # a content is at home at one URL only
        steps = []
        for q in range(r.randint(2, 4)):
            an, head = {}, {}
            for u, i in urls.items():
                own = [c["id"] for c in cs if c["id"].startswith(i) and len(c["id"]) == 3 and c["dp"] == [u]]
                g = r.choice(own)
                a = [r.choice(["ok", "ok", "ok", "slow", "chunk", "gzip", "lm", "redir"]) + ":" + g]
                if r.random() < .35:
                    a = [r.choice(["status:500", "reset", "cut:%s:40" % g, "cutchunk:%s:70" % g, "status:404:" + g])] * r.choice([1, 3, 4]) + a
                if r.random() < .2:
                    a = ["ok:" + r.choice([b["id"] for b in bad] + ["PB"] * (u == first))]
                an[u] = a
            x = r.random()
            if x < .15:
                steps.append(run(an, t(r.choice(["req", "mid"]), r.randint(1, 5), r.choice(["kill", "term"]))))
            elif x < .25:
                steps.append(run(an, fs=fs(r.choice(["rename", "write", "create", "read", "openr"]), r.choice(["crls/", "revoked"]), r.randint(1, 6), r.choice(["EIO", "ENOSPC", "killpre", "killpost", "term"]))))
            else:
                steps.append(run(an))
            if r.random() < .3:
                u = r.choice(list(urls))
                steps.append(spoil(urls[u], u, r.choice(["remove", "garbage", "empty", "trunc", "flip"])))
        yield Sc("rnd-%d" % n, iss, cs, steps, r.randint(1, 5))


# --------------------------------------------------- behaviours of the design
def translate(h):
    st, cur, nans, nren = [], None, 0, 0
    for x in h:
        o = x["op"]
        if o == "begin":
            cur = run({})
            st.append(cur)
            nans = nren = 0
        elif o == "ans":
            u, k = MU[x["u"]], x["k"]
            nans += 1
            cur["ans"].setdefault(u, []).append({"f": "ok:f", "fail": "status:500", "cut": "cut:%s2:50" % x["u"], "1": "slow:%s1" % x["u"], "2": "slow:%s2" % x["u"], "p": "ok:%sp" % x["u"]}[k])
            nren += k in ("1", "2", "p")
        elif o == "fault" and not cur.get("fs") and not cur["at"]:
            cur["fs"] = fs("rename", "crls/", max(1, nren), "EIO")
        elif o in ("kill", "term") and not cur.get("fs"):
            cur["at"].append(t("req", max(1, nans), o))
        elif o == "spoil":
            st.append(spoil(x["i"], MU[x["u"]], "foreign:f"))
    for s in st:
        for u, a in s.get("ans", {}).items():
            if a[-1].startswith(("status", "cut")):
                a.append(a[-1])
    return st


MU = {"u1": U1, "u2": U2, "u3": U3}


def scripts(text, limit, tag, two):
    seen, out = set(), []
    for m in re.finditer(r'^"SCRIPT (.*)"$', text, re.M):
        st = translate(json.loads(m.group(1).replace('\\"', '"')))
        key = json.dumps(st)
        if key not in seen:
            seen.add(key)
            out.append(st)
    rr = random.Random(tag)
    rr.shuffle(out)
    iss = [I("a", "", U1, U2)] + ([I("b", U3)] if two else [])
    cs = [C("f", "x", "66")]
    for u, i in (("u1", "a"), ("u2", "a"), ("u3", "b")):
        cs += [C(u + "1", i, "0" + u[1]), C(u + "2", i, "0" + u[1], E("1" + u[1], 1)), C(u + "p", i, "2" + u[1], E("3" + u[1], -1, "dup"))]
    return [Sc("mc-%s-%d" % (tag, i), iss, cs, st, 1 + i % 3) for i, st in enumerate(out[:limit])]


FAMS = {"answers": fam_answers, "entries": fam_entries, "names": fam_names, "faults": fam_faults, "kills": fam_kills, "signals": fam_signals, "spoil": fam_spoil, "rnd": fam_random}
QUICK = {"R01": ["answers", "spoil", "rnd", "entries"], "R02": ["answers", "entries", "kills", "faults", "spoil", "rnd"], "R03": ["entries", "rnd", "names"], "R04": ["answers", "kills", "spoil", "faults", "rnd"],
         "R05": ["names", "kills", "rnd"], "R06": ["answers", "entries", "faults", "spoil", "rnd"], "R07": ["signals", "rnd"]}
MCCFG = {"R01": ["MCR1_two"], "R02": ["MCR1_three"], "R03": ["MCR1_two"], "R04": ["MCR1_three"], "R05": ["MCR1_two"], "R06": ["MCR1_three"], "R07": ["MCR1_sig", "MCR1_live"]}
DEEPCFG = ["MCR1_one", "MCR1_two", "MCR1_three", "MCR1_sig", "MCR1_live", "MCR1_big"]


def scenarios(pid, deep):
    out = []
    for f in (FAMS if deep else QUICK[pid]):
        out += list(FAMS[f](random.Random("%s/%s/%s" % (SEED, f, "deep" if deep else pid)), deep))
    return out


def check(pid, tier, t0):
    deep = tier == "thorough"
    work = scratch()
    build()
    mcs = [Tlc("MCR1", c + ".cfg", workers=6 if deep else 2, heap="8g" if deep else "4g", timeout=2400) for c in (DEEPCFG if deep else MCCFG[pid])]
    h = int(hashlib.sha256(("%s/%s" % (pid, SEED)).encode()).hexdigest()[:6], 16)
    sims = [Tlc("MCR1", "MCR1_sim%d.cfg" % n, args=["-simulate", "num=%d" % (800 if deep else 150), "-depth", "90", "-seed", str(h + n)], workers=1) for n in (1, 2)]
    scs = scenarios(pid, deep)
    for n, s in enumerate(sims):
        s.wait()
        if "violated" in s.text:
            raise Trouble("simulation of the design violates a property:\n" + s.text[-2000:])
        scs += scripts(s.text, 300 if deep else 30, "%s-%d" % (pid, n), n == 0)
    nmc = sum(1 for s in scs if s["id"].startswith("mc-"))
    byid = {s["id"]: s for s in scs}
    scs = list(byid.values())
    o, res = traces.execute(FAM, scs, work, jobs=24 if deep else 14, timeout=3000 if deep else 600)
    errs = [r for r in res if r.get("err")]
    broken, ntr, states, _ = traces.validate(FAM, o, work, chunks=6, timeout=3000 if deep else 600)
    mc_d = mc_g = 0
    for m in mcs:
        d, g = model_check(m, "MCR1")
        mc_d += d
        mc_g += g
    return traces.finish(FAM, pid, tier, t0, scs, byid, res, errs, broken, ntr, states, mc_d, mc_g, nmc, work)


def replay(pid, obj, t0):
    return traces.replay(FAM, pid, obj, t0)
