"""The issuers of a CCADB report: the real loader on generated reports, validated against Roots.tla."""
import itertools, json, random, re
from .common import *
from . import traces

PROPS = ["I01", "I02", "I03"]
FAM = traces.Family("roots", "roots", "RootsTrace", "MCRoots over Roots")
RT, IM = "Root Certificate", "Intermediate Certificate"


def crt(id, key, subj, iss=None, sign=None, **kw): return dict({"id": id, "key": key, "subj": subj, "iss": iss or subj, "sign": sign or key, "ca": "yes", "plen": -1, "eku": "", "ku": "sign", "life": "ok"}, **kw)
def row(c, kind=IM, rev="Not Revoked", full="", part="", urls=(), pn=False, pem="ok"): return {"c": c, "kind": kind, "rev": rev, "full": full, "part": part, "pem": pem, "urls": list(urls), "pn": pn}
def U(c, *us, **kw): return row(c, full=us[0] if us else "", part=js(us[1:]) if us[1:] else "", urls=[u for u in us if u], pn=bool(us[1:]), **kw)
def js(us, esc=False, sp=""):
    t = "[" + ("," + sp).join(json.dumps(u) for u in us) + "]"
    return t.replace("/", "\\/") if esc else t
def rep(*rows, **kw): return dict({"cols": "std", "rows": list(rows), "eol": ""}, **kw)
def step(local="", age=0.01, **kw): return dict({"local": local, "age": age, "ans": [], "head": ""}, **kw)
def Sc(id, certs, reports, steps): return {"id": id, "certs": certs, "reports": reports, "steps": steps}
def one(id, certs, *rows, known=False, tool="", **kw): return Sc(id, certs, {"r": rep(*rows, **kw)}, [step("r", known=known, tool=tool)])


def url(n, p="http"): return "%s://crl.%s.test/%s.crl" % (p, n, n)


R = crt("R", "kR", "R")
A = crt("A", "kA", "A", "R", "kR")
B = crt("B", "kB", "B", "A", "kA")
CC = crt("C", "kC", "C", "B", "kB")
ROOT = row("R", RT)


def fam_rows(r, deep):
    """What a row may say, and in which order."""
    base = [ROOT, U("A", url("a")), U("B", url("b"), url("b2"))]
    for n, (kind, rev, pem) in enumerate(itertools.product([RT, IM, "Certificate", ""], ["Not Revoked", "", "Revoked", "Parent Cert Revoked"], ["ok", "empty", "garbage", "type", "trunc", "junk"])):
        if kind in (RT, IM) or n % 3 == r.randrange(3) or deep:
            for who in (1, 2) if deep or pem == "ok" else (1,):
                x = dict(base[who], kind=kind, rev=rev, pem=pem)
                rows = [ROOT] + [x if k == who else base[k] for k in (1, 2)]
                yield one("row-%d-%d" % (n, who), [R, A, B], *[rows, rows[::-1], [rows[1], rows[0], rows[2]]][n % 3], known=n % 7 == 0, tool="get" if n % 5 == 4 else "")
    for n, (rev, pem) in enumerate(itertools.product(["Not Revoked", "", "Revoked", "Parent Cert Revoked"], ["ok", "empty", "garbage", "type", "trunc"])):
        yield one("root-%d" % n, [R, A, B], *[[row("R", RT, rev, pem=pem)] + base[1:], base[1:] + [row("R", RT, rev, pem=pem)]][n % 2])
    for n, p in enumerate(("lead", "tail", "crlf", "ok")):
        for k, (c, e) in enumerate((("std", ""), ("extra", "crlf"), ("shuffled", ""), ("extra", ""))):
            yield one("form-%d-%d" % (n, k), [R, A, B], *[dict(x, pem=p) for x in base], cols=c, eol=e, known=k == 1)
    for c in ("X.509_Certificate_PEM", "RecordType.Name", "Revocation_Status__c", "Full_CRL_Issued_By_This_CA", "JSON_Array_of_Partitioned_CRLs"):
        yield one("missing-%s" % c, [R, A, B], *base, cols="missing:" + c)
    for n, p in enumerate(itertools.permutations(base + [U("C", url("c"))])):
        if deep or n % 4 == 0:
            yield one("perm-%d" % n, [R, A, B, CC], *p, known=n % 8 == 0)
    yield one("norows", [R, A])
    yield one("onlyroots", [R, A], ROOT, known=True)
    yield one("noroots", [R, A, B], *base[1:])
    yield one("dup", [R, A], ROOT, U("A", url("a")), U("A", url("a2")), U("A"), known=True)
    yield one("dup2", [R, A], U("A", url("a"), url("a3")), ROOT, ROOT, U("A", url("a2")))
    yield one("dup3", [R, A], U("A"), ROOT, U("A", url("a2"), url("a3")))
    yield one("dup4", [R, A], U("A", url("x"), kind="Other"), U("A", url("y"), pem="garbage"), ROOT, U("A", url("a2"), url("a3")))
    yield one("many", [R] + [crt("I%d" % k, "k%d" % k, "S%d" % k, "R", "kR") for k in range(40)], ROOT, *[U("I%d" % k, *[url("i%d-%d" % (k, j)) for j in range(k % 4)]) for k in range(40)], known=True)


def fam_chains(r, deep):
    """Path validation: what lies between an issuer and a root."""
    rows = [ROOT, U("A", url("a")), U("B", url("b")), U("C", url("c"))]
    alt = {"expired": {"life": "expired"}, "future": {"life": "future"}, "notca": {"ca": "no"}, "nobc": {"ca": "none"}, "client": {"eku": "client"}, "server": {"eku": "server"}, "any": {"eku": "any"}, "both": {"eku": "both"}, "crlonly": {"ku": "crl"}, "noku": {"ku": "none"},
           "plen0": {"plen": 0}, "plen1": {"plen": 1}, "plen2": {"plen": 2}, "plen9": {"plen": 9}, "bad": {"bad": True}, "badname": {"iss": "Nobody"}, "badkey": {"sign": "kZ"}, "forged": {"sign": "kZ", "aki": None}, "wrongaki": {"aki": "kZ"}}
    for n, (k, x) in enumerate(alt.items()):
        for w, c in enumerate([R, A, B, CC]):
            if w == 0 and k in ("client", "badname", "badkey", "forged", "wrongaki", "bad", "noku"):
                continue
            if k == "wrongaki":
                continue  # not a statement about key identifiers
            y = dict(c, **x)
            if k == "forged":
                y["aki"] = c["sign"]
            cs = [y if d is c else d for d in (R, A, B, CC)]
            yield one("chain-%s-%s" % (k, c["id"]), cs, *[rows, rows[::-1]][n % 2], known=k in ("expired", "bad"))
    # the link is not in the report, is revoked, has another type, does not parse
    for n, x in enumerate((None, dict(rows[1], rev="Revoked"), dict(rows[1], kind="Other"), dict(rows[1], pem="garbage"), dict(rows[1], kind=RT), dict(rows[1], kind=RT, rev="Revoked"))):
        for k, first in enumerate((True, False)):
            l = [ROOT, rows[2], rows[3]]
            if x:
                l.insert(1 if first else 3, x)
            yield one("link-%d-%d" % (n, k), [R, A, B, CC], *l)
    # cross-certificates: a second way to a root
    R2, A2, B2 = crt("R2", "kR2", "R2"), crt("A2", "kA", "A", "R2", "kR2"), crt("B2", "kB", "B", "R2", "kR2")
    AX, RX, RX2 = crt("AX", "kA", "Another", "R", "kR"), crt("RX", "kR", "R", "R2", "kR2"), crt("RY", "kR", "R", "R", "kR", plen=7)
    allr = {"R": ROOT, "R2": row("R2", RT), "A": U("A", url("a")), "A2": U("A2", url("a2")), "B": U("B", url("b")), "B2": U("B2", url("b2")), "AX": U("AX", url("ax"), url("ax2")), "RX": U("RX", url("rx")), "RY": U("RY", url("ry")), "C": U("C", url("c"))}
    cs = [R, R2, A, A2, B, B2, AX, RX, RX2, CC]
    sets = ["R A A2 B", "R2 A A2 B", "R R2 A A2 B B2", "R2 B B2 C", "R B B2 C A", "R AX B", "R AX A B", "R AX", "R2 RX A B C", "R R2 RX A", "R RX A", "RX RY A B", "R RY A", "R2 RX RY AX", "R A B C B2", "R2 A B C B2", "RY A"]
    for n, s in enumerate(sets):
        for k in range(4 if deep else 2):
            l = [allr[x] for x in s.split()]
            if k:
                r.shuffle(l)
            yield one("cross-%d-%d" % (n, k), cs, *l, known=k == 1)
    for n, s in enumerate(("R A A2 B", "R R2 A A2 B", "R R2 A A2 AX B B2")):
        for dead in ("A", "A2", "R", "B", "AX"):
            l = [dict(allr[x], rev="Revoked") if x == dead else allr[x] for x in s.split()]
            r.shuffle(l)
            yield one("xrev-%d-%s" % (n, dead), cs, *l)
    yield one("old-a", [R, dict(A, life="expired"), crt("A3", "kA", "A", "R", "kR"), B], ROOT, U("A", url("a")), U("A3", url("a3")), U("B", url("b")), known=True)
    yield one("old-b", [R, crt("A0", "kA", "A", "R", "kR", life="expired"), A, B], U("B", url("b")), U("A", url("a")), U("A0", url("a0")), ROOT)
    # two certificates of an issuer, one of no use, below the same authority: in every order
    G = crt("G", "kG", "G", "R", "kR")
    for n, x in enumerate(({"life": "expired"}, {"eku": "client"}, {"life": "future"}, {"ca": "no"}, {"ku": "crl"}, {"plen": 0})):
        c4 = [R, G, crt("M", "kM", "M", "G", "kG", **x), crt("M2", "kM", "M", "G", "kG"), crt("L", "kL", "L", "M", "kM"), crt("LL", "kLL", "LL", "L", "kL")]
        l = [ROOT, U("G", url("g")), U("M", url("m")), U("M2", url("m2")), U("L", url("l")), U("LL", url("ll"))]
        for k in range(6 if deep else 3):
            r.shuffle(l)
            yield one("twin-%d-%d" % (n, k), [R] + c4[1:], *(l if k else sorted(l, key=lambda y: y["c"])))
            yield one("twinb-%d-%d" % (n, k), [R] + c4[1:], *(l if k else sorted(l, key=lambda y: y["c"])[::-1]), known=k == 0)
    # cycles, far from any root
    P, Q = crt("P", "kP", "P", "Q", "kQ"), crt("Q", "kQ", "Q", "P", "kP")
    yield one("cycle", [R, A, P, Q], ROOT, U("A", url("a")), U("P", url("p")), U("Q", url("q")))
    yield one("cycle2", [R, A, P, Q, crt("Q2", "kQ", "Q", "R", "kR")], U("P", url("p")), U("Q", url("q")), ROOT, U("Q2", url("q2")), U("A", url("a")), known=True)
    yield one("self", [R, crt("S", "kS", "S")], ROOT, U("S", url("s")))
    yield one("selfroot", [R, A], ROOT, U("R", url("r")), U("A", url("a")))
    yield one("aroot", [R, A, B], row("A", RT), U("A", url("a")), U("B", url("b")))
    yield one("arevoked", [R, A, B], row("A", RT, "Revoked"), U("A", url("a")), U("B", url("b")))
    deepc = [crt("D%d" % k, "kD%d" % k, "D%d" % k, "R" if k == 0 else "D%d" % (k - 1), "kR" if k == 0 else "kD%d" % (k - 1)) for k in range(6)]
    for n in (1, 3, 6):
        l = [ROOT] + [U("D%d" % k, url("d%d" % k)) for k in range(n)]
        yield one("deep-%d" % n, [R] + deepc, *l)
        yield one("deepr-%d" % n, [R] + deepc, *l[::-1], known=True)
    # several certificates of one key, and of one name
    same = [crt("S%d" % k, "kA", ["A", "A", "AA", "AAA"][k], "R", "kR", plen=[-1, 3, -1, 4][k]) for k in range(4)]
    for n in range(6 if deep else 3):
        l = [U("S%d" % k, *[url("s%d-%d" % (k, j)) for j in range((k + n) % 3)]) for k in range(4)]
        r.shuffle(l)
        l.insert(n % 4, ROOT)
        yield one("samekey-%d" % n, [R] + same, *l, known=True)
    tw = [crt("T%d" % k, "kT%d" % k, "T", "R", "kR") for k in range(3)] + [crt("L%d" % k, "kL%d" % k, "L%d" % k, "T", "kT%d" % k) for k in range(3)]
    yield one("samename", [R] + tw, U("L0", url("l0")), U("T0", url("t0")), U("L2", url("l2")), ROOT, U("T2", url("t2")), U("L1", url("l1")), known=True)
    for n, bad in enumerate(("T0", "T1")):
        yield one("samename-%s" % bad, [R] + tw, *[U(x, url(x.lower())) if x != bad else U(x, url(x.lower()), rev="Revoked") for x in ("L0", "L1", "T0", "T1")], ROOT)
    odd = [crt("O%d" % k, "kO%d" % k, "!odd%d" % k, "R", "kR") for k in range(3)] + [crt("OL", "kOL", "leafca", "!odd0", "kO0")]
    yield one("odd", [R] + odd, ROOT, *[U(x["id"], url(x["id"].lower())) for x in odd], known=True)


def cells():
    a, b, c = url("a"), url("b", "https"), "http://crl.c.test/x?y=1&z=2"
    com = "http://crl.a.test/x,y.crl"
    yield "none", "", "", [], False
    yield "emptyarr", "", "[]", [], False
    yield "blankarr", "", "[ ]", [], False
    yield "emptystr", "", '[""]', [], False
    yield "full", a, "", [a], False
    yield "https", b, "", [b], False
    yield "spaces", "  %s \t" % a, "", [a], False
    yield "quoted", '"%s"' % a, "", [a], False
    yield "nl", a + "\n", "", [a], False
    yield "one", "", js([a]), [a], True
    yield "two", "", js([a, b]), [a, b], True
    yield "three", "", js([c, b, a]), [a, b, c], True
    yield "sp", "", js([a, b], sp=" "), [a, b], True
    yield "lines", "", '[\n  "%s",\n  "%s"\n]' % (a, b), [a, b], True
    yield "both", a, js([b, c]), [a, b, c], True
    yield "same", a, js([a]), [a], True
    yield "twice", "", js([a, a, b]), [a, b], True
    yield "ftp", "ftp://x.test/a.crl", js([a]), [a], True
    yield "ldap", "ldap:///CN=x?certificateRevocationList", js([b]), [b], True
    yield "arrftp", a, js(["ldap:///CN=x?y", b, "ftp://x.test/q"]), [a, b], True
    yield "arrempty", "", js(["", a, ""]), [a], True
    yield "bad", "http://[::bad/x", js([a]), [a], True
    yield "badarr", a, js(["http://h.test:port/x", b]), [a, b], True
    yield "pct", "", js(["http://h.test/%zz", b]), [b], True
    yield "upper", "HTTP://crl.a.test/U.crl", "", ["http://crl.a.test/U.crl"], False
    yield "uppers", "", js(["HTTPS://crl.a.test/U.crl"]), ["https://crl.a.test/U.crl"], True
    yield "query", "http://crl.c.test/x?y=1&z=%2f", "", ["http://crl.c.test/x?y=1&z=%2f"], False
    yield "text", "not provided", "", [], False
    yield "rel", "/crl/a.crl", js([b]), [b], True
    yield "comma", "", js([com, b]), [com, b], True
    yield "commafull", com, "", [com], False
    yield "commaq", "", js(["http://crl.a.test/x?l=1,2,3"]), ["http://crl.a.test/x?l=1,2,3"], True
    yield "esc", "", js([a, b], esc=True), [a, b], True
    yield "amp", "", '["http://crl.c.test/x?y=1\\u0026z=2"]', [c], True
    yield "port", "http://h.test:8080/a.crl", js(["https://h.test:8443/b.crl"]), ["http://h.test:8080/a.crl", "https://h.test:8443/b.crl"], True
    yield "pathesc", "", js(["http://h.test/a%20b.crl", "http://h.test/a%2Fb.crl"]), ["http://h.test/a%20b.crl", "http://h.test/a%2Fb.crl"], True
    yield "bracket", "", js(["http://h.test/a[1].crl", "http://h.test/b]"]), ["http://h.test/a[1].crl", "http://h.test/b]"], True
    yield "long", "", js(["http://h.test/%d.crl" % k for k in range(30)]), ["http://h.test/%d.crl" % k for k in range(30)], True
    yield "bare", "", "[%s, %s]" % (a, b), [a, b], True
    yield "nobrackets", "", '"%s"' % a, [a], True


def fam_urls(r, deep):
    """Cells of the two columns, alone, repeated, and merged over rows of one key."""
    cl = list(cells())
    A2 = crt("A2", "kA", "A", "R", "kR", plen=3)
    for n, (k, f, p, us, pn) in enumerate(cl):
        x = row("A", full=f, part=p, urls=us, pn=pn)
        yield one("cell-%s" % k, [R, A, B], ROOT, x, U("B", url("bb")))
        y = row("A2", full=cl[(n * 7 + 3) % len(cl)][1], part=cl[(n * 7 + 3) % len(cl)][2], urls=cl[(n * 7 + 3) % len(cl)][3], pn=cl[(n * 7 + 3) % len(cl)][4])
        for m in range(3 if deep else 1):
            yield one("cell2-%s-%d" % (k, m), [R, A, A2], *[[ROOT, x, y], [y, ROOT, x], [y, x, ROOT]][(m + n) % 3], known=n % 6 == 0)
    P = {"u": ["http://s.test/1"], "v": ["http://s.test/2", "http://s.test/3"], "w": []}
    ks = [crt("K%d" % k, "kA", "N%d" % k, "R", "kR") for k in range(4)]
    for n in range(30 if deep else 10):
        rows = [U("K%d" % k, *P[r.choice("uvw")]) for k in range(4)] + [U("K%d" % r.randrange(4), "http://dup.test/x") for _ in range(n % 3)]
        rows = rows[: 4 + n % 3]
        tail = rows[4:]
        head = rows[:4]
        r.shuffle(head)
        head.insert(r.randrange(5), ROOT)
        yield one("merge-%d" % n, [R] + ks, *(head + tail), known=n % 5 == 0)
    # one certificate of the key revoked, expired, or leading nowhere: only the others' URLs count
    for n, kw in enumerate(({"rev": "Revoked"}, {"kind": "Other"}, {"pem": "trunc"})):
        yield one("part-%d" % n, [R, A, A2], ROOT, U("A", url("a"), url("a1")), U("A2", url("a2"), url("a3"), **kw))
        yield one("partb-%d" % n, [R, A, A2], U("A", url("a"), url("a1"), **kw), U("A2", url("a2")), ROOT)
    for n, x in enumerate((crt("AE", "kA", "A", "R", "kR", life="expired"), crt("AN", "kA", "A", "Nobody", "kN"), crt("AC", "kA", "A", "R", "kR", eku="client"))):
        yield one("partc-%d" % n, [R, A, x], ROOT, U(x["id"], url("x"), url("x1")), U("A", url("a")))
    for n in range(8 if deep else 4):  # which certificate comes first must not matter
        yield one("flag-%d" % n, [R, A, A2], *[[ROOT, U("A", url("a")), U("A2", "", url("p1"), url("p2"))], [U("A2", "", url("p1"), url("p2")), U("A", url("a")), ROOT]][n % 2], known=n == 0)
    for n in range(4):  # several issuers disclose the same URL
        yield one("share-%d" % n, [R, A, B, CC], ROOT, U("A", url("s")), U("B", url("s"), url("t")), U("C", url("t"), url("s")))


def fam_refresh(r, deep):
    """Which report is used when the local one is missing, old or broken and the next one comes whole, in parts or not at all."""
    cs = [R, A, B, CC]
    old = rep(ROOT, U("A", url("a")), U("B", url("old")))
    new = rep(ROOT, U("A", url("a"), url("a2")), U("C", url("c")), U("B", url("b")))
    sml = rep(ROOT, U("A", url("a")))
    mis = rep(ROOT, U("A", url("a")), cols="missing:RecordType.Name")
    cut = rep(ROOT, U("A", url("a")), U("B", url("b")), cut=70)
    reps = {"old": old, "new": new, "sml": sml, "mis": mis, "cut": cut}
    start = [("", 0), ("old", 0.1), ("old", 13), ("old", 400), ("sml", 13), ("mis", 0.1), ("mis", 20), ("cut", 0.1), ("cut", 20), ("new", 11), ("new", 13)]
    bad = [["cut:new:%d" % k] for k in range(5)] + [["cutchunk:new:%d" % k] for k in (1, 2, 3)] + [["status:500"], ["reset"], ["status:404:new"], ["status:206:new"]]
    good = [["ok:new"], ["chunk:new"], ["cut:new:2", "ok:new"], ["status:503", "reset", "chunk:new"], ["ok:mis"]]
    for n, (l, age) in enumerate(start):
        for k, a in enumerate(good + bad):
            if deep or k < len(good) or (n + k) % 2 == 0:
                yield Sc("fresh-%d-%d" % (n, k), cs, reps, [step(l, age, ans=a, head=["", "1", "20"][k % 3] if k < len(good) else ""), step(ans=[["reset"], ["ok:old"], ["status:500"]][(n + k) % 3]), step(ans=["ok:sml"])])
    for n in range(5):
        for k, (l, age) in enumerate((("old", 13), ("", 0), ("cut", 0.1))):
            yield Sc("killed-%d-%d" % (n, k), cs, reps, [step(l, age, ans=["kill:new:%d" % n]), step(ans=["reset"]), step(ans=["ok:new"])])
            yield Sc("killedr-%d-%d" % (n, k), cs, reps, [step(l, age, ans=["kill:new:%d" % n]), step(ans=["cut:old:%d" % (n % 4), "ok:old"]), step(ans=["reset"])])
    for n, h in enumerate(("0.5", "14", "500", "")):
        yield Sc("head-%d" % n, cs, reps, [step("sml", 13, ans=["ok:new"], head=h), step(ans=["ok:old"], head=h), step(remove=True, ans=["ok:sml"], head=h)])
        yield Sc("headcut-%d" % n, cs, reps, [step("sml", 13, ans=["cut:new:2"], head=h), step(ans=["cut:new:3", "ok:new"], head=h), step(ans=["ok:new"], head=h)])


def fam_random(r, deep):
    for n in range(300 if deep else 60):
        nk, cs = r.randint(2, 6), [R, crt("R2", "kR2", "R2")]
        keys = ["k%d" % k for k in range(nk)]
        for k in range(r.randint(2, 9)):
            p = r.choice(cs + [R])
            key = r.choice(keys)
            c = crt("X%d" % k, key, r.choice([key + "n", key + "n", key + "m"]), p["subj"], p["key"])
            if r.random() < .3:
                c.update(r.choice([{"life": "expired"}, {"ca": "no"}, {"eku": "client"}, {"eku": "server"}, {"plen": 0}, {"plen": 1}, {"plen": 3}, {"bad": True}, {"ku": "crl"}, {"ku": "none"}, {"sign": "kZ"}]))
            cs.append(c)
        cl = [c for c in cells()]
        rows = []
        for c in cs:
            k, f, p, us, pn = r.choice(cl)
            if c["id"][0] == "R":
                rows.append(row(c["id"], RT, r.choice(["", "Not Revoked", "Not Revoked", "Revoked"] if c["id"] == "R2" else ["", "Not Revoked"])))
            else:
                rows.append(row(c["id"], r.choice([IM] * 9 + ["Other"]), r.choice(["Not Revoked"] * 8 + ["Revoked"]), f, p, us, pn, r.choice(["ok"] * 9 + ["trunc", "tail", "lead"])))
        for _ in range(r.randint(0, 2)):
            rows.append(dict(r.choice([x for x in rows if x["kind"] != "x"]), full=url("again"), part="", urls=[url("again")], pn=False))
        # a certificate is either revoked in all its rows or in none
        seen = {}
        for x in rows:
            x["rev"] = seen.setdefault((x["c"]), x["rev"])
        r.shuffle(rows)
        yield one("rnd-%d" % n, cs, *rows, cols=r.choice(["std", "extra", "shuffled"]), eol=r.choice(["", "crlf"]), known=n % 3 == 0, tool=r.choice(["", "", "", "get"]))


FAMS = {"rows": fam_rows, "chains": fam_chains, "urls": fam_urls, "refresh": fam_refresh, "rnd": fam_random}
QUICK = {"I01": ["rows", "chains", "refresh", "rnd"], "I02": ["urls", "rnd", "rows"], "I03": ["chains", "urls", "rnd"]}
MCCFG = {"I01": ["MCRoots_read", "MCRoots_get"], "I02": ["MCRoots_urls"], "I03": ["MCRoots_urls"]}
DEEPCFG = ["MCRoots_read", "MCRoots_urls", "MCRoots_get", "MCRoots_big"]


def scenarios(pid, deep):
    out = []
    for f in (FAMS if deep else QUICK[pid]):
        out += list(FAMS[f](random.Random("%s/%s/%s" % (SEED, f, "deep" if deep else pid)), deep))
    return out


# --------------------------------------------------- behaviours of the design
MC = {"R": R, "Q": crt("Q", "kQ", "Q"), "A": crt("A", "kA", "A", "R", "kR"), "A2": crt("A2", "kA", "A2", "Q", "kQ"), "B": crt("B", "kB", "B", "A", "kA"), "E": crt("E", "kE", "E", "R", "kR", life="expired"), "D": crt("D", "kD", "D", "E", "kE")}
MU = {"u": "http://mc.test/u.crl", "v": "http://mc.test/v.crl"}


def scripts(text, limit, tag):
    seen, out = set(), []
    for m in re.finditer(r'^"SCRIPT (.*)"$', text, re.M):
        key = m.group(1).replace('\\"', '"')
        if key in seen:
            continue
        seen.add(key)
        x = json.loads(key)
        rs = {n: rep(*[row(y["c"], {"root": RT, "inter": IM, "other": "Other"}[y["kind"]], "Revoked" if y["rev"] else "", part=js([MU[u] for u in y["urls"]]) if y["part"] else "", full="" if y["part"] or not y["urls"] else MU[y["urls"][0]],
                              urls=[MU[u] for u in y["urls"]], pn=y["part"], pem="ok" if y["parse"] else "trunc") for y in q]) for n, q in x["reps"].items()}
        st, put = [], {}
        for h in x["hist"]:
            if h["op"] == "local":
                put = {"local": h["r"], "age": 0.1 if h["fresh"] else 14}
            elif h["op"] == "begin":
                st.append(step(**put))
                put = {}
            else:
                st[-1]["ans"].append("ok:" + h["r"] if h["how"] == "ok" else "%s:%s:%d" % (h["how"], h["r"], h["n"]))
        for s in st:
            s["ans"] = s["ans"] or ["reset"]
        out.append(Sc("mc-%s-%d" % (tag, len(out)), list(MC.values()), rs, st))
    random.Random(tag).shuffle(out)
    return out[:limit]


def check(pid, tier, t0):
    deep = tier == "thorough"
    work = scratch()
    build()
    mcs = [Tlc("MCRoots", c + ".cfg", workers=6 if deep else 2, heap="8g" if deep else "4g", timeout=2400) for c in (DEEPCFG if deep else MCCFG[pid])]
    h = int(hashlib.sha256(("%s/%s" % (pid, SEED)).encode()).hexdigest()[:6], 16)
    sims = [Tlc("MCRoots", "MCRoots_sim%d.cfg" % n, args=["-simulate", "num=%d" % (600 if deep else 120), "-depth", "60", "-seed", str(h + n)], workers=1) for n in (1, 2)]
    scs = scenarios(pid, deep)
    for n, s in enumerate(sims):
        s.wait()
        if "violated" in s.text:
            raise Trouble("simulation of the design violates a property:\n" + s.text[-2000:])
        scs += scripts(s.text, 300 if deep else 40, "%s-%d" % (pid, n))
    nmc = sum(1 for s in scs if s["id"].startswith("mc-"))
    byid = {s["id"]: s for s in scs}
    scs = list(byid.values())
    o, res = traces.execute(FAM, scs, work, jobs=16 if deep else 10, timeout=3000 if deep else 600)
    errs = [r for r in res if r.get("err")]
    broken, ntr, states, _ = traces.validate(FAM, o, work, chunks=6 if deep else 4, timeout=3000 if deep else 600)
    mc_d = mc_g = 0
    for m in mcs:
        d, g = model_check(m, "MCRoots")
        mc_d += d
        mc_g += g
    return traces.finish(FAM, pid, tier, t0, scs, byid, res, errs, broken, ntr, states, mc_d, mc_g, nmc, work)


def replay(pid, obj, t0):
    return traces.replay(FAM, pid, obj, t0)
