"""The publisher: moz_kinto_publisher/main.py run against simulated collections and buckets, validated against Publish.tla."""
import hashlib, itertools, json, random, re
from .common import *
from . import traces

PROPS = ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08"]
FAM = traces.Family("publish", "", "PublishTrace", "MCPublish over Publish", cmd=["python3-vt", ROOT + "/harness/py/pub.py"])
DAY, H6 = 86400, 21600
CHS = ("default", "compat")


def M(m, **kw): return dict({"m": m}, **kw)
def mods(*l): return {"op": "mods", "do": list(l)}
def pub(*plan, **kw): return dict({"op": "pub", "plan": list(plan)}, **kw)
def run(id, gap=H6, **kw): return M("run", id=id, gap=gap, **kw)
def on(key, how=None, nth=1, **kw):
    p = dict({"on": key, "nth": nth}, **kw)
    return dict(p, how=how) if how else p
def UP(*ops): return M("upstream", ops=[{"name": n, "logs": [x if isinstance(x, dict) else {"n": x} for x in l], "tiled": [x if isinstance(x, dict) else {"n": x} for x in t]} for n, l, t in ops])
U0 = UP(("Op", ["L0", "L1"], ["T0"]))
LOGS0 = [M("lrec", n=n, tiled=n[0] == "T") for n in ("L0", "L1", "T0")]
INTS0 = [M("irec", cert="c0"), M("irec", cert="c1")]
def D(n): return "202104%02d" % n
def R(d, k=0): return "%s-%d" % (D(d), k)
def Sc(id, *steps, **kw): return dict({"id": id, "steps": [mods(U0)] + list(steps)}, **kw)


def chain(n=3, d=1):
    """A first run, and n - 1 more, each published."""
    out = [mods(run(R(d)))] + [pub()]
    for k in range(1, n):
        out += [mods(run(R(d + k // 4, k % 4))), pub()]
    return out


def quiet(n=3, **kw):
    """The same state, but put there by hand: cheaper."""
    out = list(LOGS0) + list(INTS0)
    for k in range(n):
        out.append(run(R(1 + k // 4, k % 4), ts=90 * DAY + k * H6, gap=0))
    for c in CHS:
        d = "clubcard-all" if c == "default" else "clubcard-priority"
        for k in range(n):
            r = R(1 + k // 4, k % 4)
            t = 90 * DAY + k * H6
            out.append(M("put", ch=c, kind="delta" if k else "full", art="%s/%s/%s" % (r, d, "filter.delta" if k else "filter"), ts=t, parent_run=R(1 + (k - 1) // 4, (k - 1) % 4) if k else "",
                         name="%s-%s.filter%s" % (r, c, ".delta" if k else "")))
    return [mods(*out, M("sign"), M("tick", s=n * H6))]


def fam_hist(r, deep):
    """Ordinary and odd histories of runs."""
    yield Sc("h-empty", pub(), mods(run(R(1))), pub(), pub())
    yield Sc("h-chain", *chain(6))
    yield Sc("h-catch-up", mods(run(R(1))), pub(), mods(*[run(R(1, k)) for k in range(1, 6)]), pub(), pub())
    yield Sc("h-catch-up0", mods(*[run(R(1, k)) for k in range(4)]), pub(), mods(run(R(2))), pub())
    for n in (9, 10, 11, 12, 22):
        yield Sc("h-many-%d" % n, mods(run(R(1))), pub(), mods(*[run(R(1, k), gap=600) for k in range(1, n)]), pub(), mods(run(R(1, n), gap=600)), pub(), mods(run(R(2))), pub())
        yield Sc("h-many2-%d" % n, *[mods(run(R(1, k), gap=600)) for k in range(n - 2)], pub(), mods(run(R(1, n - 2), gap=600)), pub(), mods(run(R(1, n - 1), gap=600), run(R(1, n), gap=600)), pub(), pub())
    # the age at which a full filter is due; the oldest run is not the first by name
    for days in (19, 20, 21, 44, 45, 46, 60):
        for off in (-1, 0, 1):
            if off and days not in (20, 45):
                continue
            t0 = 90 * DAY
            yield Sc("h-age-%d-%d" % (days, off), mods(run(R(1), ts=t0)), pub(), mods(run(R(2), ts=t0 + DAY)), pub(), mods(run("20210601-0", ts=t0 + days * DAY + off)), pub(), pub())
            for a, b, c in ((9, 10, 11), (2, 10, 11), (8, 9, 10)):
                yield Sc("h-age2-%d-%d-%d" % (days, off, a), mods(*[run(R(1, k), ts=t0 + 600 * k) for k in range(a + 1)]), pub(),
                         *[s for k in range(a + 1, c + 1) for s in (mods(run(R(1, k), ts=t0 + (k - a) * 8 * DAY)), pub())], mods(run("20210601-0", ts=t0 + 600 * a + days * DAY + off)), pub(), pub())
    # gaps between dates, months, years
    yield Sc("h-dates", *[s for k, d in enumerate(("20201231-0", "20210101-0", "20210101-1", "20210131-9", "20210131-10", "20210201-0", "20211231-0", "20220101-0")) for s in (mods(run(d, ts=DAY * k)), pub())])
    # times of runs: equal, going back, in the future, among the new ones and between old and new
    seqs = list(itertools.product((-1, 0, 1), repeat=2))
    for n, (a, b) in enumerate(seqs):
        t = 90 * DAY + 2 * H6
        t1, t2 = t + a * 3600, t + a * 3600 + b * 3600
        for k, last in enumerate((False, True)):
            yield Sc("h-times-%d-%d" % (n, k), *quiet(3), mods(run(R(1, 3), ts=t1), run(R(2), ts=t2)), pub(), *([mods(run(R(2, 1), ts=t + 9 * 3600)), pub(), pub()] if last else [pub()]))
        yield Sc("h-times1-%d" % n, *quiet(3), mods(run(R(1, 3), ts=t1)), pub(), mods(run(R(2), ts=t2)), pub(), pub(), mods(run(R(2, 1), ts=t + 9 * 3600)), pub(), pub())
    yield Sc("h-times-sub", *quiet(3), mods(run(R(1, 3), ts=90 * DAY + 2 * H6 - 60)), pub(), mods(run(R(2), ts=90 * DAY + 3 * H6)), pub(), mods(run(R(2, 1), ts=90 * DAY + 4 * H6)), pub())
    yield Sc("h-times-back", *quiet(2), mods(run(R(1, 3), ts=90 * DAY - 60)), pub(), pub(), mods(run(R(2), ts=90 * DAY + 3 * H6)), pub(), mods(run(R(2, 1), ts=90 * DAY + 4 * H6)), pub())
    for o in ("asc", "shuffle"):
        yield Sc("h-order-%s" % o, *chain(5), order=o, seed=3)
    # nothing to publish, then more
    yield Sc("h-idle", *chain(2), pub(), pub(), mods(M("tick", s=DAY)), pub(), mods(run(R(3))), pub())
    # the collection is emptied
    yield Sc("h-wiped", *quiet(3), mods(M("del")), pub(), mods(run(R(3))), pub())
    yield Sc("h-wiped1", *quiet(3), mods(M("del", ch="compat")), pub(), mods(run(R(3))), pub())
    # one channel is ahead of the other
    yield Sc("h-ahead", *quiet(4), mods(M("del", ch="compat", slice=[3, 4])), pub(), mods(run(R(3))), pub())
    yield Sc("h-ahead2", *quiet(4), mods(M("del", ch="default", slice=[1, 4])), pub(), mods(run(R(3))), pub())


def fam_bucket(r, deep):
    """What is in the bucket."""
    files = ["completed", "timestamp", "ct-logs.json", "enrolled.json", "clubcard-all/filter", "clubcard-all/filter.delta", "clubcard-priority/filter", "clubcard-priority/filter.delta", "known/aaaa"]
    for n, f in enumerate(files):
        # of the only run, the newest, a middle one, an old one
        kw = {"done": False} if f == "completed" else {"miss": [f]}
        yield Sc("b-only-%d" % n, mods(run(R(1), **kw)), pub(), mods(run(R(1, 1))), pub(), pub())
        yield Sc("b-new-%d" % n, *quiet(2), mods(run(R(3), **kw)), pub(), mods(run(R(3, 1))), pub(), pub())
        yield Sc("b-mid-%d" % n, *quiet(2), mods(run(R(3), **kw), run(R(3, 1))), pub(), mods(run(R(3, 2))), pub())
        yield Sc("b-mid2-%d" % n, *quiet(2), mods(run(R(3)), run(R(3, 1), **kw), run(R(3, 2))), pub(), mods(run(R(3, 3))), pub())
        for k in (0, 1):
            yield Sc("b-old-%d-%d" % (n, k), *quiet(2), mods(M("lose", run=R(1, k), what=f), run(R(3))), pub(), mods(run(R(3, 1))), pub())
            yield Sc("b-old2-%d-%d" % (n, k), *quiet(2), mods(M("lose", run=R(1, k), what=f)), pub(), pub())
    for k in range(3):
        yield Sc("b-gone-%d" % k, *quiet(3), mods(M("lose", run=R(1, k)), run(R(3))), pub(), mods(run(R(3, 1))), pub())
        yield Sc("b-gone2-%d" % k, *quiet(3), mods(M("lose", run=R(1, k))), pub(), pub())
    yield Sc("b-gone-all", *quiet(3), mods(*[M("lose", run=R(1, k)) for k in range(3)]), pub(), mods(run(R(3))), pub())
    # strays
    for n, s in enumerate(["20210101-3-old/completed", "%s-old/completed" % R(1, 1), "%s.bak/completed" % R(1, 1), "%s~/x" % R(1, 2), "2021-01-01-0/completed", "latest/completed", "x%s/completed" % R(9), "%s" % R(9), "20210409/completed", "%sx/completed" % R(9), "2021040-11/completed", "%s-0/filter" % R(2), " %s/completed" % R(8)]):
        yield Sc("b-stray-%d" % n, mods(M("stray", name=s)), *quiet(3), mods(run(R(3))), pub(), mods(run(R(3, 1)), M("stray", name=s + "2")), pub(), pub())
        yield Sc("b-stray1-%d" % n, mods(M("stray", name=s)), *chain(3))
    # the newest run is not finished when publishing starts
    for n, key in enumerate(("sleep", "gexists:completed", "glist")):
        for nth in (1, 2, 3, 8):
            for k, do in enumerate(([M("done", run=R(3))], [run(R(3, 1), gap=0)], [M("lose", run=R(3))])):
                if deep or (nth + k + n) % 2:
                    yield Sc("b-wait-%d-%d-%d" % (n, nth, k), *quiet(2), mods(run(R(3), done=False)), pub(on(key, nth=nth, do=do)), pub(), mods(M("done", run=R(3)) if k != 2 else run(R(4))), pub())
    # a run appears while publishing
    for n, key in enumerate(("list:cert-revocations", "glist", "gexists:completed", "gexists:clubcard-all/filter", "gget:timestamp", "gget:clubcard-all/filter", "gget:clubcard-all/filter.delta", "create:cert-revocations", "attach:cert-revocations", "delete:cert-revocations", "patch_collection:cert-revocations", "gget:enrolled.json", "list:intermediates")):
        for nth in (1, 2):
            for full in (False, True):
                for k, m in enumerate((run(R(4), gap=0), run(R(4), gap=0, done=False), run(R(4), gap=0, local=["c0", "c2"]), run(R(4), gap=0, miss=["enrolled.json"]))):
                    if deep or (n + nth + full + k) % 4 == 0:
                        yield Sc("b-race-%d-%d-%d-%d" % (n, nth, full, k), *quiet(2), mods(run(R(3)), *([M("edit", kind="delta", unset=["parent"])] if full else [])), pub(on(key, nth=nth, do=[m])), pub(), mods(run(R(5))), pub())


TAMPER = {
    "nofull": [M("del", kind="full")], "nodelta": [M("del", kind="delta")], "nomid": [M("del", slice=[1, 2])], "noleaf": [M("del", slice=[2, 3])], "wipe": [M("del")],
    "twofull": [M("copy", kind="full")], "twofull2": [M("copy", slice=[2, 3], set={"incremental": False})], "branch": [M("copy", slice=[2, 3])], "dupmid": [M("copy", slice=[1, 2])],
    "branch2": [M("copy", slice=[2, 3], set={"details": {"name": "2021-04-01T18:00:00+00:00Z-diff"}})],
    "selfparent": [M("edit", slice=[2, 3], self=True)], "selfmid": [M("edit", slice=[1, 2], self=True)], "cycle": [M("edit", slice=[1, 2], parent_run=R(1, 2))], "skip": [M("edit", slice=[2, 3], parent_run=R(1, 0))],
    "unknownparent": [M("edit", slice=[2, 3], set={"parent": "nobody"})], "unknownparent1": [M("edit", slice=[1, 2], set={"parent": "nobody"})],
    "nullparent": [M("edit", slice=[2, 3], set={"parent": None})], "noparent": [M("edit", slice=[2, 3], unset=["parent"])], "noparent1": [M("edit", slice=[1, 2], unset=["parent"])],
    "noattach": [M("edit", slice=[2, 3], unset=["attachment"])], "noattach0": [M("edit", slice=[0, 1], unset=["attachment"])], "noattach1": [M("edit", slice=[1, 2], unset=["attachment"])],
    "noinc": [M("edit", slice=[2, 3], unset=["incremental"])], "noinc0": [M("edit", slice=[0, 1], unset=["incremental"])], "nullinc": [M("edit", slice=[2, 3], set={"incremental": None})], "nullinc0": [M("edit", slice=[0, 1], set={"incremental": None})],
    "fulltodelta": [M("edit", slice=[0, 1], set={"incremental": True})], "fulltodelta2": [M("edit", slice=[0, 1], set={"incremental": True, "parent": "nobody"})], "deltatofull": [M("edit", slice=[2, 3], set={"incremental": False})], "deltatofull1": [M("edit", slice=[1, 2], set={"incremental": False})],
    "otherrun": [M("edit", slice=[2, 3], rename="20210301-0-default.filter.delta")], "nosuchrun": [M("edit", slice=[0, 1], rename="20210301-0-default.filter")], "newerrun": [M("edit", slice=[0, 1], rename="20210408-0-default.filter")],
    "moved": [M("edit", slice=[2, 3], set={"channel": "compat"})], "moved0": [M("edit", slice=[0, 1], set={"channel": "compat"})], "nochannel": [M("edit", unset=["channel"])],
    "swapnames": [M("edit", slice=[1, 2], set={"details": {"name": "2021-04-01T23:00:00+00:00Z-diff"}})], "reverse": [M("edit", slice=[2, 3], set={"details": {"name": "2021-03-01T00:00:00+00:00Z-diff"}})],
    "fulllast": [M("edit", slice=[0, 1], set={"details": {"name": "2021-04-01T23:00:00+00:00Z-full"}})], "same": [M("edit", slice=[2, 3], set={"details": {"name": "2021-04-01T06:00:00+00:00Z-diff"}})],
}


def fam_tamper(r, deep):
    """Records that somebody else changed."""
    for n, (k, ms) in enumerate(TAMPER.items()):
        for c, ch in enumerate(CHS):
            if c and not deep and n % 3:
                continue
            for new in (False, True):
                yield Sc("t-%s-%d-%d" % (k, c, new), *quiet(3), mods(*[dict(m, ch=ch) for m in ms], *([run(R(3))] if new else [])), pub(), pub(), mods(run(R(4))), pub(), order=("desc", "asc", "shuffle")[(n + c + new) % 3], seed=n)
        if deep or n % 2:
            yield Sc("t-%s-both" % k, *quiet(3), mods(*[dict(m, ch=ch) for m in ms for ch in CHS], run(R(3))), pub(), pub(), order="shuffle", seed=n)
    # while publishing
    for n, key in enumerate(("list:cert-revocations", "glist", "gget:timestamp", "create:cert-revocations", "attach:cert-revocations", "delete:cert-revocations")):
        for k in ("nofull", "branch", "noattach", "wipe", "twofull", "moved"):
            if deep or r.random() < 0.3:
                yield Sc("t-mid-%d-%s" % (n, k), *quiet(3), mods(run(R(3))), pub(on(key, do=[dict(m, ch="default") for m in TAMPER[k]])), pub(), mods(run(R(4))), pub(), pub())


def fam_chans(r, deep):
    """Channels in use, retired, and foreign."""
    for n, ch in enumerate(("experimental+deltas", "experimental", "specified", "Default", "default2", "", "compat-old")):
        for k, kind in enumerate(("full", "delta")):
            x = [M("put", ch=ch, kind=kind, art="%s/clubcard-all/filter" % R(1), ts=90 * DAY, parent="nobody")]
            y = x + [M("put", ch=ch, kind="delta", art="%s/clubcard-all/filter.delta" % R(1, 1), ts=90 * DAY + H6, parent_run=R(1))] if kind == "full" else x
            if ch == "":
                continue
            yield Sc("c-put-%d-%d" % (n, k), *quiet(2), mods(*y), pub(), mods(run(R(3))), pub())
            yield Sc("c-put0-%d-%d" % (n, k), mods(*y), pub(), mods(run(R(3))), pub(), mods(M("del", ch="default")), pub())
            yield Sc("c-bad-%d-%d" % (n, k), *quiet(2), mods(*[dict(m, unset=u) for m in y for u in (["attachment"], ["incremental"], ["parent"], ["effectiveTimestamp"])]), pub(), mods(run(R(3)), M("edit", ch="default", kind="delta", unset=["parent"])), pub())
            yield Sc("c-all-%d-%d" % (n, k), *quiet(2), mods(*y, run(R(3)), M("del", ch="default", kind="full"), M("del", ch="compat", kind="full")), pub(), pub())
    yield Sc("c-null", *quiet(2), mods(M("put", ch="x", kind="full", art="%s/clubcard-all/filter" % R(1), ts=90 * DAY, set={"channel": None})), pub(), mods(run(R(3))), pub())
    # records without a channel belong to the default one
    yield Sc("c-legacy", *quiet(2), mods(M("edit", ch="default", unset=["channel"]), run(R(3))), pub(), mods(run(R(3, 1))), pub())
    yield Sc("c-legacy1", *quiet(2), mods(M("edit", ch="default", kind="full", unset=["channel"]), run(R(3))), pub(), mods(M("edit", ch="default", kind="delta", unset=["parent"]), run(R(3, 1))), pub())
    yield Sc("c-legacy2", *quiet(2), mods(M("put", ch="x", kind="full", art="%s/clubcard-all/filter" % R(1), ts=90 * DAY, unset=["channel"])), pub(), mods(run(R(3))), pub())
    # only one channel can or must be replaced
    for n, (ch, d) in enumerate((("default", "clubcard-all"), ("compat", "clubcard-priority"))):
        for f in ("filter", "filter.delta"):
            yield Sc("c-one-%d-%s" % (n, f), *quiet(2), mods(run(R(3), miss=[d + "/" + f])), pub(), pub(), mods(run(R(4))), pub())
            yield Sc("c-two-%d-%s" % (n, f), *quiet(2), mods(run(R(3), miss=[d + "/" + f]), run(R(3, 1))), pub(), pub(), mods(run(R(4))), pub())
        yield Sc("c-shift-%d" % n, *quiet(2), mods(M("edit", ch=ch, set={"channel": CHS[1 - n]})), pub(), mods(run(R(3))), pub())
        yield Sc("c-names-%d" % n, *quiet(2), mods(M("del", ch=ch), run(R(3))), pub(), mods(run(R(4))), pub())


HOWS = ("kill", "killafter", "before", "after", "conn", "lie", "garble", "gone", "forbidden", "err")


def fam_faults(r, deep):
    """Each request fails, or the publisher dies there."""
    prep = {"full": quiet(2) + [mods(run(R(3)), M("edit", kind="delta", unset=["parent"]))], "delta": quiet(2) + [mods(run(R(3)), run(R(3, 1)), M("sign"))],
            "first": [mods(run(R(1), local=["c0", "c1", "c2"]))], "sync": quiet(2) + [mods(run(R(3), local=["c1", "c2", "c3", "c7"]), M("irec", cert="c1"), M("irec", cert="c5", bad="garbage"), UP(("Op", ["L1", {"n": "L2"}], [{"n": "T0", "mmd": 5}, "T1"])))],
            "mixed": quiet(3) + [mods(run(R(3)), M("edit", ch="compat", kind="full", unset=["attachment"]), M("put", ch="experimental+deltas", kind="full", art="%s/clubcard-all/filter" % R(1), ts=1))]}
    for p, steps in prep.items():
        for at in range(100):
            hs = HOWS if deep else [r.choice(HOWS[:2]), r.choice(HOWS[2:])] if at % 2 == 0 else [r.choice(HOWS)]
            for how in hs:
                if deep or at < 75:
                    yield Sc("f-%s-%d-%s" % (p, at, how), *steps, pub({"at": at, "how": how}, fresh=bool(at % 2)), pub(), mods(run(R(4), local=["c0", "c1"])), pub(), pub())
    keys = ["create:cert-revocations", "attach:cert-revocations", "delete:cert-revocations", "list:cert-revocations", "collection:cert-revocations", "patch_collection:cert-revocations", "create:intermediates", "attach:intermediates", "delete:intermediates", "update:intermediates", "list:intermediates", "pem", "collection:intermediates",
            "create:ct-logs", "update:ct-logs", "delete:ct-logs", "list:ct-logs", "loglist", "gget:.*", "gget:timestamp", "gget:enrolled.json", "gexists:.*", "glist", "info"]
    for p, steps in prep.items():
        for k in keys:
            for how in HOWS:
                if deep or r.random() < 0.25:
                    yield Sc("fe-%s-%s-%s" % (p, k, how), *steps, pub(dict(on(k, how), every=r.random() < 0.5)), pub(), mods(run(R(4))), pub(), pub())
    # two deaths in a row
    for n in range(200 if deep else 30):
        p = r.choice(sorted(prep))
        yield Sc("f2-%d" % n, *prep[p], *[pub({"at": r.randrange(70), "how": r.choice(HOWS[:4] + ("kill", "killafter"))}, fresh=r.random() < 0.5) for _ in range(r.randint(2, 3))], pub(), mods(run(R(4))), pub(), pub())


BADI = ("noattach", "garbage", "other", "trail", "gone", "nohash", "badhash", "shorthash", "b64", "pem")
BADL = ("pubkey", "shortkey", "b64", "nokey", "nosubject", "nopem", "trunc")


def fam_ints(r, deep):
    """The intermediates here and there."""
    sets = [[], ["c0"], ["c0", "c1"], ["c1", "c2"], ["c2", "c3"], ["c2", "c3", "c4", "c5"], ["c6", "c7"], ["c0", "c0"], ["c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9"]]
    for n, (a, b) in enumerate(itertools.product(sets, repeat=2)):
        if deep or n % 3 == r.randrange(3):
            yield Sc("i-%d" % n, *quiet(1), mods(M("idel", cert="*"), *[M("irec", cert=c) for c in a], run(R(3), local=b)), pub(), pub(), mods(run(R(3, 1), local=a)), pub(), order=("desc", "asc", "shuffle")[n % 3], seed=n)
    for n, bad in enumerate(BADI):
        for k, c in enumerate(("c0", "c1", "c5")):
            for dup in (False, True):
                yield Sc("i-bad-%s-%d-%d" % (bad, k, dup), *quiet(1), mods(M("idel", cert="c0"), *([M("irec", cert=c)] if dup and c != "c1" else []), M("irec", cert=c, bad=bad), run(R(3), local=["c0", "c1"])), pub(), pub(), pub())
    for n, bad in enumerate(BADL):
        for k, l in enumerate((["c0", {"cert": "c1", "bad": bad}], [{"cert": "c1", "bad": bad}, "c1", "c0"], ["c2", {"cert": "c3", "bad": bad}], [{"cert": "c0", "bad": bad}])):
            yield Sc("i-loc-%s-%d" % (bad, k), *quiet(1), mods(run(R(3), local=l)), pub(), pub(), mods(run(R(3, 1))), pub())
    for n, raw in enumerate(("", "[]", "{}", "null", "[1]", "[{}]", '["x"]', "[", "nonsense")):
        yield Sc("i-raw-%d" % n, *quiet(1), mods(run(R(3), raw=raw)), pub(), pub(), mods(run(R(3, 1))), pub())
    for n, (key, nth) in enumerate(itertools.product(("list:intermediates", "pem", "create:intermediates", "attach:intermediates", "delete:intermediates", "collection:intermediates", "patch_collection:intermediates"), (1, 2, 3))):
        for k, do in enumerate(([M("idel", cert="c0")], [M("irec", cert="c5")], [M("irec", cert="c1")], [M("irec", cert="c5", bad="garbage")], [M("iedit", cert="c0", set={"derHash": "AAAA"})], [M("iedit", cert="c1", pem="c9")], [M("idel", cert="*")])):
            if deep or (n + k) % 4 == 0:
                if key not in ("collection:intermediates", "patch_collection:intermediates"):
                    yield Sc("i-mid-%d-%d" % (n, k), *quiet(1), mods(M("irec", cert="c4"), run(R(3), local=["c0", "c1", "c2", "c7"])), pub(on(key, nth=nth, do=do)), pub(), pub())
    yield Sc("i-norun", mods(*INTS0), pub(), mods(run(R(3))), pub())
    yield Sc("i-old", *quiet(2), mods(run(R(3), local=["c5"], done=False)), pub(), mods(M("done", run=R(3))), pub())
    for how in HOWS:
        for key in ("create", "attach", "delete"):
            yield Sc("i-f-%s-%s" % (key, how), *quiet(1), mods(M("irec", cert="c4"), run(R(3), local=["c1", "c2", "c3", "c7"])), pub(dict(on(key + ":intermediates", how, nth=r.choice((1, 2))), every=r.random() < 0.3)), pub(), pub())


def fam_logs(r, deep):
    """The log list and the collection of logs."""
    st = ("pending", "qualified", "usable", "readonly", "retired", "rejected", "none")
    for n, (a, b) in enumerate(itertools.product(st, repeat=2)):
        if deep or a == b or n % 2:
            yield Sc("l-state-%s-%s" % (a, b), mods(UP(("Op", [{"n": "L0", "state": a}, "L1"], [{"n": "T0", "state": b}]))), pub(), mods(UP(("Op", [{"n": "L0", "state": b}, "L1"], [{"n": "T0", "state": a}]))), pub(), pub())
    chg = [{"url": "https://new.test/"}, {"mmd": 5}, {"desc": "Renamed"}, {"state": "retired"}, {"state": "rejected"}, {"url": "https://new.test/", "mmd": 7, "desc": "N"}, {"badid": True}]
    for n, c in enumerate(chg):
        for k, t in enumerate((False, True)):
            u = UP(("Op", ["L0"] + ([] if t else [dict({"n": "L1"}, **c)]), ["T0"] if not t else [dict({"n": "T0"}, **c)]))
            for e in ("yes", "no", "half"):
                yield Sc("l-chg-%d-%d-%s" % (n, k, e), mods(*LOGS0, *([M("lenr", n="*", enr=False)] if e == "no" else [M("lenr", n="L0", enr=False)] if e == "half" else []), M("sign")), mods(u), pub(), mods(U0), pub(), pub())
    yield Sc("l-op", mods(*LOGS0, UP(("Other", ["L0"], []), ("Op", ["L1"], ["T0"]))), pub(), pub())
    yield Sc("l-kind", mods(*LOGS0, UP(("Op", ["L0", "T0"], ["L1"]))), pub(), pub())
    yield Sc("l-kind2", mods(UP(("Op", ["L0", "L1"], []))), pub(), mods(UP(("Op", ["L0"], ["L1"]))), pub(), mods(UP(("Op", [], ["L0", "L1"]))), pub(), pub())
    yield Sc("l-empty", mods(*LOGS0, UP()), pub(), mods(U0), pub())
    yield Sc("l-empty2", mods(*LOGS0, UP(("Op", [], []))), pub())
    for n, dup in enumerate(((("Op", ["L0", "L0"], []),), (("Op", ["L0"], ["L0"]),), (("Op", ["L0"], []), ("Op2", ["L0"], [])))):
        yield Sc("l-dup-%d" % n, mods(*LOGS0[:n], UP(*dup)), pub(), mods(U0), pub())
    yield Sc("l-rdup", mods(*LOGS0, LOGS0[0]), pub(), mods(UP(("Op", ["L1"], []))), pub())
    for n, u in enumerate(("admissible", "description", "key", "mmd", "operator", "tiled", "url")):
        yield Sc("l-unset-%d" % n, mods(M("lrec", n="L0", unset=[u]), M("lrec", n="L1", enr=False, unset=[u])), pub(), pub())
    for n, ls in enumerate((["L0"], ["L1", "T0"], ["L0", "L1", "T0", "L5", "L6"], ["L5"])):
        for e in (True, False):
            yield Sc("l-set-%d-%d" % (n, e), mods(*[M("lrec", n=x, tiled=x[0] == "T", enr=e) for x in ls]), pub(), pub(), mods(M("lenr", n="L0", enr=not e)), pub(), mods(UP(("Op", ["L1", "L9"], ["T0", "T1"]))), pub(), pub())
    for how in HOWS:
        for key in ("create", "update", "delete", "list", "collection", "patch_collection"):
            for ev in (False, True):
                if deep or r.random() < 0.5:
                    yield Sc("l-f-%s-%s-%d" % (key, how, ev), mods(*LOGS0, UP(("Op", [{"n": "L0", "mmd": 9}, "L2", "L3"], [{"n": "T0", "desc": "Z"}]))), pub(dict(on(key + ":ct-logs", how), every=ev)), pub(), pub())
    for how in ("conn", "before", "garble"):
        yield Sc("l-list-%s" % how, mods(*LOGS0), pub(on("loglist", how)), pub())
    for n, key in enumerate(("loglist", "list:ct-logs", "create:ct-logs", "delete:ct-logs")):
        for k, do in enumerate(([M("ldel", n="L0")], [M("lenr", n="*", enr=False)], [M("lrec", n="L7")])):
            yield Sc("l-mid-%d-%d" % (n, k), mods(*LOGS0, M("lrec", n="L8"), UP(("Op", ["L0", "L2", "L3"], []))), pub(on(key, do=do)), pub(), pub())


def fam_noop(r, deep):
    """Dry runs in every state."""
    k = 0
    src = [s for f in (fam_hist, fam_bucket, fam_tamper, fam_chans, fam_ints, fam_logs) for s in f(random.Random(r.random()), False)]
    for s in src if deep else r.sample(src, 130):
        k += 1
        steps = []
        for st in s["steps"]:
            if st["op"] == "pub" and r.random() < 0.8:
                steps.append(dict(st, noop=True, plan=[p for p in st["plan"]]))
                if r.random() < 0.4:
                    steps.append(st)
            else:
                steps.append(st)
        if steps[-1].get("noop") is None:
            steps.append(pub(noop=True))
        yield dict(s, id="n-" + s["id"], steps=steps)


def fam_random(r, deep):
    for n in range(900 if deep else 110):
        steps, d, k, t = [], 1, 0, 90 * DAY
        upl = ["L0", "L1", "T0"]
        steps += quiet(r.randint(1, 5)) if r.random() < 0.6 else []
        d, k = 3, -1
        for _ in range(r.randint(3, 8 if deep else 6)):
            x = r.random()
            ms = []
            for _ in range(r.choice((0, 1, 1, 1, 2, 3))):
                y = r.random()
                if y < 0.55:
                    if r.random() < 0.3:
                        d, k = d + r.choice((1, 1, 2, 5)), -1
                    k += 1
                    kw = {}
                    if r.random() < 0.12:
                        kw["miss"] = [r.choice(["clubcard-all/filter", "clubcard-all/filter.delta", "clubcard-priority/filter", "clubcard-priority/filter.delta", "ct-logs.json", "enrolled.json", "timestamp"])]
                    if r.random() < 0.08:
                        kw["done"] = False
                    if r.random() < 0.3:
                        kw["local"] = r.sample(["c%d" % c for c in range(10)], r.randint(1, 5))
                    if d > 28:
                        d = 28
                    ms.append(run(R(d, k), gap=r.choice((600, H6, H6, DAY, 3 * DAY, 15 * DAY)) if r.random() < 0.95 else -H6, **kw))
                elif y < 0.67:
                    nm = r.choice(sorted(TAMPER))
                    ch = r.choice(CHS)
                    ms += [dict(m, ch=ch) for m in TAMPER[nm]]
                elif y < 0.72:
                    ms.append(M("put", ch=r.choice(("experimental+deltas", "foreign", "default", "compat")), kind=r.choice(("full", "delta")), art="%s/clubcard-all/filter" % R(1), ts=90 * DAY, parent="nobody"))
                elif y < 0.8:
                    ms.append(M("irec", cert="c%d" % r.randrange(10), bad=r.choice(("", "") + BADI)))
                elif y < 0.84:
                    ms.append(M("lrec", n=r.choice(("L0", "L1", "L4", "L5")), enr=r.random() < 0.5))
                elif y < 0.9:
                    ms.append(UP(("Op", [{"n": l, "mmd": r.choice((1, 2)), "state": r.choice(("usable", "rejected"))} for l in r.sample(["L0", "L1", "L2", "L3"], r.randint(0, 3))], r.sample(["T0", "T1"], r.randint(0, 2)))))
                elif y < 0.94:
                    ms.append(M("lose", run=R(r.randint(1, d), r.randrange(4)), what=r.choice(("", "completed", "timestamp", "clubcard-all"))))
                else:
                    ms.append(M("sign"))
            if ms:
                steps.append(mods(*ms))
            plan = []
            z = r.random()
            if z < 0.25:
                plan.append({"at": int(r.random() ** 1.5 * 80), "how": r.choice(HOWS)})
            steps.append(pub(*plan, noop=r.random() < 0.1, fresh=r.random() < 0.6))
        steps.append(pub())
        yield Sc("r-%d" % n, *steps, order=r.choice(("desc", "asc", "shuffle")), seed=n)


FAMS = {"hist": fam_hist, "bucket": fam_bucket, "tamper": fam_tamper, "chans": fam_chans, "faults": fam_faults, "ints": fam_ints, "logs": fam_logs, "noop": fam_noop, "rnd": fam_random}
MCCFG = {"P01": ["tamper", "fail"], "P02": ["two"], "P03": ["races", "tamper"], "P04": ["ints"], "P05": ["logs"], "P06": ["fail"], "P07": ["retired"], "P08": ["logs", "retired"]}
DEEPCFG = ["tamper", "fail", "times", "two", "retired", "races", "ints", "logs", "big", "bigt", "bigi"]


def script(h, id):
    """A behaviour of MCPublish as a scenario."""
    ch = lambda c: {"old": "experimental+deltas"}.get(c, c)
    rid = lambda m: R(1, int(m)) if m else ""
    ts = lambda t: 90 * DAY + (t - 10) * 972000
    dn = {"d1": "c0", "d2": "c1", "d3": "c2"}
    steps = [mods(UP())]
    for x in h:
        o = x["op"]
        if o == "pub":
            steps.append(pub(noop=x["noop"]))
        elif o == "fault":
            steps[-1]["plan"].append(on(x["on"], x["how"], nth=x["nth"]))
        elif o == "run":
            m = run(R(1, 8 + x["n"]), gap=0, ts=ts(x["ts"]), done=x["done"], local=[dn[d] for d in x["loc"]], miss=[] if x["delta"] else ["clubcard-all/filter.delta"])
            steps.append(mods(m))
        elif o == "done":
            steps.append(mods(M("done", run=R(1, 8 + x["n"]))))
        elif o == "del":
            steps.append(mods(M("del", ch=ch(x["ch"]), run=rid(x["run"]))))
        elif o == "parent":
            steps.append(mods(M("edit", ch=ch(x["ch"]), run=rid(x["run"]), parent_run=rid(x["to"]))))
        elif o == "bad":
            steps.append(mods(M("edit", ch=ch(x["ch"]), run=rid(x["run"]), unset=["incremental"])))
        elif o == "copy":
            steps.append(mods(M("copy", ch=ch(x["ch"]), run=rid(x["run"]))))
        elif o == "old":
            steps.append(mods(M("put", ch="experimental+deltas", kind="delta" if x["kind"] == "delta" else "full", art=R(1, 9) + "/clubcard-all/filter", ts=90 * DAY, parent="x", unset=["incremental"] if x["kind"] == "bad" else [])))
        elif o == "foreign":
            steps.append(mods(M("put", ch="foreign", kind="full", art=R(1, 9) + "/clubcard-all/filter", ts=90 * DAY)))
        elif o == "idel":
            steps.append(mods(M("idel", cert=dn[x["d"]])))
        elif o == "irec":
            steps.append(mods(M("irec", cert=dn[x["d"]])))
        elif o == "ibad":
            steps.append(mods(M("iedit", cert=dn[x["d"]], unset=["attachment"])))
        elif o == "lenr":
            steps.append(mods(M("lenr", n=x["n"], enr=False)))
        elif o == "upstream":
            steps.append(mods(UP(("o", [{"n": l, "mmd": x["mmd"]} for l in x["s"]], []))))
    return {"id": id, "steps": steps}


def scripts(text, limit, tag):
    out, seen = [], set()
    for m in re.finditer(r'"SCRIPT (.*)"\n', text):
        t = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
        if t in seen:
            continue
        seen.add(t)
        h = json.loads(t)
        if len([x for x in h if x["op"] in ("run", "fault")]) > 1:
            out.append(script(h, "mc-%s-%d" % (tag, len(out))))
    r = random.Random(tag)
    return out if len(out) <= limit else r.sample(out, limit)


def scenarios(pid, deep):
    out = []
    for f in FAMS:
        out += list(FAMS[f](random.Random("%s/%s/%s" % (SEED, f, "deep" if deep else pid)), deep))
    return list({s["id"]: s for s in out}.values())


def check(pid, tier, t0):
    deep = tier == "thorough"
    work = scratch()
    build()
    mcs = [Tlc("MCPublish", "MCPublish_%s.cfg" % c, workers=6 if deep else 2, heap="8g" if deep else "4g", timeout=3000) for c in (DEEPCFG[:8] if deep else MCCFG[pid])]
    h = int(hashlib.sha256(("%s/%s" % (pid, SEED)).encode()).hexdigest()[:6], 16)
    sims = [Tlc("MCPublish", "MCPublish_sim%d.cfg" % n, args=["-simulate", "num=%d" % (4000 if deep else 500), "-depth", "120", "-seed", str(h + n)], workers=1) for n in (1, 2)]
    scs = scenarios(pid, deep)
    for n, s in enumerate(sims):
        s.wait()
        if "violated" in s.text:
            raise Trouble("simulation of the design violates a property:\n" + s.text[-2000:])
        scs += scripts(s.text, 800 if deep else 80, "%s-%d" % (pid, n))
    nmc = sum(1 for s in scs if s["id"].startswith("mc-"))
    byid = {s["id"]: s for s in scs}
    scs = list(byid.values())
    o, res = traces.execute(FAM, scs, work, jobs=8, timeout=3000 if deep else 600)
    errs = [r for r in res if r.get("err")]
    broken, ntr, states, _ = traces.validate(FAM, o, work, chunks=6 if deep else 4, timeout=3000 if deep else 600)
    mc_d = mc_g = 0
    for m in mcs:
        d, g = model_check(m, "MCPublish")
        mc_d, mc_g = mc_d + d, mc_g + g
    for c in DEEPCFG[8:] if deep else ():
        d, g = model_check(Tlc("MCPublish", "MCPublish_%s.cfg" % c, workers=8, heap="16g", timeout=3000), "MCPublish")
        mc_d, mc_g = mc_d + d, mc_g + g
    return traces.finish(FAM, pid, tier, t0, scs, byid, res, errs, broken, ntr, states, mc_d, mc_g, nmc, work)


def replay(pid, obj, t0):
    return traces.replay(FAM, pid, obj, t0)
