"""The workflow: allocation of runs, upload, generation; the scripts of workflow/ and containers/scripts/crlite-generate.sh, validated against Workflow.tla."""
import hashlib, json, random, re
from .common import *
from . import traces

PROPS = ["W01", "W02", "W03"]
FAM = traces.Family("workflow", "", "WorkflowTrace", "MCWorkflow over Workflow", cmd=["python3-vt", ROOT + "/harness/py/pub.py"])


def M(m, **kw): return dict({"m": m}, **kw)
def mods(*l): return {"op": "mods", "do": list(l)}
def day(n): return mods(M("day", n=n))
def obj(*names): return mods(*[M("obj", name=n) for n in names])
def ldir(*names): return mods(*[M("ldir", name=n) for n in names])
ALLOC = {"op": "alloc"}
WIPE = mods(M("wipe"))
def on(key, how, nth=1, **kw): return dict({"on": key, "how": how, "nth": nth}, **kw)
def gen(rev=None, *plan, **kw): return dict({"op": "gen", "rev": rev or {"00": ["a1"], "01": ["b1"]}, "plan": list(plan)}, **kw)
def e2e(rev=None, *plan, **kw): return dict(gen(rev, *plan, **kw), op="e2e")
def again(*plan, **kw): return dict({"op": "again", "plan": list(plan)}, **kw)
def Sc(id, *steps, **kw): return dict({"id": id, "kind": "flow", "steps": list(steps)}, **kw)
T0 = "20210401"  # the date of the world when a scenario starts
REVS = [{"00": ["a1"], "01": ["b1"]}, {"00": ["a1", "a2"], "01": ["b1"]}, {"00": ["a2"], "01": ["b1", "a1"]}, {"00": ["a2", "b1"], "01": ["a1"], "05": ["c1"], "04": ["d1"]}, {"00": [], "01": [], "09": ["a1", "a2"]},
        {"00": ["d1"], "01": ["b1", "c1"], "09": ["a1", "a2"]}]
HOWS = ("before", "after", "kill", "killafter", "forbidden", "conn")


def revs(r, n):
    """A history of revocations: serials appear, go away, change their reason."""
    out, cur = [], {}
    for k in range(n):
        for s in ("a1", "a2", "b1", "c1", "d1"):
            if r.random() < 0.4:
                cur[s] = r.choice(("", "00", "01", "04", "05", "09"))
        out.append({q: [s for s in sorted(cur) if cur[s] == q] for q in ("00", "01", "04", "05", "09")})
    return out


def fam_names(r, deep):
    """Names: what the bucket and the workspace hold, dates, many runs a day."""
    lists = [[], ["20210401-0"], ["20210401-1"], ["20210401-9"], ["20210401-10"], ["20210401-9", "20210401-10"], ["20210401-99", "20210401-100"], ["20210401-2", "20210401-10", "20210401-9"], ["20210331-0"], ["20210331-7", "20210401-0"],
             ["20210401-999999"], ["20210402-0"], ["20210402-3", "20210401-5"], ["20211231-0"], ["20220101-4"], ["20210401-07"], ["20210401-7", "20210401-08"], ["20210401-0", "20210401-2"], ["20201231-11"], ["20210431-2"], ["19990101-3"],
             ["20210401-1234"], ["20210401-00"], ["20210331-100", "20210401-3"]]
    odd = [[], ["latest"], ["20210401-3-old"], ["20210401"], ["2021-04-01"], ["20210401-"], ["x20210401-4"], ["202104010-4"], ["2021040-4"], ["20210401-4x"], ["20210401-5 "], ["logs"], ["20210401-6.bak"], ["-"], ["tmp-20210401-8"], ["20210401_8"], ["20210401--8"], ["20210401-+8"], ["20210401-8-"]]
    locs = [[], ["20210401-0"], ["20210401-0", "20210401-1"], ["20210401-1"], ["20210401-3"], ["20210401-10"], ["20210401-11"], ["20210402-0"], ["20210402-1", "20210402-4"], ["other"], ["20210331-9"]]
    n = 0
    for l in lists:
        for o in (odd if deep else [[], odd[1] + odd[2]] + [r.choice(odd)]):
            for c in (locs if deep else [[], r.choice(locs[1:])]):
                n += 1
                steps = [obj(*[x + "/f" for x in l + o])] if l + o else []
                if c:
                    steps.append(ldir(*c))
                yield Sc("n-%d" % n, *steps, ALLOC, ALLOC, order=r.choice(("desc", "asc")))
    for k, o in enumerate(odd):
        yield Sc("n-odd-%d" % k, obj("20210401-1/f", *[x + "/f" for x in o]), ALLOC)
    for k, c in enumerate(locs):
        yield Sc("n-loc-%d" % k, ldir(*c), ALLOC, obj("20210401-0/f"), ALLOC, ALLOC) if c else Sc("n-loc-%d" % k, ALLOC, ALLOC, ALLOC)
        if c:
            yield Sc("n-loc2-%d" % k, obj("20210401-0/f"), ldir(*c), ALLOC, WIPE, ALLOC)
    yield Sc("n-same-day", *[s for k in range(14) for s in (gen(src=k == 3), )])
    yield Sc("n-died", gen(None, on("glist", "kill")), gen(None, on("gput", "kill")), gen(), gen(None, on("gput", "killafter")), gen(), gen())
    yield Sc("n-died-kept", *[gen(mode={"all": "fail"}) for k in range(12)], gen(), gen())
    for k, d in enumerate(([1, 1], [-1, 1], [-1, -1], [1, -1], [-3, 5], [30, -29], [275, -1], [300], [0, -2], [2, -1, -1])):
        yield Sc("n-days-%d" % k, gen(), *[s for x in d for s in (day(x), gen(), ALLOC)], gen())
    for k, h in enumerate(("before", "after", "forbidden", "conn", "kill", "killafter", "gone")):
        yield Sc("n-list-%s" % h, obj("20210401-0/f"), dict(ALLOC, plan=[on("glist", h)]), ALLOC)
        yield Sc("n-listall-%s" % h, obj("20210401-0/f"), dict(ALLOC, plan=[on("glist", h, every=True)]), ALLOC)


def fam_upload(r, deep):
    """Every upload failing or dying, repeated uploads, odd contents."""
    for src in (False, True):
        for h in HOWS:
            n = 30 if src else 22
            for k in range(n):
                if deep or h in ("kill", "forbidden") or (k + len(h)) % 3 == 0:
                    p = {"on": "gput", "nth": k + 1, "how": h}
                    yield Sc("u-%d-%s-%d" % (src, h, k), gen(REVS[0]), gen(REVS[1], p, src=src), *([again()] if k % 2 else []), gen(REVS[2]), gen(REVS[3]))
            yield Sc("u-all-%d-%s" % (src, h), gen(REVS[0]), gen(REVS[1], on("gput", h, every=True), src=src), gen(REVS[2]))
    for k in range(22):
        yield Sc("u-persist-%d" % k, gen(REVS[1], *[{"on": "gput", "nth": j, "how": "before"} for j in range(k + 1, k + 40)]), again(), gen(REVS[2]))
        yield Sc("u-two-%d" % k, gen(REVS[1], {"on": "gput", "nth": k + 1, "how": "before"}, {"on": "gput", "nth": k + 2, "how": "after"}, {"on": "gput", "nth": k + 5, "how": "forbidden"}), gen(REVS[2]))
    for m in ("fail", "part", "ret0", "nodelta"):
        for rs in ("all", "priority"):
            yield Sc("u-mode-%s-%s" % (m, rs), gen(REVS[0]), gen(REVS[1], mode={rs: m}), gen(REVS[2]), gen(REVS[3]))
            yield Sc("u-mode-again-%s-%s" % (m, rs), gen(REVS[0]), gen(REVS[1], mode={rs: m}), again(sound=False), gen(REVS[2]), gen(REVS[3]))
        yield Sc("u-mode2-%s" % m, gen(REVS[1], mode={"all": m, "priority": m}), again(sound=False), gen(REVS[2]))
    files = [("clubcard-all/extra", {}), ("clubcard-priority/extra/deep/er", {}), ("clubcard-all/x y", {}), ("clubcard-all/delta/\u00e9", {}), ("clubcard-priority/.hidden", {}), ("clubcard-all/empty", {"data": ""}), ("clubcard-priority/link", {"link": "/etc/hostname"}),
             ("clubcard-all/delta/iss2", {}), ("clubcard-all/a/b/c/d", {}), ("clubcard-all/completed", {}), ("clubcard-priority/completed", {}), ("clubcard-all/clubcard-all/filter", {}), ("clubcard-priority/delta/iss9", {}), ("clubcard-all/filter.delta.tmp", {})]
    for k, (p, kw) in enumerate(files):
        yield Sc("u-file-%d" % k, gen(REVS[0]), gen(REVS[1], late=[M("lfile", path=p, **kw)]), gen(REVS[2]))
        for h in ("kill", "forbidden"):
            yield Sc("u-file-%d-%s" % (k, h), gen(REVS[1], {"on": "gput", "nth": 4 + k, "how": h}, late=[M("lfile", path=p, **kw)]), gen(REVS[2]))
    for k in (1, 9, 40):
        yield Sc("u-many-%d" % k, gen(REVS[1], late=[M("lfile", path="clubcard-%s/delta/i%d" % (c, j)) for j in range(k) for c in ("all", "priority")]), gen(REVS[1], on("gput", "forbidden", nth=k + 6), late=[M("lfile", path="clubcard-priority/delta/i%d" % j) for j in range(k)]), gen())
    for k in range(4):
        yield Sc("u-noop-%d" % k, *([gen(REVS[0])] if k % 2 else []), gen(REVS[1], noop=True, src=k > 1), gen(REVS[2], noop=True), gen(REVS[3]))
        yield Sc("u-noop-again-%d" % k, gen(REVS[0], on("gput", "kill", nth=3 + 4 * k)), again(noop=True), again(), again(), gen(REVS[2]))


def fam_delta(r, deep):
    """Histories of revocations, with interrupted runs between."""
    for k in range(60 if deep else 24):
        rr = revs(r, 6)
        yield Sc("d-%d" % k, *[s for x in rr for s in ([day(r.choice((0, 1)))] + [gen(x)])])
    yield Sc("d-reason", gen({"00": ["a1"]}), gen({"01": ["a1"]}), gen({"05": ["a1"]}), gen({"00": ["a1"]}), gen({"09": ["a1"], "04": ["b1"]}), gen({"01": ["b1"]}))
    yield Sc("d-back", gen({"00": ["a1"]}), gen({"00": []}), gen({"00": ["a1"]}), gen({"01": ["a1"]}), gen({}), gen({"01": ["a1"]}))
    for k in range(400 if deep else 120):
        rr = revs(r, 5)
        steps = []
        for x in rr:
            z = r.random()
            plan, kw = [], {}
            if z < 0.45:
                plan = [{"on": r.choice(("gput", "gput", "gput", "gput", "g.*")), "nth": r.randint(1, 26), "how": r.choice(HOWS)}]
            elif z < 0.55:
                plan = [on("g(et|exists).*", r.choice(("before", "after", "forbidden", "gone", "conn")), nth=r.randint(1, 3))]
            elif z < 0.65:
                kw = {"mode": {r.choice(("all", "priority")): r.choice(("fail", "part", "nodelta"))}}
            steps.append(gen(x, *plan, src=r.random() < 0.3, **kw))
            if plan and r.random() < 0.3:
                steps.append(again())
            if r.random() < 0.3:
                steps.append(day(1))
            if r.random() < 0.15:
                steps.append(WIPE)
        yield Sc("d-rnd-%d" % k, *steps, gen(REVS[5]))


def fam_e2e(r, deep):
    """The whole of crlite-generate.sh: every collector or generator failing, uploads dying."""
    yield Sc("e-plain", e2e(REVS[0]), e2e(REVS[1]), e2e(REVS[2]), day(1), e2e(REVS[3]))
    yield Sc("e-local", e2e(REVS[0]), e2e(REVS[1], local=True), e2e(REVS[2]))
    for w in ("aggregate-crls", "aggregate-known", "all", "priority"):
        for m in ("fail", "part") + (("ret0",) if w in ("all", "priority") else ()):
            yield Sc("e-%s-%s" % (w, m), e2e(REVS[0], mode={w: m}), e2e(REVS[1]))
            if m != "ret0":
                yield Sc("e-later-%s-%s" % (w, m), e2e(REVS[0]), e2e(REVS[1], mode={w: m}, local=w == "all"), e2e(REVS[2]))
    ks = list(range(1, 32))
    for h in ("kill", "forbidden", "conn", "killafter"):
        for k in ks if deep else sorted(r.sample(ks, 5)):
            yield Sc("e-put-%s-%d" % (h, k), e2e(REVS[1], {"on": "gput", "nth": k, "how": h}), *([e2e(REVS[2])] if k % 2 else []))
    for k, (h, key) in enumerate((("kill", "glist"), ("forbidden", "glist"), ("kill", "g(et|exists).*"), ("forbidden", "g(et|exists).*"))):
        yield Sc("e-other-%d" % k, e2e(REVS[0]), e2e(REVS[1], on(key, h)), e2e(REVS[2]))


FAMS = {"names": fam_names, "upload": fam_upload, "delta": fam_delta, "e2e": fam_e2e}
MCCFG = {"W01": ["days", "many"], "W02": ["two"], "W03": ["one"]}
DEEPCFG = ["one", "two", "days", "many", "big"]


def script(h, id):
    """A behaviour of MCWorkflow as a scenario."""
    steps, rev, today = [], {}, 0
    for x in h:
        o = x["op"]
        if o == "day":
            steps.append(day(x["d"] - today))
            today = x["d"]
        elif o == "rev":
            rev[x["k"]] = {"no": None, "low": "00", "high": "01"}[x["r"]]
        elif o == "wipe":
            steps.append(WIPE)
        elif o in ("gen", "genfail"):
            rv = {q: sorted(k + "1" for k in rev if rev[k] == q) for q in ("00", "01")}
            steps.append(gen(rv, **({"mode": {"all": "fail"}} if o == "genfail" else {})))
        elif o == "again":
            steps.append(again())
        elif o == "fail":
            n = x["name"]
            # the place among the uploads of the real uploader is not the design's: a place near the end for later objects
            k = 1 if n.endswith("clubcard-all/filter") else 3 if n.endswith("clubcard-all/filter.delta") else 6 if n == "latest/all" else 11 if n.endswith("priority/filter") else 13 if n.endswith("priority/filter.delta") else 15 if n == "latest/priority" else 16
            if steps and steps[-1]["op"] in ("gen", "again"):
                steps[-1]["plan"].append({"on": "gput", "nth": k, "how": "forbidden" if len(steps) % 2 else "kill"})
    return Sc(id, *steps)


def scripts(text, limit, tag):
    out, seen = [], set()
    for m in re.finditer(r'"SCRIPT (.*)"\n', text):
        t = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
        if t in seen:
            continue
        seen.add(t)
        out.append(script(json.loads(t), "mc-%s-%d" % (tag, len(out))))
    r = random.Random(tag)
    return out if len(out) <= limit else r.sample(out, limit)


def scenarios(pid, deep):
    out = []
    for f in FAMS:
        out += list(FAMS[f](random.Random("%s/%s/%s" % (SEED, f, "deep" if deep else pid)), deep))
    return list({s["id"]: s for s in out}.values())


def check(pid, tier, t0):
    deep = tier == "thorough"
    work = scratch()
    build()
    mcs = [Tlc("MCWorkflow", "MCWorkflow_%s.cfg" % c, workers=6 if deep else 2, heap="8g" if deep else "4g", timeout=3000) for c in (DEEPCFG if deep else MCCFG[pid])]
    h = int(hashlib.sha256(("%s/%s" % (pid, SEED)).encode()).hexdigest()[:6], 16)
    sim = Tlc("MCWorkflow", "MCWorkflow_sim1.cfg", args=["-simulate", "num=%d" % (4000 if deep else 600), "-depth", "150", "-seed", str(h)], workers=1)
    scs = scenarios(pid, deep)
    sim.wait()
    if "violated" in sim.text:
        raise Trouble("simulation of the design violates a property:\n" + sim.text[-2000:])
    scs += scripts(sim.text, 1200 if deep else 150, pid)
    nmc = sum(1 for s in scs if s["id"].startswith("mc-"))
    byid = {s["id"]: s for s in scs}
    scs = list(byid.values())
    o, res = traces.execute(FAM, scs, work, jobs=8, timeout=3000 if deep else 600)
    errs = [r for r in res if r.get("err")]
    broken, ntr, states, _ = traces.validate(FAM, o, work, chunks=6 if deep else 4, timeout=3000 if deep else 600)
    mc_d = mc_g = 0
    for m in mcs:
        d, g = model_check(m, "MCWorkflow")
        mc_d, mc_g = mc_d + d, mc_g + g
    return traces.finish(FAM, pid, tier, t0, scs, byid, res, errs, broken, ntr, states, mc_d, mc_g, nmc, work)


def replay(pid, obj, t0):
    return traces.replay(FAM, pid, obj, t0)
