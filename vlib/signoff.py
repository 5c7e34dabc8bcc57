"""Automatic sign-off: crlite-signoff-tool.py and crlite-signoff.sh, validated against Signoff.tla."""
import hashlib, json, random, re
from .common import *
from . import traces

PROPS = ["P09"]
FAM = traces.Family("signoff", "", "SignoffTrace", "MCSignoff over Signoff", cmd=["python3-vt", ROOT + "/harness/py/pub.py"])
CRL, INT, LOGS = "cert-revocations", "intermediates", "ct-logs"
BOTH = (CRL, INT)


def mods(*l): return {"op": "mods", "do": list(l)}
def st(c, s): return {"m": "status", "coll": c, "st": s}
def touch(c): return {"m": "touch", "coll": c}
def wait(*cs): return mods(*[x for c in cs for x in (touch(c), st(c, "to-review"))])
def tool(c, *plan, **kw): return dict({"op": "tool", "coll": c, "plan": list(plan)}, **kw)
def sign(*plan, **kw): return dict({"op": "sign", "plan": list(plan)}, **kw)
def on(key, how=None, nth=1, **kw):
    p = dict({"on": key, "nth": nth}, **kw)
    return dict(p, how=how) if how else p
def Sc(id, *steps, **kw): return dict({"id": id, "kind": "sign", "steps": list(steps)}, **kw)
HOWS = ("before", "after", "conn", "kill", "killafter")
STATES = ("signed", "work-in-progress", "to-review", "to-sign", "to-rollback", "to-refresh")


def fam_states(r, deep):
    for a in STATES:
        for b in STATES:
            for c in BOTH:
                yield Sc("s-%s-%s-%s" % (c, a, b), mods(st(CRL, a), st(INT, b), st(LOGS, r.choice(STATES))), tool(c), tool(c))
        for c in BOTH + (LOGS, "certificates", "", "CERT-REVOCATIONS"):
            yield Sc("s-odd-%s-%s" % (c or "empty", a), mods(st(CRL, a), st(INT, a), st(LOGS, a)), tool(c))
        for c in BOTH:
            for k, kw in enumerate(({"noop": True}, {"env": "1"}, {"env": "0"}, {"env": "false"}, {"env": "no"}, {"noop": True, "env": "x"})):
                yield Sc("s-noop-%s-%s-%d" % (c, a, k), mods(st(CRL, a), st(INT, a)), tool(c, **kw), tool(c))


def fam_faults(r, deep):
    edits = {"edit": [touch], "review": [touch, lambda c: st(c, "to-review")], "refuse": [lambda c: st(c, "work-in-progress")], "signed": [lambda c: st(c, "to-sign"), lambda c: st(c, "signed")], "roll": [lambda c: st(c, "to-rollback")]}
    for c in BOTH:
        for op in ("collection", "patch_collection"):
            for n in (1, 2):
                for h in HOWS:
                    yield Sc("f-%s-%s-%d-%s" % (c, op, n, h), wait(CRL, INT, LOGS), tool(c, on(op + ":" + c, h, nth=n)), tool(c), mods(touch(c)), tool(c))
                    for e in edits:
                        yield Sc("f-%s-%s-%d-%s-%s" % (c, op, n, h, e), wait(CRL, INT, LOGS), tool(c, on(op + ":" + c, h, nth=n, do=[f(c) for f in edits[e]])), tool(c))
                for e in edits:
                    for t in BOTH:
                        yield Sc("f-%s-%s-%d-%s-%s" % (c, op, n, e, t), wait(CRL, INT, LOGS), tool(c, on(op + ":" + c, nth=n, do=[f(t) for f in edits[e]])), tool(c), wait(t), tool(t))
            for h in ("before", "conn", "after"):
                yield Sc("f-all-%s-%s-%s" % (c, op, h), wait(CRL, INT), tool(c, on(op + ":" + c, h, every=True)), tool(c))
    for k in range(400 if deep else 120):
        steps = []
        for j in range(r.randint(2, 6)):
            z = r.random()
            c = r.choice(BOTH)
            if z < 0.35:
                steps.append(r.choice((wait(c), wait(*BOTH), mods(touch(c)), mods(st(c, r.choice(STATES))))))
            else:
                plan = []
                for q in range(r.randint(0, 2)):
                    x = on(r.choice(("collection", "patch_collection")) + ":" + r.choice(BOTH), r.choice(HOWS + (None, None)), nth=r.randint(1, 2))
                    if "how" not in x or r.random() < 0.3:
                        x["do"] = [f(r.choice((c, c, r.choice(BOTH)))) for f in edits[r.choice(sorted(edits))]]
                    plan.append(x)
                steps.append(tool(c, *plan, **({"noop": True} if r.random() < 0.1 else {})))
        yield Sc("f-rnd-%d" % k, *steps)


def fam_script(r, deep):
    """crlite-signoff.sh: sizes around the limit, states, faults of either sign-off."""
    n = 0
    for limit, sizes in ((None, (0, 1, 9999999, 10485759, 10485760, 10485761, 10485760 * 3, 2 ** 31, 2 ** 32 + 5, 2 ** 33)), (1000, (999, 1000, 1001, 0, 1500, 10000)), (0, (0, 1)), (20000000, (10485761, 20000001)), (9, (10, 8, 100)), (10, (9, 11))):
        for z in sizes:
            n += 1
            yield Sc("g-size-%d" % n, wait(CRL, INT), sign(size=z, **({} if limit is None else {"limit": limit})))
    for k, (a, b) in enumerate((("to-review", "signed"), ("signed", "to-review"), ("work-in-progress", "to-review"), ("to-review", "work-in-progress"), ("to-sign", "to-sign"))):
        yield Sc("g-st-%d" % k, mods(st(CRL, a), st(INT, b), st(LOGS, "to-review")), sign(size=5000))
    yield Sc("g-nosize", wait(CRL, INT), sign())
    yield Sc("g-bucket", wait(CRL, INT), sign(size=5000, bucket="crlite-filters-stage"), wait(CRL, INT), sign(size=5000, bucket="crlite-filters-dev"))
    yield Sc("g-noop", wait(CRL, INT), sign(size=5000, env="1"), sign(size=5000))
    for c in BOTH:
        for op in ("collection", "patch_collection"):
            for h in HOWS if deep else r.sample(HOWS, 3):
                yield Sc("g-%s-%s-%s" % (c, op, h), wait(CRL, INT), sign(on(op + ":" + c, h), size=5000), sign(size=5000))
            yield Sc("g-%s-%s-edit" % (c, op), wait(CRL, INT), sign(on(op + ":" + c, do=[touch(c)]), size=5000), sign(size=5000))


FAMS = {"states": fam_states, "faults": fam_faults, "script": fam_script}


def script(h, id):
    """A behaviour of MCSignoff as a scenario: what happens during a run is put at the request it precedes."""
    steps, run = [], None
    for x in h:
        o = x["op"]
        if o == "run":
            kw = {"noop": True} if x["dry"] else {}
            run = sign(size=5000 if x["size"] == "ok" else 10 ** 8) if len(x["for"]) == 2 else tool(x["for"][0], **kw)
            steps.append(run)
        elif o == "fault":
            run["plan"].append(on(("collection" if x["at"] == "read" else "patch_collection") + ":.*", x["how"]))
        else:
            do = {"edit": [touch(x["c"])], "ask": [st(x["c"], "to-review")], "refuse": [st(x["c"], "work-in-progress")], "signed": [st(x["c"], "signed")]}[o]
            if run is not None and run["op"] == "tool" and len(run["plan"]) < 2 and len(id) % 2:
                run["plan"].append(on("patch_collection:.*", do=do))
            else:
                steps.append(mods(*do))
    return Sc(id, *steps)


def scripts(text, limit, tag):
    seen = sorted({m.group(1) for m in re.finditer(r'"SCRIPT (.*)"\n', text)})
    out = []
    for t in random.Random(tag).sample(seen, min(limit, len(seen))):
        s = script(json.loads(t.replace('\\"', '"').replace("\\\\", "\\")), "mc-%s-%d" % (tag, len(out)))
        while len([x for x in s["steps"] if x["op"] == "sign"]) > 1:  # the whole script once at most: it takes a second
            s["steps"].remove([x for x in s["steps"] if x["op"] == "sign"][-1])
        out.append(s)
    return out


def scenarios(pid, deep):
    out = []
    for f in FAMS:
        out += list(FAMS[f](random.Random("%s/%s/%s" % (SEED, f, "deep" if deep else pid)), deep))
    return list({s["id"]: s for s in out}.values())


def check(pid, tier, t0):
    deep = tier == "thorough"
    work = scratch()
    build()
    mcs = [Tlc("MCSignoff", "MCSignoff_%s.cfg" % c, workers=4 if deep else 2, heap="4g", timeout=3000) for c in (["base", "big"] if deep else ["base"])]
    h = int(hashlib.sha256(("%s/%s" % (pid, SEED)).encode()).hexdigest()[:6], 16)
    sim = Tlc("MCSignoff", "MCSignoff_sim1.cfg", args=["-simulate", "num=%d" % (3000 if deep else 500), "-depth", "60", "-seed", str(h)], workers=1)
    scs = scenarios(pid, deep)
    sim.wait()
    if "violated" in sim.text:
        raise Trouble("simulation of the design violates a property:\n" + sim.text[-2000:])
    scs += scripts(sim.text, 600 if deep else 60, pid)
    nmc = sum(1 for s in scs if s["id"].startswith("mc-"))
    byid = {s["id"]: s for s in scs}
    scs = list(byid.values())
    o, res = traces.execute(FAM, scs, work, jobs=8, timeout=3000 if deep else 600)
    errs = [r for r in res if r.get("err")]
    broken, ntr, states, _ = traces.validate(FAM, o, work, chunks=4, timeout=3000 if deep else 600)
    mc_d = mc_g = 0
    for m in mcs:
        d, g = model_check(m, "MCSignoff")
        mc_d, mc_g = mc_d + d, mc_g + g
    return traces.finish(FAM, pid, tier, t0, scs, byid, res, errs, broken, ntr, states, mc_d, mc_g, nmc, work)


def replay(pid, obj, t0):
    return traces.replay(FAM, pid, obj, t0)
