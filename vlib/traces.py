"""Running scenarios on the real programs and validating their traces: shared by all families."""
import json, os, re, subprocess, sys
from .common import *


class Family:
    """How a family of scenarios is run (subcommand of vh) and judged (trace module)."""

    def __init__(self, name, sub, module, design, cmd=None):
        self.name, self.sub, self.module, self.design, self.cmd = name, sub, module, design, cmd


def execute(fam, scs, work, jobs=8, timeout=800):
    """Runs the scenarios; those that could not be run (say the private Redis went away) get a second chance with fresh servers."""
    o, res = execute1(fam, scs, work, jobs, timeout)
    bad = [r for r in res if r.get("err")]
    if bad and len(scs) > 1:
        print("note: %d scenarios run again: %s: %s" % (len(bad), bad[0]["id"], bad[0]["err"][:200]), file=sys.stderr)
        again = {r["id"] for r in bad}
        w = work + "/again%d" % len(os.listdir(work))
        os.makedirs(w)
        o2, res2 = execute1(fam, [s for s in scs if s["id"] in again], w, max(1, jobs // 2), timeout)
        keep, skip = [], False
        for ln in open(o):
            if '"ev":"Reset"' in ln:
                skip = json.loads(ln)["id"] in again
            if not skip:
                keep.append(ln)
        with open(o, "w") as f:
            f.writelines(keep)
            f.write(open(o2).read())
        res = [r for r in res if r["id"] not in again] + res2
    return o, res


def execute1(fam, scs, work, jobs, timeout):
    i, o, r = work + "/in", work + "/out", work + "/res"
    with open(i, "w") as f:
        for s in scs:
            f.write(json.dumps(s) + "\n")
    os.makedirs(work + "/w", exist_ok=True)
    try:
        p = subprocess.run((fam.cmd or [BIN + "/vh", fam.sub]) + ["-in", i, "-out", o, "-res", r, "-bin", BIN, "-work", work + "/w", "-j", str(jobs)], capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Trouble("scenarios did not finish in time")
    if p.returncode:
        raise Trouble("vh: " + p.stderr[-2000:])
    res = [json.loads(x) for x in open(r)]
    return o, res


def validate(fam, tracefile, work, chunks=4, timeout=600):
    """Replays the traces through the specification; returns BROKEN lines, lines, states."""
    module = fam.module
    lines = open(tracefile).read().splitlines()
    traces, cur = [], []
    for ln in lines:
        if '"ev":"Reset"' in ln and cur:
            traces.append(cur)
            cur = []
        cur.append(ln)
    if cur:
        traces.append(cur)
    if not traces:
        return [], 0, 0, {}
    chunks = min(chunks, len(traces))
    # balance by length
    parts = [[] for _ in range(chunks)]
    for t in sorted(traces, key=len, reverse=True):
        min(parts, key=lambda p: sum(len(x) for x in p)).append(t)
    runs = []
    for n, p in enumerate(parts):
        f = "%s/%s-%d.ndjson" % (work, module, n)
        with open(f, "w") as fo:
            for t in p:
                fo.write("\n".join(t) + "\n")
        runs.append((Tlc(module, module + ".cfg", env={"TRACE": f}, workers=1, timeout=timeout), sum(len(t) for t in p)))
    broken, states = [], 0
    for t, n in runs:
        t.wait()
        m = re.search(r"CONSUMED (\d+) of (\d+)", t.text)
        if not m or m.group(1) != m.group(2) or int(m.group(2)) != n:
            raise Trouble("trace validation did not consume the trace: %s\n%s" % (m and m.group(0), t.text[-2500:]))
        states += t.distinct
        for b in re.finditer(r'"BROKEN (\S+) trace=(\S+) line=(\d+) (.*)"', t.text):
            broken.append(b.groups())
    return broken, len(traces), states, {i: t for i, t in ((json.loads(t[0])["id"], t) for t in traces)}


def listed_kinds():
    return {f.get("kind") for f in known_findings() if isinstance(f, dict)}


def confirm(fam, s, pid, work, n=0):
    """Runs one scenario again; returns the property's BROKEN lines."""
    w = os.path.join(work, "c%d" % n)
    os.makedirs(w)
    o, res = execute(fam, [s], w, jobs=1, timeout=200)
    if res[0].get("err"):
        return None, res[0]["err"]
    b, _, _, tr = validate(fam, o, w, chunks=1)
    return sorted({x for x in b if x[0] == pid or (x[0].startswith("KF-" + pid + "-") and x[0] not in listed_kinds())}, key=lambda x: int(x[2]))[:20], (tr.get(s["id"]) or [])


def finish(fam, pid, tier, t0, scs, byid, res, errs, broken, ntr, states, mc_d, mc_g, nmc, work):
    mine = [b for b in broken if b[0] == pid]
    kf = sorted({(b[0], b[1]) for b in broken if b[0].startswith("KF-" + pid + "-")})
    listed = [f for f in known_findings() if isinstance(f, dict) and f.get("kind") in {k for k, _ in kf}]
    mine += [b for b in broken if b[0].startswith("KF-" + pid + "-") and b[0] not in listed_kinds()]
    ids = []
    for b in mine:
        if b[1] not in ids:
            ids.append(b[1])
    rc, flaky = 0, []
    for i in ids[:6]:
        for n in range(5):
            got, tr = confirm(fam, byid[i], pid, work, len(os.listdir(work)))
            if got:
                p = save_replay(pid, {"family": fam.name, "property": pid, "scenario": byid[i], "broken": got, "trace": tr})
                violation(pid, p)
                print("  scenario %s: %s" % (i, "; ".join(sorted({g[3] for g in got}))))
                rc = 1
                break
        else:
            flaky.append(i)
        if rc:
            break
    for f in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    acts = {}
    for r in res:
        for c, n in (r.get("classes") or {}).items():
            c = c.split(":")[0]
            acts[c] = acts.get(c, 0) + n
    cov = {"states": mc_d + states, "transitions": mc_g + sum(r["events"] for r in res), "traces_validated_against_impl": ntr,
           "evaluations": ntr, "distinct_nontrivial": sum(1 for r in res if r.get("hooks") or r.get("kills")),
           "rule": "a scenario counts as non-trivial if an injected kill, fault, signal or interleaved step actually took effect",
           "samples": [s["id"] for s in scs[:: max(1, len(scs) // 12)]],
           "model": {"module": fam.design, "distinct_states": mc_d, "states_generated": mc_g}, "trace_states": states,
           "cache_commands": sum(r["cmds"] for r in res), "kills": sum(r["kills"] for r in res), "hooks_fired": sum(r["hooks"] for r in res),
           "design_behaviours_replayed": nmc, "commands_by_class": acts, "scenario_errors": [r["id"] + ": " + r["err"] for r in errs][:10],
           "slowest_scenarios_ms": sorted(((r["ms"], r["id"]) for r in res), reverse=True)[:5], "known_findings_seen": [x[1] for x in kf], "unconfirmed": flaky}
    evidence(pid, tier, "model_checking", cov, t0)
    if rc:
        return 1
    if flaky:
        print("note: not repeatable, not reported: %s" % [b for b in mine if b[1] in flaky][:5])
    if len(errs) > max(3, len(scs) // 50):
        raise Trouble("%d scenarios could not be run: %s" % (len(errs), [(r["id"], r["err"]) for r in errs[:5]]))
    return 0


def replay(fam, pid, obj, t0):
    build()
    work = scratch()
    for n in range(5):
        got, tr = confirm(fam, obj["scenario"], pid, work, n)
        if got is None:
            raise Trouble(tr)
        if got:
            print("reproduced: " + "; ".join(sorted({g[3] for g in got})))
            return 1
    print("not reproduced")
    return 0
