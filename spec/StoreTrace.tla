----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Trace validation: the effects recorded from the real programs (one      *)
(* ndjson line each, many traces in one file separated by Reset) are        *)
(* replayed through the operators of Store.tla; every property is evaluated *)
(* in every state.                                                          *)
(***************************************************************************)
EXTENDS Store, Json, SequencesExt, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l, tid
tvars == <<storeVars, l, tid>>

Fn(seq) == [k \in {x.id : x \in Range(seq)} |-> CHOOSE x \in Range(seq) : x.id = k]
CfgOf(e) ==
  LET b == Fn(e.bins) n == Fn(e.ents) g == Fn(e.logs) IN
  [bins |-> [k \in DOMAIN b |-> [iss |-> b[k].iss, live |-> b[k].live]],
   ents |-> [k \in DOMAIN n |-> [log |-> n[k].log, ts |-> n[k].ts, ser |-> n[k].ser, bin |-> n[k].bin, legacy |-> n[k].legacy, idx |-> n[k].idx]],
   mmd |-> [k \in DOMAIN g |-> g[k].mmd], enroll |-> Range(e.enroll)]
EmptyCfg == [bins |-> << >>, ents |-> << >>, mmd |-> << >>, enroll |-> {}]
KOut(e) ==
  [lists |-> {[iss |-> k.iss, ok |-> k.ok, dup |-> k.dup, nsec |-> Len(k.secs),
               secs |-> {[bins |-> Range(s.bins), s |-> Range(s.s)] : s \in Range(k.secs)}] : k \in Range(e.lists)},
   cover |-> [ok |-> e.cover.ok, logs |-> Range(e.cover.logs)]]

Ev == Trace[l]
Is(n) == l <= Len(Trace) /\ Ev.ev = n /\ l' = l + 1 /\ tid' = IF n = "Reset" THEN Ev.id ELSE tid

TraceInit == StoreInit(EmptyCfg) /\ l = 1 /\ tid = ""
TraceNext ==
  \/ Is("Reset") /\ Reset(CfgOf(Ev))
  \/ Is("Begin") /\ Begin(Ev.by, Ev.kind)
  \/ Is("End") /\ EndS(Ev.by, Ev.code, Ev.killed, Ev.faulty, Ev.injected, Ev.soft, Ev.sig, Ev.res)
  \/ Is("Add") /\ Add(Ev.by, Range(Ev.e))
  \/ Is("Rem") /\ Rem(Ev.by, Range(Ev.e))
  \/ Is("TTL") /\ Ttl(Ev.by, Ev.b, Ev.good)
  \/ Is("Save") /\ Save(Ev.by, Ev.st)
  \/ Is("DelLog") /\ DelLog(Ev.by, Ev.log)
  \/ Is("EpochC") /\ EpochC(Ev.by, Ev.n)
  \/ Is("LockSet") /\ LockSet(Ev.by, Ev.ttl)
  \/ Is("LockDel") /\ LockDel(Ev.by)
  \/ Is("Unknown") /\ Unknown(Ev.by, Ev.what)
  \/ Is("StBin") /\ StBin(Ev.by, Ev.b, Range(Ev.s), Ev.ok, Ev.dup)
  \/ Is("StUnlink") /\ StUnlink(Ev.by, Ev.b)
  \/ Is("StCover") /\ StCover(Ev.by, Ev.ok, Range(Ev.logs))
  \/ Is("StEpoch") /\ StEpoch(Ev.by, Ev.n, Ev.ok)
  \/ Is("Touch") /\ Touch(Ev.by, Ev.foreign, Ev.was)
  \/ Is("Flush") /\ Flush
  \/ Is("Snap") /\ Snap
  \/ Is("Rollback") /\ Rollback
  \/ Is("StSnap") /\ StSnap
  \/ Is("StRollback") /\ StRollback
  \/ Is("LockExpire") /\ LockExpire
  \/ Is("PreStore") /\ PreStore(Ev.b, Range(Ev.s))
  \/ Is("KnownOut") /\ KnownOut(Ev.by, Ev.when, KOut(Ev))
  \/ Is("Expect") /\ Expect
  \/ Is("Finish") /\ viol' = {} /\ UNCHANGED <<cfg, cache, logst, cepoch, lock, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, runs, toks, lastcode>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Where == " trace=" \o tid \o " line=" \o ToString(l - 1) \o " "
Say(p, why) == PrintT("BROKEN " \o p \o Where \o why)
\* Evaluated in every state; never false, so that one run reports everything.
Report ==
  /\ \A v \in viol : Say(v[1], v[2])
  /\ (NothingLost \/ Say("S01", "an accepted serial is neither in the cache nor in storage"))
  /\ (CoverageSound \/ Say("S02", "coverage claims a certificate that storage does not hold"))
  /\ (NeverTorn \/ Say("S05", "a storage file is not complete: " \o ToString(broken)))
  /\ (~WindowFinding \/ Say("KF-S02-window", "an entry lost by the cache is claimed as covered"))
\* For replays: the properties as ordinary invariants.
Consumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " of " \o ToString(Len(Trace)))
=============================================================================
