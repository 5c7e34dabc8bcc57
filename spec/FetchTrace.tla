----------------------------- MODULE FetchTrace -----------------------------
(* Trace validation of the real ct-fetch against Fetch.tla. *)
EXTENDS Fetch, Json, SequencesExt, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE pos, tid
tvars == <<fetchVars, pos, tid>>

Fn(seq) == [k \in {x.id : x \in Range(seq)} |-> LET y == CHOOSE x \in Range(seq) : x.id = k IN [kind |-> y.kind, must |-> y.must, may |-> y.may]]
Term(t) == [f |-> t.f, l |-> t.l, alt |-> Range(t.alt)]
Ev == Trace[pos]
Is(n) == pos <= Len(Trace) /\ Ev.ev = n /\ pos' = pos + 1 /\ tid' = IF n = "Reset" THEN Ev.id ELSE tid

TraceInit == FetchInit(<< >>) /\ pos = 1 /\ tid = ""
TraceNext ==
  \/ Is("Reset") /\ FetchReset(Fn(Ev.logs))
  \/ Is("Grow") /\ Grow(Ev.log, Ev.ts, {k \in 1 .. Len(Ev.unst) : Ev.unst[k]})
  \/ Is("Var") /\ Variant(Ev.log, Ev.x, Ev.ts, Ev.unst)
  \/ Is("Begin") /\ BeginRun(Ev.kind, Ev.single)
  \/ Is("Contact") /\ ContactLog(Ev.log)
  \/ Is("Sth") /\ TreeHead(Ev.log, Ev.n, Ev.ts, Ev.ok, Range(Ev.alt))
  \/ Is("Proof") /\ Proof(Ev.log, {Term(t) : t \in Range(Ev.terms)})
  \/ Is("Ents") /\ Entries(Ev.log, Ev.start, Ev.ids)
  \/ Is("Store") /\ StoreEntries(Ev.log, Range(Ev.ids))
  \/ Is("BadStore") /\ BadStore(Ev.what)
  \/ Is("Moved") /\ Moved(Ev.log, Range(Ev.ids))
  \/ Is("Save") /\ (IF Ev.log \in FLogs THEN Save(Ev.log, Ev.r, Ev.meta) ELSE SaveOther(Ev.log))
  \/ Is("DelLog") /\ (IF Ev.log \in FLogs THEN DelPos(Ev.log) ELSE fviol' = {} /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, heads, run, rewind>>)
  \/ Is("Flush") /\ LoseCache
  \/ Is("End") /\ EndRun(Ev.code, Ev.killed, Ev.sig, Ev.hang, Ev.panic, Ev.wfault, Ev.rfault, Range(Ev.hfault), Ev.fssame)
  \/ Is("CommitEnd") /\ EndCommit
  \/ Is("Died") /\ Died(Ev.wf)
  \/ Is("Quiet") /\ Quiet(Ev.log, Ev.honest, Ev.wf)
  \/ Is("Finish") /\ fviol' = {} /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, heads, run, rewind>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Where == " trace=" \o tid \o " line=" \o ToString(pos - 1) \o " "
Report == \A v \in fviol : PrintT("BROKEN " \o v[1] \o Where \o v[2])
Consumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " of " \o ToString(Len(Trace)))
=============================================================================
