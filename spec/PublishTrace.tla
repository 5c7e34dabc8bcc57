--------------------------- MODULE PublishTrace ---------------------------
(* Trace validation of the real publisher against Publish.tla. *)
EXTENDS Publish, Json, SequencesExt, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE pos, tid
tvars == <<pubVars, pos, tid>>

Ev == Trace[pos]
Is(n) == pos <= Len(Trace) /\ Ev.ev = n /\ pos' = pos + 1 /\ tid' = IF n = "Reset" THEN Ev.id ELSE tid

TraceInit == PubInit /\ pos = 1 /\ tid = ""
TraceNext ==
  \/ Is("Reset") /\ PubReset
  \/ Is("Bucket") /\ BucketIs([runs |-> Ev.runs, loc |-> Ev.loc, locok |-> Ev.locok, sane |-> Ev.sane])
  \/ Is("Upstream") /\ UpstreamIs([logs |-> Ev.logs, ok |-> Ev.ok])
  \/ Is("Begin") /\ PubBegin(Ev.noop)
  \/ Is("Put") /\ CPut(Ev.id, Ev.x, Ev.new, Ev.by)
  \/ Is("Del") /\ CDel(Ev.id, Ev.by)
  \/ Is("IPut") /\ IPut(Ev.id, Ev.x, Ev.new, Ev.by)
  \/ Is("IDel") /\ IDel(Ev.id, Ev.by)
  \/ Is("LPut") /\ LPut(Ev.id, Ev.x, Ev.new, Ev.by)
  \/ Is("LDel") /\ LDel(Ev.id, Ev.by)
  \/ Is("Review") /\ Review(Ev.coll, Ev.st, Ev.by)
  \/ Is("End") /\ PubEnd(Ev.code, Ev.killed, Ev.lfail, Ev.calm)
  \/ Is("Finish") /\ pviol' = {} /\ UNCHANGED <<pbs, precs, ppre, pnew, irecs, lrecs, lpre, lup, pon>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Where == " trace=" \o tid \o " line=" \o ToString(pos - 1) \o " "
Report == \A v \in pviol : PrintT("BROKEN " \o v[1] \o Where \o v[2])
Consumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " of " \o ToString(Len(Trace)))
=============================================================================
