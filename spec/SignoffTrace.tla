---------------------------- MODULE SignoffTrace ----------------------------
(* Trace validation of crlite-signoff-tool.py and crlite-signoff.sh against Signoff.tla. *)
EXTENDS Signoff, Json, SequencesExt, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE pos, tid
tvars == <<soVars, pos, tid>>

Ev == Trace[pos]
Is(n) == pos <= Len(Trace) /\ Ev.ev = n /\ pos' = pos + 1 /\ tid' = IF n = "Reset" THEN Ev.id ELSE tid
Rng(s) == {s[n] : n \in DOMAIN s}

TraceInit == SoInit /\ pos = 1 /\ tid = ""
TraceNext ==
  \/ Is("Reset") /\ SoReset
  \/ Is("GBegin") /\ Begin(Rng(Ev.for), Ev.dry, Ev.size)
  \/ Is("GRead") /\ ReadStatus(Ev.coll)
  \/ Is("Review") /\ SetStatus(Ev.coll, Ev.st, Ev.by)
  \/ Is("GEdit") /\ Edited(Ev.coll, Ev.by)
  \/ Is("GEnd") /\ End(Ev.code, Ev.killed, Ev.calm, Rng(Ev.judged))
  \/ Is("Finish") /\ cviol' = {} /\ UNCHANGED <<cst, cver, cread, son, cedit, cwait>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Where == " trace=" \o tid \o " line=" \o ToString(pos - 1) \o " "
Report == \A v \in cviol : PrintT("BROKEN " \o v[1] \o Where \o v[2])
Consumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " of " \o ToString(Len(Trace)))
=============================================================================
