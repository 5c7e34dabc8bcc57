----------------------------- MODULE RootsTrace -----------------------------
(* Trace validation of the real loader of CCADB reports against Roots.tla. *)
EXTENDS Roots, Json, SequencesExt, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE pos, tid
tvars == <<rootVars, pos, tid>>

Ev == Trace[pos]
Is(n) == pos <= Len(Trace) /\ Ev.ev = n /\ pos' = pos + 1 /\ tid' = IF n = "Reset" THEN Ev.id ELSE tid
ById(seq) == [k \in {x.id : x \in RRng(seq)} |-> CHOOSE x \in RRng(seq) : x.id = k]

TraceInit ==
  /\ rcert = << >> /\ rrep = << >> /\ rloc = {} /\ rserv = << >> /\ ron = FALSE /\ renr = {} /\ rviol = {} /\ pos = 1 /\ tid = ""
TraceNext ==
  \/ Is("Reset") /\ RootsReset(ById(Ev.certs), ById(Ev.reports))
  \/ Is("Local") /\ Local(Ev.r, Ev.fresh)
  \/ Is("Begin") /\ RootsBegin
  \/ Is("Served") /\ Served(Ev.r, Ev.ok, Ev.fresh)
  \/ Is("End") /\ RootsEnd(Ev.code, Ev.killed, Ev.has, Ev.items, Ev.asked, Ev.seen, Ev.crls)
  \/ Is("Known") /\ Known(Ev.code, Ev.lists, Ev.keys)
  \/ Is("Finish") /\ rviol' = {} /\ UNCHANGED <<rcert, rrep, rloc, rserv, ron, renr>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Where == " trace=" \o tid \o " line=" \o ToString(pos - 1) \o " "
Report == \A v \in rviol : PrintT("BROKEN " \o v[1] \o Where \o v[2])
Consumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " of " \o ToString(Len(Trace)))
=============================================================================
