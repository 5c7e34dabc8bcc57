--------------------------- MODULE WorkflowTrace ---------------------------
(* Trace validation of the workflow scripts against Workflow.tla. *)
EXTENDS Workflow, Json, SequencesExt, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE pos, tid
tvars == <<wfVars, pos, tid>>

Ev == Trace[pos]
Is(n) == pos <= Len(Trace) /\ Ev.ev = n /\ pos' = pos + 1 /\ tid' = IF n = "Reset" THEN Ev.id ELSE tid
Files(l) == [p \in {f.p : f \in WRng(l)} |-> (CHOOSE f \in WRng(l) : f.p = p).t]

TraceInit == WfInit /\ pos = 1 /\ tid = ""
TraceNext ==
  \/ Is("Reset") /\ WfReset
  \/ Is("ABegin") /\ wviol' = {} /\ won' = NoUpload /\ UNCHANGED <<wobj, wids, wdirs, wdone, wlast, wart, wloc>>
  \/ Is("AEnd") /\ Alloc(Ev.code, Ev.killed, Ev.calm, Ev.name, Ev.d, Ev.n, Ev.made, Ev.stamp, WRng(Ev.new))
  \/ Is("Ldir") /\ LocalDir(Ev.name)
  \/ Is("Wipe") /\ Wiped
  \/ Is("Loc") /\ Local(Files(Ev.files))
  \/ Is("UBegin") /\ UpBegin(Ev.id, Ev.noop)
  \/ Is("UId") /\ UpIs(Ev.id)
  \/ Is("Disturbed") /\ Disturbed
  \/ Is("Obj") /\ Object(Ev, Ev.by)
  \/ Is("Gone") /\ Removed(Ev.name, Ev.run, Ev.by)
  \/ Is("SEnd") /\ SrcEnd(Ev.code, Ev.killed, Ev.calm, Files(Ev.files))
  \/ Is("UEnd") /\ UpEnd(Ev.code, Ev.killed, Ev.calm, Ev.sound, Ev.bad)
  \/ Is("Finish") /\ wviol' = {} /\ UNCHANGED <<wobj, wids, wdirs, wdone, wlast, wart, wloc, won>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Where == " trace=" \o tid \o " line=" \o ToString(pos - 1) \o " "
Report == \A v \in wviol : PrintT("BROKEN " \o v[1] \o Where \o v[2])
Consumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " of " \o ToString(Len(Trace)))
=============================================================================
