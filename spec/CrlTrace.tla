------------------------------ MODULE CrlTrace ------------------------------
(* Trace validation of the real aggregate-crls against Crl.tla. *)
EXTENDS Crl, Json, SequencesExt, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE pos, tid
tvars == <<crlVars, pos, tid>>

Ev == Trace[pos]
Is(n) == pos <= Len(Trace) /\ Ev.ev = n /\ pos' = pos + 1 /\ tid' = IF n = "Reset" THEN Ev.id ELSE tid
By(seq, F(_)) == [k \in {x.id : x \in Rng(seq)} |-> F(CHOOSE x \in Rng(seq) : x.id = k)]
UrlSet(x) == Rng(x.urls)
FileSeq(x) == x.files
ListOf(x) == [has |-> x.has, ent |-> Rng(x.ent), junk |-> x.junk]

TraceInit == CrlInit(<< >>, {}) /\ pos = 1 /\ tid = ""
TraceNext ==
  \/ Is("Reset") /\ CrlReset(By(Ev.issuers, UrlSet), {x.id : x \in {y \in Rng(Ev.issuers) : y.part}})
  \/ Is("Content") /\ AddContent(Ev.c, [valid |-> Rng(Ev.valid), proc |-> Ev.proc, ent |-> Rng(Ev.ent), dp |-> Rng(Ev.dp), dpk |-> Ev.dpk])
  \/ Is("Begin") /\ BeginRun
  \/ Is("Answer") /\ Answer(Ev.u, Ev.ok, Ev.c, Ev.any)
  \/ Is("Spoil") /\ Spoil(Ev.i, Ev.u)
  \/ Is("Copies") /\ Copies(By(Ev.d, FileSeq), Ev.spoiled)
  \/ Is("Lists") /\ Lists(By(Ev.l, ListOf))
  \/ Is("End") /\ EndRun(Ev.code, Ev.killed, Ev.sig, Ev.fault, Ev.hang, Ev.hasaudit, Rng(Ev.audit))
  \/ Is("Finish") /\ cviol' = {} /\ UNCHANGED <<cis, cont, part, local, left, served, disk, lists, crun>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Where == " trace=" \o tid \o " line=" \o ToString(pos - 1) \o " "
Report == \A v \in cviol : PrintT("BROKEN " \o v[1] \o Where \o v[2])
Consumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " of " \o ToString(Len(Trace)))
=============================================================================
