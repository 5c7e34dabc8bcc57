------------------------------- MODULE MCCrl -------------------------------
(***************************************************************************)
(* Design of a revocation run, composed from the effects of Crl.tla: one   *)
(* worker per issuer asks for its CRLs one after the other, retries, keeps *)
(* a complete answer that verifies by a rename over the earlier copy or    *)
(* else falls back to that copy; when all are done the copies of an issuer *)
(* are verified again, processed and written as one list by a rename; the  *)
(* audit and exit status come last.  Around it: servers answer anything,   *)
(* the run is stopped or killed, a rename fails, copies are damaged.       *)
(*                                                                         *)
(* Defects that were found in the code can be switched back on (OldX).     *)
(***************************************************************************)
EXTENDS Crl, Json, SequencesExt

CONSTANTS UrlsOf, Kinds0, Tries, MaxRuns, MaxKill, MaxTerm, MaxFault, MaxSpoil,
          OldExit, OldList, OldName, OldAudit, NoVerify, InPlace, Record, Depth

VARIABLES ph,    \* off, run, lists
          w,     \* issuer -> worker
          kept,  \* issuer -> file -> content
          out,   \* issuer -> list
          aud, term, ren, code, bud, runs, hist
mcVars == <<crlVars, ph, w, kept, out, aud, term, ren, code, bud, runs, hist>>

H(x) == hist' = IF Record THEN Append(hist, x) ELSE hist
MIss == DOMAIN UrlsOf
AllU == UNION {Rng(UrlsOf[i]) : i \in MIss}
File(u) == IF OldName THEN "same" ELSE u
C(u, k) == u \o k
W0 == [st |-> "url", n |-> 1, tries |-> 0, tmp |-> "none", ok |-> {}, wr |-> FALSE]
Contents == {C(u, k) : u \in AllU, k \in {"1", "2", "p"}} \cup {"f"}
Rec(c) == IF c = "f" THEN [valid |-> {}, proc |-> FALSE, ent |-> {}, dp |-> {}, dpk |-> FALSE]
          ELSE LET u == CHOOSE v \in AllU : \E k \in {"1", "2", "p"} : c = C(v, k) IN
               [valid |-> {i \in MIss : u \in Rng(UrlsOf[i])}, proc |-> c # C(u, "p"),
                ent |-> IF c = C(u, "1") THEN {u \o "x"} ELSE {u \o "x", u \o "y"}, dp |-> {}, dpk |-> FALSE]

MCInit ==
  /\ LET ci == [i \in MIss |-> Rng(UrlsOf[i])]
         s == CrlStart(ci, {})
     IN /\ cis = s.cis /\ part = {} /\ cont = [c \in Contents |-> Rec(c)] /\ local = s.local /\ left = s.left /\ served = s.served
        /\ disk = s.disk /\ lists = s.lists /\ crun = [on |-> FALSE, kills |-> 0] /\ cviol = {}
  /\ ph = "off" /\ w = [i \in MIss |-> W0] /\ kept = [i \in MIss |-> [f \in {File(u) : u \in Rng(UrlsOf[i])} |-> "none"]]
  /\ out = [i \in MIss |-> NoList] /\ aud = {} /\ term = FALSE /\ ren = FALSE /\ code = 0
  /\ bud = [kill |-> MaxKill, term |-> MaxTerm, fault |-> MaxFault, spoil |-> MaxSpoil] /\ runs = MaxRuns /\ hist = << >>

DiskOf(k) == [i \in MIss |-> LET fs == {f \in DOMAIN k[i] : k[i][f] # "none"} IN
  IF fs = {} THEN << >> ELSE [n \in 1 .. Cardinality(fs) |-> k[i][SetToSeq(fs)[n]]]]
Note(i, u, k) == aud' = aud \cup {[i |-> i, u |-> u, k |-> k]}
Url(i) == UrlsOf[i][w[i].n]
Idle == cviol' = {} /\ UNCHANGED <<cis, cont, part, local, left, served, disk, lists, crun>>

Start ==
  /\ ph = "off" /\ runs > 0
  /\ BeginRun
  /\ ph' = "run" /\ w' = [i \in MIss |-> W0] /\ out' = [i \in MIss |-> NoList] /\ aud' = {} /\ term' = FALSE /\ ren' = FALSE /\ code' = 0
  /\ runs' = runs - 1 /\ H([op |-> "begin"])
  /\ UNCHANGED <<kept, bud>>

Next1(i, good) == [w[i] EXCEPT !.st = IF w[i].n = Len(UrlsOf[i]) THEN "done" ELSE "url", !.n = @ + 1, !.tries = 0, !.tmp = "none",
                               !.ok = IF good THEN @ \cup {Url(i)} ELSE @]
Fallback(i) == Next1(i, Valid(i, kept[i][File(Url(i))]))

\* stops at the next CRL once told to
Stop(i) ==
  /\ ph = "run" /\ term /\ w[i].st \in {"url", "done"}
  /\ w' = [w EXCEPT ![i].st = "stopped"] /\ Idle
  /\ UNCHANGED <<ph, kept, out, aud, term, ren, code, bud, runs, hist>>

Ask(i) ==
  /\ ph = "run" /\ ~term /\ w[i].st = "url"
  /\ \E k \in Kinds0 :
       LET u == Url(i)
           c == IF k = "f" THEN "f" ELSE IF k = "cut" THEN C(u, "2") ELSE IF k = "fail" THEN "" ELSE C(u, k)
       IN /\ Answer(u, k \notin {"fail", "cut"}, c, k # "fail")
          /\ H([op |-> "ans", u |-> u, k |-> k])
          /\ IF k \in {"fail", "cut"}
             THEN IF w[i].tries + 1 < Tries THEN w' = [w EXCEPT ![i].tries = @ + 1] /\ UNCHANGED aud
                  ELSE w' = [w EXCEPT ![i] = Fallback(i)] /\ Note(i, u, "Failed Download")
             ELSE w' = [w EXCEPT ![i].st = "verify", ![i].tmp = c] /\ UNCHANGED aud
  /\ UNCHANGED <<ph, kept, out, term, ren, code, bud, runs>>

Verify(i) ==
  /\ ph = "run" /\ w[i].st = "verify"
  /\ LET u == Url(i)
         pass == NoVerify \/ Valid(i, w[i].tmp)
         f == File(u)
     IN IF ~pass THEN /\ Note(i, u, "Failed Verify") /\ w' = [w EXCEPT ![i] = Fallback(i)] /\ Idle /\ UNCHANGED <<kept, ren, bud, hist>>
        ELSE \/ /\ kept' = [kept EXCEPT ![i][f] = IF InPlace /\ @ # "half" THEN "half" ELSE w[i].tmp]
                /\ Copies(DiskOf(kept'), FALSE)
                /\ w' = IF kept'[i][f] = "half" THEN w ELSE [w EXCEPT ![i] = Next1(i, TRUE)]
                /\ UNCHANGED <<aud, ren, bud, hist>>
             \/ /\ bud.fault > 0 /\ bud' = [bud EXCEPT !.fault = @ - 1] /\ ren' = TRUE /\ H([op |-> "fault"])
                /\ w' = [w EXCEPT ![i] = Fallback(i)] /\ Idle
                /\ IF OldAudit THEN UNCHANGED aud ELSE Note(i, u, "Failed Download")
                /\ UNCHANGED kept
  /\ UNCHANGED <<ph, out, term, code, runs>>

\* all issuers were downloaded
Agg(i) ==
  /\ ph = "run" /\ w[i].st = "done" /\ \A j \in MIss : w[j].st \notin {"url", "verify", "stopped"}
  /\ ~term
  /\ LET us == Rng(UrlsOf[i])
         bad == {u \in us : u \notin w[i].ok \/ ~Valid(i, kept[i][File(u)])}
         un == {u \in us \ bad : ~cont[kept[i][File(u)]].proc}
         ents == Ents({kept[i][File(u)] : u \in us})
     IN /\ aud' = aud \cup {[i |-> i, u |-> u, k |-> "Failed Process Local"] : u \in un}
        /\ IF bad \cup un # {} THEN w' = [w EXCEPT ![i].st = "fin"] /\ UNCHANGED out
           ELSE IF OldList /\ ~w[i].wr
           THEN /\ \E e \in SUBSET ents : e # ents /\ out' = [out EXCEPT ![i] = [has |-> TRUE, ent |-> e, junk |-> FALSE]]
                /\ w' = [w EXCEPT ![i].wr = TRUE]
           ELSE out' = [out EXCEPT ![i] = [has |-> TRUE, ent |-> ents, junk |-> FALSE]] /\ w' = [w EXCEPT ![i].st = "fin"]
  /\ Idle
  /\ UNCHANGED <<ph, kept, term, ren, code, bud, runs, hist>>

Exit ==
  /\ ph = "run" /\ \A i \in MIss : w[i].st \in {"fin", "stopped"}
  /\ code' = IF (\E i \in MIss : w[i].st = "stopped") /\ ~OldExit THEN 1 ELSE 0
  /\ ph' = "lists" /\ Lists(out)
  /\ UNCHANGED <<w, kept, out, aud, term, ren, bud, runs, hist>>

Kill ==
  /\ ph = "run" /\ bud.kill > 0 /\ bud' = [bud EXCEPT !.kill = @ - 1]
  /\ code' = -1 /\ ph' = "lists" /\ Lists(out) /\ H([op |-> "kill"])
  /\ UNCHANGED <<w, kept, out, aud, term, ren, runs>>

Term ==
  /\ ph = "run" /\ ~term /\ bud.term > 0 /\ bud' = [bud EXCEPT !.term = @ - 1] /\ term' = TRUE /\ H([op |-> "term"]) /\ Idle
  /\ UNCHANGED <<ph, w, kept, out, aud, ren, code, runs>>

End ==
  /\ ph = "lists" /\ ph' = "off"
  /\ EndRun(code, code = -1, term, ren, FALSE, code = 0, aud)
  /\ H([op |-> "end"])
  /\ UNCHANGED <<w, kept, out, aud, term, ren, code, bud, runs>>

\* between runs a copy is damaged
Damage ==
  /\ ph = "off" /\ bud.spoil > 0 /\ crun.on = FALSE
  /\ \E i \in MIss : \E u \in Rng(UrlsOf[i]) :
       /\ kept[i][File(u)] \notin {"none", "f"} /\ local[i][u] # "bad"
       /\ kept' = [kept EXCEPT ![i][File(u)] = "f"]
       /\ H([op |-> "spoil", i |-> i, u |-> u])
       /\ local' = [local EXCEPT ![i][u] = "bad"] /\ disk' = DiskOf(kept') /\ cviol' = {}
       /\ UNCHANGED <<cis, cont, part, left, served, lists, crun>>
  /\ bud' = [bud EXCEPT !.spoil = @ - 1]
  /\ UNCHANGED <<ph, w, out, aud, term, ren, code, runs>>

MCNext == Start \/ Exit \/ Kill \/ Term \/ End \/ Damage \/ \E i \in MIss : Stop(i) \/ Ask(i) \/ Verify(i) \/ Agg(i)
MCSpec == MCInit /\ [][MCNext]_mcVars
NoViolation == cviol = {}
Script == (Record /\ ph = "off" /\ runs = 0) => PrintT("SCRIPT " \o ToJson(hist))
\* every run that is left alone comes to an end
Ends == (ph # "off") ~> (ph = "off")
MCFair == MCSpec /\ WF_mcVars(MCNext)
=============================================================================
