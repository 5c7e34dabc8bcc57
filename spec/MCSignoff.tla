----------------------------- MODULE MCSignoff ------------------------------
(***************************************************************************)
(* Design of the sign-off: for each collection named, read its status; if  *)
(* it waits for review, request the signature on condition that it has not *)
(* changed since. The publisher and editors change collections at any      *)
(* moment; requests fail before or after their effect; the run may die.    *)
(*                                                                         *)
(* Switches: Blind (the request is not conditional), Always (the status is *)
(* not looked at), NoGate (the size is not looked at), Swallow (a failing  *)
(* request is not reported), Reread (on a refusal the version is read      *)
(* again, the status is not).                                              *)
(***************************************************************************)
EXTENDS Signoff, Json, SequencesExt

CONSTANTS MaxEdit, MaxRun, MaxFault, Record, Blind, Always, NoGate, Swallow, Reread

VARIABLES todo, got, ver, code, calm, edits, runs, faults, hist
mcVars == <<soVars, todo, got, ver, code, calm, edits, runs, faults, hist>>
Two == {"cert-revocations", "intermediates"}
H(x) == hist' = IF Record THEN Append(hist, x) ELSE hist
Ctl == <<todo, got, ver, code, calm, runs, faults>>

Edit == edits < MaxEdit /\ \E c \in Two : Edited(c, "env") /\ edits' = edits + 1 /\ H([op |-> "edit", c |-> c]) /\ UNCHANGED Ctl
Ask == edits < MaxEdit + 1 /\ \E c \in Two : cst[c] = "work-in-progress" /\ SetStatus(c, "to-review", "env") /\ edits' = edits + 1 /\ H([op |-> "ask", c |-> c]) /\ UNCHANGED Ctl
Refuse == edits < MaxEdit /\ \E c \in Two : cst[c] = "to-review" /\ SetStatus(c, "work-in-progress", "env") /\ edits' = edits + 1 /\ H([op |-> "refuse", c |-> c]) /\ UNCHANGED Ctl
Signed == \E c \in Two : cst[c] = "to-sign" /\ edits < MaxEdit + 1 /\ edits' = edits + 1 /\ SetStatus(c, "signed", "env") /\ H([op |-> "signed", c |-> c]) /\ UNCHANGED Ctl

Start ==
  /\ ~son.on /\ runs < MaxRun
  /\ \E o \in {<<"cert-revocations">>, <<"intermediates">>, <<"intermediates", "cert-revocations">>}, dry \in BOOLEAN, sz \in {"ok", "big", "none"} :
       /\ (Len(o) = 2) = (sz # "none") /\ (Len(o) = 2 => ~dry)
       /\ Begin({o[n] : n \in DOMAIN o}, dry, sz)
       /\ todo' = o /\ got' = "" /\ code' = 0 /\ calm' = TRUE /\ runs' = runs + 1 /\ H([op |-> "run", for |-> o, dry |-> dry, size |-> sz])
  /\ UNCHANGED <<ver, edits, faults>>
Skip(n) == todo' = SubSeq(todo, n, Len(todo)) /\ got' = ""
Now == todo # << >> /\ son.on
(* the size is looked at before anything about the filters is read *)
Gate == Now /\ got = "" /\ todo[1] = Filters /\ son.size = "big" /\ ~NoGate /\ todo' = << >> /\ got' = "" /\ code' = 1 /\ UNCHANGED <<soVars, ver, calm, edits, runs, faults, hist>>
Dry == Now /\ son.dry /\ Skip(2) /\ UNCHANGED <<soVars, ver, code, calm, edits, runs, faults, hist>>
Read ==
  /\ Now /\ ~son.dry /\ got = "" /\ (todo[1] # Filters \/ son.size # "big" \/ NoGate)
  /\ ReadStatus(todo[1]) /\ got' = cst[todo[1]] /\ ver' = cver[todo[1]]
  /\ UNCHANGED <<todo, code, calm, edits, runs, faults, hist>>
Pass == Now /\ got # "" /\ got # "to-review" /\ ~Always /\ Skip(2) /\ code' = 0 /\ UNCHANGED <<soVars, ver, calm, edits, runs, faults, hist>>
Request ==
  /\ Now /\ got # "" /\ (got = "to-review" \/ Always)
  /\ IF ver = cver[todo[1]] \/ Blind
     THEN SetStatus(todo[1], "to-sign", "tool") /\ Skip(2) /\ code' = 0 /\ UNCHANGED ver
     ELSE IF Reread THEN cviol' = {} /\ ver' = cver[todo[1]] /\ UNCHANGED <<cst, cver, cread, son, cedit, cwait, todo, got, code>>
     ELSE cviol' = {} /\ Skip(2) /\ code' = 1 /\ UNCHANGED <<cst, cver, cread, son, cedit, cwait, ver>>
  /\ UNCHANGED <<calm, edits, runs, faults, hist>>
Fault ==
  /\ Now /\ faults < MaxFault /\ ~son.dry /\ faults' = faults + 1 /\ calm' = FALSE /\ code' = (IF Swallow THEN 0 ELSE 1)
  /\ \/ got = "to-review" /\ ver = cver[todo[1]] /\ SetStatus(todo[1], "to-sign", "tool") /\ H([op |-> "fault", at |-> "patch", how |-> "after"])
     \/ cviol' = {} /\ UNCHANGED <<cst, cver, cread, son, cedit, cwait>> /\ H([op |-> "fault", at |-> IF got = "" THEN "read" ELSE "patch", how |-> "before"])
  /\ Skip(2) /\ UNCHANGED <<ver, edits, runs>>
Stop == son.on /\ todo = << >> /\ End(code, FALSE, calm, {Filters}) /\ UNCHANGED <<todo, got, ver, code, calm, edits, runs, faults, hist>>
Die == son.on /\ faults < MaxFault /\ faults' = faults + 1 /\ End(0, TRUE, FALSE, {}) /\ todo' = << >> /\ got' = "" /\ H([op |-> "fault", at |-> IF got = "" THEN "read" ELSE "patch", how |-> "kill"]) /\ UNCHANGED <<ver, code, calm, edits, runs>>

MCInit == SoInit /\ todo = << >> /\ got = "" /\ ver = 0 /\ code = 0 /\ calm = TRUE /\ edits = 0 /\ runs = 0 /\ faults = 0 /\ hist = << >>
MCNext == Edit \/ Ask \/ Refuse \/ Signed \/ Start \/ Gate \/ Dry \/ Read \/ Pass \/ Request \/ Fault \/ Stop \/ Die
MCSpec == MCInit /\ [][MCNext]_mcVars
NoViolation == cviol = {}
Script == (Record /\ runs = MaxRun /\ ~son.on) => PrintT("SCRIPT " \o ToJson(hist))
View == <<soVars, todo, got, ver, code, calm, edits, runs, faults>>
=============================================================================
