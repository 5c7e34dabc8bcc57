----------------------------- MODULE Signoff ------------------------------
(***************************************************************************)
(* Automatic sign-off of the published collections.                        *)
(*                                                                         *)
(*   cst    collection -> status (signed, work-in-progress, to-review,     *)
(*          to-sign)                                                       *)
(*   cver   collection -> how often it has been changed                    *)
(*   cread  collection -> the version that the current sign-off read last  *)
(*   son    the current sign-off: the collections it is for, whether it is *)
(*          dry, and what is known of the size of the new filter           *)
(*          ("ok", "big", "unknown", or "none": no limit applies)          *)
(*   cedit  collections changed by others during it                        *)
(*   cwait  collections that waited for review when it began               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES cst, cver, cread, son, cedit, cwait, cviol
soVars == <<cst, cver, cread, son, cedit, cwait, cviol>>

Colls == {"cert-revocations", "intermediates", "ct-logs"}
CWhen(c, what) == IF c THEN {what} ELSE {}
NoSign == [on |-> FALSE, for |-> {}, dry |-> FALSE, size |-> "none"]
Filters == "cert-revocations"

SignV(c, st) ==
  LET P(t) == <<"P09", t \o ": " \o c>> IN
  CWhen(st # "to-sign", P("the sign-off put a collection into another state than waiting for the signature (" \o st \o ")"))
  \cup CWhen(c \notin son.for, P("a collection other than those named was signed off"))
  \cup CWhen(son.dry, P("a dry sign-off changed a collection"))
  \cup CWhen(cst[c] # "to-review", P("a collection that was not waiting for review was signed off"))
  \cup CWhen(cst[c] = "to-review" /\ cread[c] # cver[c], P("a collection was signed off in another state than the one that was read"))
  \cup CWhen(c = Filters /\ son.size = "big", P("a filter larger than the limit was signed off"))
  \cup CWhen(c = Filters /\ son.size = "unknown", <<"KF-P09-nosize", "a filter of unknown size was signed off">>)

SoInit == cst = [c \in Colls |-> "signed"] /\ cver = [c \in Colls |-> 0] /\ cread = [c \in Colls |-> 0 - 1] /\ son = NoSign /\ cedit = {} /\ cwait = {} /\ cviol = {}
SoReset == cst' = [c \in Colls |-> "signed"] /\ cver' = [c \in Colls |-> 0] /\ cread' = [c \in Colls |-> 0 - 1] /\ son' = NoSign /\ cedit' = {} /\ cwait' = {} /\ cviol' = {}

Begin(for, dry, size) == son' = [on |-> TRUE, for |-> for, dry |-> dry, size |-> size] /\ cedit' = {} /\ cwait' = {c \in Colls : cst[c] = "to-review"} /\ cread' = [c \in Colls |-> 0 - 1] /\ cviol' = {} /\ UNCHANGED <<cst, cver>>
ReadStatus(c) == cread' = [cread EXCEPT ![c] = cver[c]] /\ cviol' = {} /\ UNCHANGED <<cst, cver, son, cedit, cwait>>
SetStatus(c, st, by) ==
  /\ cst' = [cst EXCEPT ![c] = st] /\ cver' = [cver EXCEPT ![c] = @ + 1]
  /\ cviol' = (IF by = "env" THEN {} ELSE SignV(c, st)) /\ cedit' = (IF by = "env" THEN cedit \cup {c} ELSE cedit)
  /\ UNCHANGED <<cread, son, cwait>>
Edited(c, by) ==
  /\ cst' = [cst EXCEPT ![c] = "work-in-progress"] /\ cver' = [cver EXCEPT ![c] = @ + 1] /\ cedit' = (IF by = "env" THEN cedit \cup {c} ELSE cedit)
  /\ cviol' = (IF by = "env" THEN {} ELSE {<<"P09", "the sign-off changed records of " \o c>>})
  /\ UNCHANGED <<cread, son, cwait>>
Allowed(c) == c # Filters \/ son.size \in {"ok", "none"}
(* judged: the collections whose sign-off the exit code speaks of *)
End(code, killed, calm, judged) ==
  /\ cviol' = (IF killed THEN {}
               ELSE (IF code = 0 /\ ~son.dry THEN {<<"P09", "success was reported although the collection still waits: " \o c>> : c \in {x \in judged \cap son.for \cap cwait : x \notin cedit /\ cst[x] = "to-review" /\ Allowed(x)}} ELSE {})
                    \cup (IF calm /\ ~son.dry THEN {<<"P09", "nothing stood in the way, yet a waiting collection was not signed off: " \o c>> : c \in {x \in son.for \cap cwait : x \notin cedit /\ cst[x] = "to-review" /\ Allowed(x)}} ELSE {})
                    \cup CWhen(calm /\ code # 0 /\ cedit \cap son.for = {} /\ \A x \in son.for : Allowed(x), <<"P09", "an undisturbed sign-off failed">>))
  /\ son' = NoSign /\ UNCHANGED <<cst, cver, cread, cedit, cwait>>
=============================================================================
