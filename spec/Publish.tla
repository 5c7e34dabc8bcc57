------------------------------ MODULE Publish ------------------------------
(***************************************************************************)
(* What a publishing run may do to the three collections: the filters of   *)
(* every channel, the intermediates, the logs.  Nothing here says in which *)
(* order requests are made or how a decision is reached.                   *)
(*                                                                         *)
(*   pbs    the states of the bucket seen since the run began (the last    *)
(*          one is the current): its runs in order, the local              *)
(*          intermediates of the newest one                                *)
(*   precs  id -> record of the filter collection; ppre: as the run began  *)
(*   pnew   ids created by the current run                                 *)
(*   irecs  id -> record of the intermediates; lrecs: of the logs          *)
(*   lup    the upstream list of logs                                      *)
(*   pon    the current run: on, noop, disturbed by somebody else, the     *)
(*          collections that it changed and did not yet submit             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES pbs, precs, ppre, pnew, irecs, lrecs, lpre, lup, pon, pviol
pubVars == <<pbs, precs, ppre, pnew, irecs, lrecs, lpre, lup, pon, pviol>>

CONSTANT Channels  \* slug -> [dir, age (seconds), on]
RealChannels ==
  ("default" :> [dir |-> "clubcard-all", age |-> 45 * 86400, on |-> TRUE]) @@
  ("compat" :> [dir |-> "clubcard-priority", age |-> 45 * 86400, on |-> TRUE]) @@
  ("experimental+deltas" :> [dir |-> "clubcard-all", age |-> 20 * 86400, on |-> FALSE])

PRng(s) == {s[n] : n \in DOMAIN s}
When(cond, what) == IF cond THEN {what} ELSE {}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* ------------------------------------------------------------- channels -- *)
ChOf(x) == IF x.ch = "" THEN "default" ELSE x.ch
Of(recs, c) == {i \in DOMAIN recs : ChOf(recs[i]) = c}
On == {c \in DOMAIN Channels : Channels[c].on}
Retired == DOMAIN Channels \ On

(* one full filter and an unbroken chain of deltas, or nothing *)
Chain(recs, S) ==
  \/ S = {}
  \/ /\ \A i \in S : recs[i].kind \in {"full", "delta"} /\ recs[i].art # ""
     /\ Cardinality({i \in S : recs[i].kind = "full"}) = 1
     /\ \A d \in {i \in S : recs[i].kind = "delta"} :
           recs[d].parent \in S /\ recs[d].ts > recs[recs[d].parent].ts
           /\ \A e \in S \ {d} : recs[e].kind = "delta" => recs[e].parent # recs[d].parent
Good(recs, c) == Chain(recs, Of(recs, c))
Leaf(recs, S) == CHOOSE i \in S : \A j \in S : ~(recs[j].kind = "delta" /\ recs[j].parent = i)
FullOf(recs, S) == CHOOSE i \in S : recs[i].kind = "full"

(* -------------------------------------------------------------- the bucket *)
Cur == pbs[Len(pbs)]
Pos(b, r) == IF \E n \in DOMAIN b.runs : b.runs[n].id = r THEN CHOOSE n \in DOMAIN b.runs : b.runs[n].id = r ELSE 0
Has(s, x) == x \in PRng(s)
Newest(b) == b.runs[Len(b.runs)]
NewRuns(b, leaf) == {n \in DOMAIN b.runs : n > Pos(b, leaf.run)}

(* what to do about channel c, whose records were `recs`, given bucket b with at least one run *)
Missing(b, recs, c) == \E i \in Of(recs, c) : Pos(b, recs[i].run) = 0
Ready(b, recs, c) == \A n \in NewRuns(b, recs[Leaf(recs, Of(recs, c))]) : b.runs[n].done /\ Has(b.runs[n].delta, Channels[c].dir)
Complete(b, recs, c) == \A n \in NewRuns(b, recs[Leaf(recs, Of(recs, c))]) : b.runs[n].logs /\ Has(b.runs[n].full, Channels[c].dir)
Ordered(b, recs, c) ==
  LET l == recs[Leaf(recs, Of(recs, c))]  N == NewRuns(b, l) IN
  \A n \in N : b.runs[n].ts > l.ts /\ \A m \in N : m < n => b.runs[m].ts < b.runs[n].ts
Old(b, recs, c) == Newest(b).ts - recs[FullOf(recs, Of(recs, c))].ts >= Channels[c].age
MustFull(b, recs, c) ==
  IF Of(recs, c) = {} THEN TRUE
  ELSE IF ~Good(recs, c) THEN TRUE
  ELSE IF Missing(b, recs, c) THEN TRUE
  ELSE ~Ready(b, recs, c) \/ ~Ordered(b, recs, c) \/ Old(b, recs, c)
Behind(b, recs, c) == LET l == recs[Leaf(recs, Of(recs, c))] IN \E i \in Of(recs, c) : Pos(b, recs[i].run) > Pos(b, l.run)
MayFull(b, recs, c) == MustFull(b, recs, c) \/ ~Complete(b, recs, c) \/ Behind(b, recs, c)
Bs == {b \in PRng(pbs) : b.runs # << >>}

(* --------------------------------------------------- filters: each request *)
Judged == pon.on
Foreign(x) == ChOf(x) \notin DOMAIN Channels
NoopV(what) == When(pon.on /\ pon.noop, <<"P06", "a dry run changed something: " \o what>>)

(* an attachment has just been given to record i *)
AttachV(i, x) ==
  LET c == ChOf(x)
      S == Of(precs, c) \ {i}
      file == IF x.kind = "full" THEN "filter" ELSE "filter.delta"
      n == Pos(Cur, x.run)
  IN IF x.kind \notin {"full", "delta"} THEN {<<"P01", "a malformed record was published on " \o c>>}
     ELSE IF c \notin On THEN {<<"P02", "published on a channel that is not in use: " \o c>>}
     ELSE When(x.art # x.run \o "/" \o Channels[c].dir \o "/" \o file, <<"P02", "not an artefact of channel " \o c \o ": " \o x.art>>)
          \cup When(~x.fx, <<"P02", "record of " \o c \o " is not addressed to the channel">>)
          \cup (IF n = 0 THEN {<<"P03", "no such run: " \o x.run>>}
                ELSE When(~Cur.runs[n].done, <<"P03", "run is not complete: " \o x.run>>)
                     \cup When(x.ts # Cur.runs[n].ts \/ x.eff # Cur.runs[n].ts, <<"P03", "record does not carry the time of its run: " \o x.run>>))
          \cup (IF x.kind = "full" \/ pon.dist THEN {}
                ELSE When(S = {} \/ ~Chain(Put(precs, i, x), S \cup {i}), <<"P01", "a delta does not continue the chain of " \o c>>)
                     \cup (IF S = {} \/ ~Chain(precs, S) THEN {}
                           ELSE When(\E j \in S : precs[j].run = x.run, <<"P03", "run published twice on " \o c \o ": " \o x.run>>)
                                \cup When(n # Pos(Cur, precs[Leaf(precs, S)].run) + 1, <<"P03", "a delta skips runs or goes back on " \o c \o ": " \o x.run>>)))

PutV(i, x, new) ==
  IF ~Judged THEN {}
  ELSE NoopV("filters")
       \cup When(Foreign(x) \/ (~new /\ i \in DOMAIN precs /\ Foreign(precs[i])), <<"P02", "a record of a foreign channel was changed: " \o ChOf(x)>>)
       \cup When(~new /\ i \notin pnew, <<"P01", "a published record was rewritten on " \o ChOf(x)>>)
       \cup (IF ~Foreign(x) /\ x.art # "" /\ (new \/ i \in pnew) THEN AttachV(i, x) ELSE {})

DelV(i) ==
  IF ~Judged \/ i \notin DOMAIN precs THEN {}
  ELSE LET x == precs[i]  c == ChOf(x) IN
       NoopV("filters")
       \cup (IF Foreign(x) THEN {<<"P02", "a record of a foreign channel was deleted: " \o c>>}
             ELSE IF c \in Retired \/ i \in pnew \/ pon.dist THEN {}
             ELSE IF \E b \in Bs : MayFull(b, ppre, c) THEN {}
             ELSE LET others == (On \ {c}) IN
                  IF (\E d \in others, b \in Bs : Of(ppre, d) # {} /\ MayFull(b, ppre, d)) \/ (\E d \in Retired : Of(ppre, d) # {})
                  THEN {<<"P02", "a record of a channel that did not need replacing was deleted along with another channel's: " \o c>>}
                  ELSE {<<"P03", "a channel was cleared without need: " \o c>>})

(* --------------------------------------------------- filters: a finished run *)
Restrict(f, S) == [x \in S |-> f[x]]
EndChannel(c) ==
  LET S == Of(precs, c)
      same == S = Of(ppre, c) /\ Restrict(precs, S) = Restrict(ppre, S)
      notready == \E b \in PRng(pbs) : b.runs = << >> \/ ~Newest(b).done
      b == Cur
  IN IF same THEN
          IF notready THEN {}
          ELSE IF ~Good(precs, c) THEN {<<"P01", "a broken chain was left in place on " \o c>>}
          ELSE When(\A x \in Bs : MustFull(x, ppre, c), <<"P03", "no full filter was published although one was due on " \o c>>)
               \cup When(S # {} /\ Good(precs, c) /\ \A x \in Bs : NewRuns(x, precs[Leaf(precs, S)]) # {}, <<"P03", "complete runs were not published on " \o c>>)
     ELSE When(~Good(precs, c), <<"P01", "the channel is not one full filter and one chain of deltas: " \o c>>)
          \cup (IF ~Good(precs, c) THEN {}
                ELSE IF S \cap Of(ppre, c) = {} /\ S # {}
                     THEN LET x == precs[FullOf(precs, S)] IN
                          When(\A y \in Bs : ~MayFull(y, ppre, c), <<"P03", "a full filter was published without need on " \o c>>)
                          \cup When(Pos(b, x.run) # Len(b.runs) /\ \A y \in Bs : Pos(y, x.run) # Len(y.runs), <<"P03", "the full filter is not of the newest run on " \o c>>)
                     ELSE When(\A y \in Bs : MustFull(y, ppre, c), <<"P03", "the chain was continued although a full filter was due on " \o c>>)
                          \cup When(S = {} \/ \A y \in Bs : NewRuns(y, precs[Leaf(precs, S)]) # {}, <<"P03", "complete runs were not published on " \o c>>))
EndFilters ==
  UNION {EndChannel(c) : c \in On}
  \cup {<<"P01", "a retired channel still holds records: " \o c>> : c \in {d \in Retired : Of(precs, d) # {}}}

(* --------------------------------------------------------- intermediates *)
Ders == {irecs[i].der : i \in DOMAIN irecs}
Same(b) == b.locok /\ Ders = PRng(b.loc) /\ Cardinality(DOMAIN irecs) = Cardinality(Ders)
Synced == \E b \in PRng(pbs) : Same(b)
IDelV(i) ==
  IF ~Judged \/ i \notin DOMAIN irecs THEN {}
  ELSE LET d == irecs[i].der IN
       NoopV("intermediates")
       \cup When(d # "" /\ i \notin pnew /\ (\A j \in DOMAIN irecs \ {i} : irecs[j].der # d) /\ \A b \in PRng(pbs) : Has(b.loc, d), <<"P04", "an intermediate of the local list was deleted">>)
IPutV(i, x, new) == IF ~Judged THEN {} ELSE NoopV("intermediates") \cup When(x.der # "" /\ \A b \in PRng(pbs) : ~Has(b.loc, x.der), <<"P04", "an intermediate that is not in the local list was uploaded">>)
ReviewV(coll, st) ==
  IF ~Judged THEN {}
  ELSE When(st # "to-review", <<"P07", "the publisher moved " \o coll \o " to " \o st>>)
       \cup NoopV("review of " \o coll)
       \cup When(coll = "intermediates" /\ ~Synced, <<"P04", "review was requested although the remote intermediates are not the local ones">>)

(* ------------------------------------------------------------------ logs *)
Admissible == {"qualified", "usable", "readonly", "retired"}
Mirror(u) == [log |-> u.log, desc |-> u.desc, key |-> u.key, url |-> u.url, mmd |-> u.mmd, adm |-> IF u.state \in Admissible THEN "yes" ELSE "no", op |-> u.op, tiled |-> u.tiled]
Meta(x) == [log |-> x.log, desc |-> x.desc, key |-> x.key, url |-> x.url, mmd |-> x.mmd, adm |-> x.adm, op |-> x.op, tiled |-> x.tiled]
Ups == PRng(lup.logs)
UpIds == {u.log : u \in Ups}
Unique(recs) == \A i, j \in DOMAIN recs : recs[i].log = recs[j].log => i = j
LPutV(i, x, new) ==
  IF ~Judged THEN {}
  ELSE NoopV("logs")
       \cup When(~lup.ok \/ ~Unique(lpre), <<"P05", "logs were changed although the list or the collection is inconsistent">>)
       \cup When(lup.ok /\ ~(\E u \in Ups : Mirror(u) = Meta(x)), <<"P05", "a record does not mirror the log list: " \o x.desc>>)
       \cup (IF i \in DOMAIN lrecs
             THEN When(x.enr # lrecs[i].enr /\ lrecs[i].enr # "?", <<"P05", "the enrolment of a known log was changed: " \o x.desc>>)
                  \cup When(x.log # lrecs[i].log, <<"P05", "a record was turned into another log: " \o x.desc>>)
                  \cup When(x = lrecs[i], <<"P05", "a record was rewritten without need: " \o x.desc>>)
             ELSE When(\E j \in DOMAIN lrecs : lrecs[j].log = x.log, <<"P05", "a second record for a log: " \o x.desc>>)
                  \cup When(x.enr # "yes", <<"P05", "a new log was not enrolled: " \o x.desc>>))
LDelV(i) ==
  IF ~Judged \/ i \notin DOMAIN lrecs THEN {}
  ELSE NoopV("logs") \cup When(~lup.ok \/ lrecs[i].log \in UpIds, <<"P05", "a log of the log list was dropped: " \o lrecs[i].desc>>)
EndLogs(lfail) ==
  IF lfail THEN {}
  ELSE When(~lup.ok, <<"P05", "an inconsistent log list was accepted">>)
       \cup (IF ~lup.ok THEN {} ELSE
             {<<"P05", "no current record of log " \o u.desc>> : u \in {v \in Ups : Cardinality({i \in DOMAIN lrecs : lrecs[i].log = v.log /\ Meta(lrecs[i]) = Mirror(v)}) # 1}}
             \cup {<<"P05", "a log that left the list is still there: " \o lrecs[i].desc>> : i \in {j \in DOMAIN lrecs : lrecs[j].log \notin UpIds}})

(* ---------------------------------------------------------------- success *)
(* nothing stands in the way of the run: it must not fail, whatever an earlier run or somebody else left behind *)
Sound ==
  /\ lup.ok /\ Unique(lrecs) /\ \A i \in DOMAIN lrecs : lrecs[i].log # "?" /\ lrecs[i].enr # "?"
  /\ \A i \in DOMAIN precs : precs[i].named
  /\ \A i \in DOMAIN irecs : ~irecs[i].gone
  /\ Cur.runs = << >> \/ (/\ Cur.sane /\ Newest(Cur).logs /\ \A c \in On : Has(Newest(Cur).full, Channels[c].dir) /\ Has(Newest(Cur).delta, Channels[c].dir)
                          /\ \A n \in DOMAIN Cur.runs : Cur.runs[n].ts >= 0)

(* ------------------------------------------------------------- effects -- *)
NoBucket == [runs |-> << >>, loc |-> << >>, locok |-> FALSE, sane |-> FALSE]
PubInit == pbs = <<NoBucket>> /\ precs = << >> /\ ppre = << >> /\ pnew = {} /\ irecs = << >> /\ lrecs = << >> /\ lpre = << >> /\ lup = [logs |-> << >>, ok |-> TRUE] /\ pon = [on |-> FALSE, noop |-> FALSE, dist |-> FALSE, pend |-> {}] /\ pviol = {}
PubReset == pbs' = <<NoBucket>> /\ precs' = << >> /\ ppre' = << >> /\ pnew' = {} /\ irecs' = << >> /\ lrecs' = << >> /\ lpre' = << >> /\ lup' = [logs |-> << >>, ok |-> TRUE] /\ pon' = [on |-> FALSE, noop |-> FALSE, dist |-> FALSE, pend |-> {}] /\ pviol' = {}

BucketIs(b) == pbs' = (IF pon.on THEN Append(pbs, b) ELSE <<b>>) /\ pviol' = {} /\ UNCHANGED <<precs, ppre, pnew, irecs, lrecs, lpre, lup, pon>>
UpstreamIs(u) == lup' = u /\ pviol' = {} /\ UNCHANGED <<pbs, precs, ppre, pnew, irecs, lrecs, lpre, pon>>
PubBegin(noop) ==
  /\ pbs' = <<Cur>> /\ ppre' = precs /\ lpre' = lrecs /\ pnew' = {} /\ pon' = [on |-> TRUE, noop |-> noop, dist |-> FALSE, pend |-> {}] /\ pviol' = {}
  /\ UNCHANGED <<precs, irecs, lrecs, lup>>

Touch(coll, by) == pon' = IF by = "env" THEN (IF coll = "intermediates" THEN pon ELSE [pon EXCEPT !.dist = @ \/ pon.on]) ELSE [pon EXCEPT !.pend = @ \cup {coll}]
CPut(i, x, new, by) ==
  /\ precs' = Put(precs, i, x) /\ pnew' = IF new /\ by = "pub" THEN pnew \cup {i} ELSE pnew
  /\ pviol' = IF by = "pub" THEN PutV(i, x, new) ELSE {}
  /\ Touch("cert-revocations", by) /\ UNCHANGED <<pbs, ppre, irecs, lrecs, lpre, lup>>
CDel(i, by) ==
  /\ precs' = Drop(precs, i) /\ pviol' = IF by = "pub" THEN DelV(i) ELSE {}
  /\ Touch("cert-revocations", by) /\ UNCHANGED <<pbs, ppre, pnew, irecs, lrecs, lpre, lup>>
IPut(i, x, new, by) ==
  /\ irecs' = Put(irecs, i, x) /\ pnew' = IF new /\ by = "pub" THEN pnew \cup {i} ELSE pnew
  /\ pviol' = IF by = "pub" THEN IPutV(i, x, new) ELSE {}
  /\ Touch("intermediates", by) /\ UNCHANGED <<pbs, precs, ppre, lrecs, lpre, lup>>
IDel(i, by) == irecs' = Drop(irecs, i) /\ pviol' = (IF by = "pub" THEN IDelV(i) ELSE {}) /\ Touch("intermediates", by) /\ UNCHANGED <<pbs, precs, ppre, pnew, lrecs, lpre, lup>>
LPut(i, x, new, by) == lrecs' = Put(lrecs, i, x) /\ pviol' = (IF by = "pub" THEN LPutV(i, x, new) ELSE {}) /\ Touch("ct-logs", by) /\ UNCHANGED <<pbs, precs, ppre, pnew, irecs, lpre, lup>>
LDel(i, by) == lrecs' = Drop(lrecs, i) /\ pviol' = (IF by = "pub" THEN LDelV(i) ELSE {}) /\ Touch("ct-logs", by) /\ UNCHANGED <<pbs, precs, ppre, pnew, irecs, lpre, lup>>
Review(coll, st, by) == pviol' = (IF by = "pub" /\ st # "work-in-progress" THEN ReviewV(coll, st) ELSE {}) /\ (pon' = IF st = "work-in-progress" THEN pon ELSE [pon EXCEPT !.pend = @ \ {coll}]) /\ UNCHANGED <<pbs, precs, ppre, pnew, irecs, lrecs, lpre, lup>>

PubEnd(code, killed, lfail, calm) ==
  /\ pon' = [on |-> FALSE, noop |-> FALSE, dist |-> FALSE, pend |-> {}] /\ pnew' = {}
  /\ pviol' = IF code # 0 /\ calm /\ Sound THEN {<<"P08", "an undisturbed run failed">>}
              ELSE IF code # 0 \/ killed \/ pon.noop THEN {}
              ELSE (IF pon.dist THEN {} ELSE EndFilters \cup EndLogs(lfail))
                   \cup {<<"P07", "changes were not submitted for review: " \o c>> : c \in pon.pend}
                   \cup When((\A b \in PRng(pbs) : b.runs # << >>) /\ ~Synced, <<"P04", "a run succeeded although the remote intermediates are not the local ones">>)
  /\ UNCHANGED <<pbs, precs, ppre, irecs, lrecs, lpre, lup>>
=============================================================================
