------------------------------ MODULE MCRoots ------------------------------
(***************************************************************************)
(* Design of the loader: use the local report if it is recent, else fetch  *)
(* a new one beside it and put that in its place when it is complete; read *)
(* all rows; then verify the intermediates in any order against what was   *)
(* read; gather certificates, URLs and the partitioned flag by key; save.  *)
(*                                                                         *)
(* Switches turn earlier or plausible wrong designs on: OldInPlace (the    *)
(* download overwrites the local report), OldFlag (the first certificate   *)
(* of a key decides about partitions), Early (verify while reading), FirstKey *)
(* (a key's further certificates are ignored), LastRow (a repeated row        *)
(* replaces the earlier one's URLs), NoRev (revocation of roots ignored).  *)
(***************************************************************************)
EXTENDS Roots, Json, SequencesExt

CONSTANTS Mode, Pool, MaxRows, Tries, MaxRuns, MaxKill, OldInPlace, OldFlag, Early, FirstKey, LastRow, NoRev, Record

VARIABLES ph, file, tmp, tries, k, roots, inters, todo, enr, runs, kills, hist
mcVars == <<rootVars, ph, file, tmp, tries, k, roots, inters, todo, enr, runs, kills, hist>>

H(x) == hist' = IF Record THEN Append(hist, x) ELSE hist
Ce(id, key, subj, iss, sign, now) == [id |-> id, key |-> key, subj |-> subj, iss |-> iss, sign |-> sign, ca |-> TRUE, plen |-> 0 - 1, tls |-> TRUE, ku |-> "sign", now |-> now]
MCerts == [c \in {"R", "Q", "A", "A2", "B", "E", "D"} |->
  CASE c = "R" -> Ce(c, "kR", "R", "R", "kR", TRUE) [] c = "Q" -> Ce(c, "kQ", "Q", "Q", "kQ", TRUE)
    [] c = "A" -> Ce(c, "kA", "A", "R", "kR", TRUE) [] c = "A2" -> Ce(c, "kA", "A2", "Q", "kQ", TRUE)
    [] c = "B" -> Ce(c, "kB", "B", "A", "kA", TRUE) [] c = "E" -> Ce(c, "kE", "E", "R", "kR", FALSE) [] c = "D" -> Ce(c, "kD", "D", "E", "kE", TRUE)]
Ro(c, kind, rev, parse, urls, part) == [c |-> c, kind |-> kind, rev |-> rev, parse |-> parse, urls |-> urls, part |-> part]
I(c, u) == Ro(c, "inter", FALSE, TRUE, u, FALSE)
RowPool ==
  {Ro("R", "root", FALSE, TRUE, << >>, FALSE), Ro("R", "root", TRUE, TRUE, << >>, FALSE), Ro("Q", "root", FALSE, TRUE, << >>, FALSE), Ro("A", "inter", TRUE, TRUE, <<"u">>, FALSE),
   I("A", <<"u">>), I("A", << >>), Ro("A2", "inter", FALSE, TRUE, <<"u", "v">>, TRUE), I("B", <<"v">>), I("E", <<"u">>), I("D", <<"v">>), Ro("B", "other", FALSE, TRUE, <<"u">>, FALSE), Ro("A", "inter", FALSE, FALSE, <<"v">>, FALSE)}
UrlPool ==
  {Ro("R", "root", FALSE, TRUE, << >>, FALSE), Ro("Q", "root", FALSE, TRUE, << >>, FALSE), I("A", <<"u">>), Ro("A", "inter", FALSE, TRUE, <<"v">>, TRUE), I("A", << >>), I("A2", <<"v">>), Ro("A2", "inter", FALSE, TRUE, <<"u", "v">>, TRUE), I("B", <<"v">>)}
GetOld == <<Ro("R", "root", FALSE, TRUE, << >>, FALSE), I("A", <<"u">>), I("B", <<"v">>)>>
GetNew == <<Ro("R", "root", FALSE, TRUE, << >>, FALSE), I("B", <<"u">>), Ro("Q", "root", FALSE, TRUE, << >>, FALSE), I("A2", <<"v">>)>>
NoFile == [r |-> "", n |-> 0, fresh |-> FALSE]
Whole(r, fresh) == [r |-> r, n |-> Len(rrep[r].rows), fresh |-> fresh]
Consistent(q) == \A m, n \in DOMAIN q : q[m].c = q[n].c /\ q[m].kind # "other" /\ q[n].kind # "other" /\ q[m].parse /\ q[n].parse => q[m].rev = q[n].rev

MCInit ==
  /\ rcert = MCerts
  /\ IF Mode = "get" THEN rrep = [o |-> [ok |-> TRUE, rows |-> GetOld], w |-> [ok |-> TRUE, rows |-> GetNew]]
     ELSE \E m \in 1 .. MaxRows : \E q \in [1 .. m -> Pool] : Consistent(q) /\ rrep = [w |-> [ok |-> TRUE, rows |-> q]]
  /\ rserv = << >> /\ ron = FALSE /\ renr = {} /\ rviol = {}
  /\ \/ Mode # "get" /\ file = [r |-> "w", n |-> Len(rrep["w"].rows), fresh |-> TRUE]
     \/ Mode = "get" /\ file \in {NoFile, [r |-> "o", n |-> 3, fresh |-> FALSE], [r |-> "o", n |-> 3, fresh |-> TRUE]}
  /\ rloc = {[r |-> file.r, fresh |-> file.fresh]}
  /\ ph = "off" /\ tmp = NoFile /\ tries = 0 /\ k = 0 /\ roots = {} /\ inters = << >> /\ todo = {} /\ enr = << >> /\ runs = MaxRuns /\ kills = MaxKill
  /\ hist = IF Record THEN <<[op |-> "local", r |-> file.r, fresh |-> file.fresh]>> ELSE << >>

Start ==
  /\ ph = "off" /\ runs > 0 /\ RootsBegin
  /\ ph' = IF file.r # "" /\ file.fresh THEN "read" ELSE "get"
  /\ runs' = runs - 1 /\ tmp' = NoFile /\ tries' = 0 /\ k' = 0 /\ roots' = {} /\ inters' = << >> /\ todo' = {} /\ enr' = << >>
  /\ H([op |-> "begin"]) /\ UNCHANGED <<file, kills>>

Fetch(r) ==
  /\ ph = "get" /\ Served(r, TRUE, TRUE)
  /\ file' = Whole(r, TRUE) /\ tmp' = NoFile /\ ph' = "read" /\ H([op |-> "get", how |-> "ok", r |-> r, n |-> 0])
  /\ UNCHANGED <<tries, k, roots, inters, todo, enr, runs, kills>>
Part(r, n) == [r |-> r, n |-> n, fresh |-> TRUE]
FetchCut(r, n) ==
  /\ ph = "get" /\ Served(r, FALSE, TRUE)
  /\ IF OldInPlace THEN file' = Part(r, n) /\ tmp' = tmp ELSE tmp' = Part(r, n) /\ file' = file
  /\ tries' = tries + 1 /\ ph' = (IF tries + 1 = Tries THEN "failed" ELSE "get") /\ H([op |-> "get", how |-> "cut", r |-> r, n |-> n])
  /\ UNCHANGED <<k, roots, inters, todo, enr, runs, kills>>
GiveUp ==
  /\ ph = "failed" /\ RootsEnd(1, FALSE, FALSE, << >>, << >>, << >>, TRUE) /\ ph' = "off"
  /\ hist' = hist /\ UNCHANGED <<file, tmp, tries, k, roots, inters, todo, enr, runs, kills>>
Kill(r, n) ==
  /\ ph = "get" /\ kills > 0 /\ kills' = kills - 1
  /\ RootsEnd(0 - 1, TRUE, FALSE, << >>, << >>, << >>, TRUE)
  /\ IF OldInPlace THEN file' = Part(r, n) /\ tmp' = tmp ELSE tmp' = Part(r, n) /\ file' = file
  /\ ph' = "off" /\ H([op |-> "get", how |-> "kill", r |-> r, n |-> n])
  /\ UNCHANGED <<tries, k, roots, inters, todo, enr, runs>>

Idle == rviol' = {} /\ UNCHANGED <<rcert, rrep, rloc, rserv, ron, renr>>
Held == {inters[n].c : n \in DOMAIN inters}
RECURSIVE Grow(_, _)
Grow(ok, all) == LET new == {c \in all \ ok : rcert[c].now /\ \E p \in ok : Issued(p, c)} IN IF new = {} THEN ok ELSE Grow(ok \cup new, all)
Trusted == Grow({c \in roots : rcert[c].now}, {inters[n].c : n \in DOMAIN inters})
Add(e, x) ==
  LET key == rcert[x.c].key IN
  IF key \in DOMAIN e THEN [e EXCEPT ![key] = [certs |-> @.certs \cup {x.c}, urls |-> IF FirstKey THEN @.urls ELSE @.urls \cup RRng(x.urls), part |-> IF OldFlag THEN @.part ELSE @.part \/ x.part]]
  ELSE [y \in DOMAIN e \cup {key} |-> IF y = key THEN [certs |-> {x.c}, urls |-> RRng(x.urls), part |-> x.part] ELSE e[y]]

ReadRow ==
  /\ ph = "read" /\ k < file.n /\ k' = k + 1 /\ Idle
  /\ LET x == rrep[file.r].rows[k + 1]
         at == {n \in DOMAIN inters : inters[n].c = x.c} IN
     /\ roots' = IF x.kind = "root" /\ x.parse /\ (NoRev \/ ~x.rev) THEN roots \cup {x.c} ELSE roots
     /\ inters' = IF x.kind = "inter" /\ x.parse /\ ~x.rev
                  THEN IF at = {} THEN Append(inters, x) ELSE IF LastRow THEN [inters EXCEPT ![CHOOSE n \in at : TRUE] = x] ELSE inters
                  ELSE inters
     /\ enr' = IF Early /\ x.kind = "inter" /\ x.parse /\ ~x.rev /\ x.c \in Grow({c \in roots : rcert[c].now}, {inters[n].c : n \in DOMAIN inters} \cup {x.c}) THEN Add(enr, x) ELSE enr
  /\ hist' = hist /\ UNCHANGED <<ph, file, tmp, tries, todo, runs, kills>>
ReadAll ==
  /\ ph = "read" /\ k = file.n /\ ph' = "verify" /\ todo' = (IF Early THEN {} ELSE DOMAIN inters) /\ Idle
  /\ hist' = hist /\ UNCHANGED <<file, tmp, tries, k, roots, inters, enr, runs, kills>>
Verify ==
  /\ ph = "verify" /\ Idle
  /\ \E n \in todo : todo' = todo \ {n} /\ enr' = IF inters[n].c \in Trusted THEN Add(enr, inters[n]) ELSE enr
  /\ hist' = hist /\ UNCHANGED <<ph, file, tmp, tries, k, roots, inters, runs, kills>>
Items == SetToSeq(UNION {{[k |-> key, c |-> c, ok |-> TRUE, part |-> enr[key].part] : c \in enr[key].certs} : key \in DOMAIN enr})
Asked == SetToSeq(UNION {{[k |-> key, u |-> u] : u \in enr[key].urls} : key \in DOMAIN enr})
Save ==
  /\ ph = "verify" /\ todo = {} /\ RootsEnd(0, FALSE, TRUE, Items, Asked, SetToSeq({a.u : a \in RRng(Asked)}), TRUE) /\ ph' = "off"
  /\ hist' = hist /\ UNCHANGED <<file, tmp, tries, k, roots, inters, todo, enr, runs, kills>>

MCNext == Start \/ GiveUp \/ ReadRow \/ ReadAll \/ Verify \/ Save \/ (\E r \in DOMAIN rrep : Fetch(r) \/ \E n \in 0 .. Len(rrep[r].rows) - 1 : FetchCut(r, n) \/ Kill(r, n))
MCSpec == MCInit /\ [][MCNext]_mcVars
MCFair == MCSpec /\ WF_mcVars(Start \/ GiveUp \/ ReadRow \/ ReadAll \/ Verify \/ Save)
NoViolation == rviol = {}
(* the local report is always a whole one *)
WholeFile == file.r = "" \/ file.n = Len(rrep[file.r].rows)
Script == (Record /\ ph = "off" /\ runs = 0) => PrintT("SCRIPT " \o ToJson([reps |-> [r \in DOMAIN rrep |-> rrep[r].rows], hist |-> hist]))
=============================================================================
