----------------------------- MODULE MCPublish -----------------------------
(***************************************************************************)
(* Design of the publisher: first the logs, then every channel in use      *)
(* (read its records, decide, delete or create and attach one request at a *)
(* time, ask for review), then the removal of retired channels, then the   *)
(* intermediates (delete, create, attach, read again, ask for review).     *)
(* Any request may fail before or after it took effect, the publisher may  *)
(* die between any two, runs may appear at any time, and between runs      *)
(* somebody may change records.                                            *)
(*                                                                         *)
(* Switches turn wrong designs on: OldTimes (new runs are compared only    *)
(* with each other, and may be equal), StrMin (the oldest run by string    *)
(* order), LazyClear (malformed records are not cleared), NoRetReview, NoVerify    *)
(* (review without reading back), NoReady (runs are taken as complete),    *)
(* WideClear (all channels are cleared), KeepStray (a record whose         *)
(* attachment failed stays), NewestOnly (only the newest delta is added).  *)
(***************************************************************************)
EXTENDS Publish, Json, SequencesExt

CONSTANTS ChanCfg, MaxRuns, MaxPubs, MaxTamper, MaxFail, Gaps, Races, Parts, Record,
  OldTimes, StrMin, LazyClear, NoRetReview, NoVerify, NoReady, WideClear, KeepStray, NewestOnly

VARIABLES pc, todo, left, prevId, madeId, nid, cnt, hit, lfl, pubs, tampers, fails, hist
mcVars == <<pubVars, pc, todo, left, prevId, madeId, nid, cnt, hit, lfl, pubs, tampers, fails, hist>>

Ch(d, on) == [dir |-> d, age |-> 4, on |-> on]
MCChannels ==
  CASE ChanCfg = "one" -> ("default" :> Ch("da", TRUE))
    [] ChanCfg = "two" -> ("default" :> Ch("da", TRUE)) @@ ("compat" :> Ch("dp", TRUE))
    [] ChanCfg = "retired" -> ("default" :> Ch("da", TRUE)) @@ ("old" :> Ch("da", FALSE))
Order == IF ChanCfg = "two" THEN <<"default", "compat">> ELSE <<"default">>
G1 == {1}
G12 == {1, 2}
G13 == {1, 3}
GBack == {0 - 1, 0, 1, 3}
GAll == {0 - 1, 0, 1, 2, 3}
Dirs == {"da", "dp"}
RunIds == <<"9", "10", "11", "12", "13">>
SRank == ("9" :> 9) @@ ("10" :> 1) @@ ("11" :> 2) @@ ("12" :> 3) @@ ("13" :> 4)

H(x) == hist' = IF Record THEN Append(hist, x) ELSE hist
Cnt(k) == IF k \in DOMAIN cnt THEN cnt[k] ELSE 0
Key(o) == CASE o.k = "cdel" -> "delete:cert-revocations" [] o.k = "ccreate" -> "create:cert-revocations" [] o.k = "cattach" -> "attach:cert-revocations"
            [] o.k = "review" -> "patch_collection:" \o o.c [] o.k = "idel" -> "delete:intermediates" [] o.k = "icreate" -> "create:intermediates" [] o.k = "iattach" -> "attach:intermediates"
            [] o.k = "ldel" -> "delete:ct-logs" [] o.k = "lcreate" -> "create:ct-logs" [] o.k = "lupdate" -> "update:ct-logs" [] OTHER -> "none"

(* ------------------------------------------------------------ world parts *)
LocSets == {<<"d1">>, <<"d1", "d2">>, <<"d2", "d3">>}
UpSets == {{"L1"}, {"L1", "L2"}}
Up(l, mmd) == [log |-> l, state |-> "usable", tiled |-> "no", desc |-> l, key |-> "k", url |-> "u", mmd |-> mmd, op |-> "o"]
LRec(l, mmd, enr) == [log |-> l, desc |-> l, key |-> "k", url |-> "u", mmd |-> mmd, adm |-> "yes", op |-> "o", tiled |-> "no", enr |-> enr]
IRec(d) == [der |-> d, claim |-> d, gone |-> FALSE]
CRec(ch, kind, parent, run, art, ts, eff) == [ch |-> ch, kind |-> kind, parent |-> parent, run |-> run, art |-> art, ts |-> ts, eff |-> eff, fx |-> TRUE, named |-> TRUE]

(* ------------------------------------------------------------- decisions *)
NameLess(x, y) == x.ts < y.ts \/ (x.ts = y.ts /\ x.kind = "delta" /\ y.kind # "delta")
Sorted(recs, S) == SetToSortSeq(S, LAMBDA i, j : NameLess(recs[i], recs[j]))
(* what the publisher itself verifies of the records of a channel *)
RECURSIVE Height(_, _, _, _)
Height(recs, S, i, n) == IF n > Cardinality(S) THEN 99 ELSE IF recs[i].kind # "delta" THEN n ELSE IF recs[i].parent \notin S THEN 99 ELSE Height(recs, S, recs[i].parent, n + 1)
RecsOk(recs, s) ==
  LET S == PRng(s) IN
  /\ \A i \in S : recs[i].kind \in {"full", "delta"} /\ recs[i].art # ""
  /\ Cardinality({i \in S : recs[i].kind = "full"}) = 1
  /\ \A i \in S : Height(recs, S, i, 0) # 99
  /\ \E i \in S : Height(recs, S, i, 0) = Len(s) - 1
  /\ OldTimes \/ \A n \in 2 .. Len(s) : recs[s[n]].parent = s[n - 1] /\ recs[s[n - 1]].ts < recs[s[n]].ts
Decide(b, recs, c) ==
  LET s == Sorted(recs, Of(recs, c))
      full == [clear |-> TRUE, up |-> <<Len(b.runs)>>]
      l == recs[s[Len(s)]]
      old == {n \in DOMAIN b.runs : n <= Pos(b, l.run)}
      new == [n \in 1 .. (Len(b.runs) - Pos(b, l.run)) |-> Pos(b, l.run) + n]
      fine(n) == b.runs[n].done /\ Has(b.runs[n].full, Channels[c].dir) /\ Has(b.runs[n].delta, Channels[c].dir) /\ b.runs[n].logs
      times == (IF OldTimes THEN << >> ELSE <<l.ts>>) \o [n \in DOMAIN new |-> b.runs[new[n]].ts]
      oldest == IF StrMin THEN CHOOSE i \in PRng(s) : \A j \in PRng(s) : SRank[recs[i].run] <= SRank[recs[j].run]
                ELSE CHOOSE i \in PRng(s) : \A j \in PRng(s) : Pos(b, recs[i].run) <= Pos(b, recs[j].run)
  IN IF s = << >> THEN full
     ELSE IF ~RecsOk(recs, s) THEN full
     ELSE IF \E i \in PRng(s) : Pos(b, recs[i].run) \notin old THEN full
     ELSE IF ~NoReady /\ \E n \in PRng(new) : ~fine(n) THEN full
     ELSE IF \E n \in 2 .. Len(times) : IF OldTimes THEN times[n - 1] > times[n] ELSE times[n - 1] >= times[n] THEN full
     ELSE IF Newest(b).ts - b.runs[Pos(b, recs[oldest].run)].ts >= Channels[c].age THEN full
     ELSE [clear |-> FALSE, up |-> IF NewestOnly /\ new # << >> THEN <<Len(b.runs)>> ELSE new]

Seq1(S) == SetToSeq(S)
DelOps(recs, S) == LET s == Seq1(S) IN [n \in DOMAIN s |-> [k |-> "cdel", i |-> s[n]]]
ClearSet(c) == {i \in (IF WideClear THEN DOMAIN precs ELSE Of(precs, c)) : ~LazyClear \/ precs[i].kind \in {"full", "delta"}}
ChanOps(c) ==
  LET b == Cur  d == Decide(b, precs, c)
      art(n, f) == b.runs[n].id \o "/" \o Channels[c].dir \o "/" \o f
      mk(n, kind) == CRec(c, kind, IF kind = "delta" THEN "PREV" ELSE "", b.runs[n].id, art(n, IF kind = "full" THEN "filter" ELSE "filter.delta"), b.runs[n].ts, b.runs[n].ts)
      pubn(n, kind) == <<[k |-> "ccreate", x |-> mk(n, kind)], [k |-> "cattach", x |-> mk(n, kind)]>>
  IN IF b.runs = << >> THEN << >>
     ELSE IF ~Newest(b).done THEN << >>
     ELSE IF d.up = << >> THEN << >>
     ELSE (IF d.clear THEN DelOps(precs, ClearSet(c)) \o pubn(d.up[1], "full") ELSE FlattenSeq([n \in DOMAIN d.up |-> pubn(d.up[n], "delta")]))
          \o <<[k |-> "review", c |-> "cert-revocations"]>>
PrevOf(c) == LET s == Sorted(precs, Of(precs, c)) IN IF s = << >> THEN "" ELSE s[Len(s)]
RetOps ==
  LET S == {i \in DOMAIN precs : ChOf(precs[i]) \in Retired} IN
  IF S = {} THEN << >> ELSE DelOps(precs, S) \o (IF NoRetReview THEN << >> ELSE <<[k |-> "review", c |-> "cert-revocations"]>>)
IntOps ==
  LET b == Cur  loc == PRng(b.loc)
      keep == {i \in DOMAIN irecs : irecs[i].der \in loc /\ \A j \in DOMAIN irecs : irecs[j].der = irecs[i].der => i = j}
      one == {i \in DOMAIN irecs : irecs[i].der \in loc /\ i = CHOOSE j \in DOMAIN irecs : irecs[j].der = irecs[i].der}
      del == Seq1(DOMAIN irecs \ (keep \cup one))
      add == Seq1(loc \ {irecs[i].der : i \in one})
  IN IF b.runs = << >> THEN << >>
     ELSE [n \in DOMAIN del |-> [k |-> "idel", i |-> del[n]]] \o FlattenSeq([n \in DOMAIN add |-> <<[k |-> "icreate", d |-> add[n]], [k |-> "iattach", d |-> add[n]]>>])
          \o <<[k |-> "verify", b |-> b]>>
LogOps ==
  LET ups == Ups
      new == Seq1({u \in ups : \A i \in DOMAIN lrecs : lrecs[i].log # u.log})
      gone == Seq1({i \in DOMAIN lrecs : lrecs[i].log \notin UpIds})
      chg == Seq1({i \in DOMAIN lrecs : \E u \in ups : u.log = lrecs[i].log /\ Meta(lrecs[i]) # Mirror(u)})
      rec(u, enr) == LRec(u.log, u.mmd, enr)
  IN [n \in DOMAIN new |-> [k |-> "lcreate", x |-> rec(new[n], "yes")]] \o [n \in DOMAIN gone |-> [k |-> "ldel", i |-> gone[n]]]
     \o [n \in DOMAIN chg |-> [k |-> "lupdate", i |-> chg[n], x |-> rec(CHOOSE u \in ups : u.log = lrecs[chg[n]].log, lrecs[chg[n]].enr)]]
     \o <<[k |-> "review", c |-> "ct-logs"]>>

(* --------------------------------------------------------------- the run *)
Idle == pc = "off"
Id == "n" \o ToString(nid)

Begin(noop) ==
  /\ Idle /\ pubs < MaxPubs
  /\ PubBegin(noop) /\ pc' = (IF noop THEN "fin" ELSE "logs") /\ todo' = (IF noop \/ "logs" \notin Parts THEN << >> ELSE LogOps)
  /\ left' = Order /\ prevId' = "" /\ madeId' = "" /\ cnt' = << >> /\ hit' = FALSE /\ lfl' = FALSE /\ pubs' = pubs + 1
  /\ H([op |-> "pub", noop |-> noop]) /\ UNCHANGED <<nid, tampers, fails>>

Stay == UNCHANGED <<pubVars, madeId, nid, cnt, hit, lfl, pubs, tampers, fails, hist>>
Advance ==
  /\ todo = << >> /\ Stay
  /\ \/ /\ pc \in {"logs", "chan"}
        /\ IF left # << >> THEN pc' = "chan" /\ todo' = ChanOps(Head(left)) /\ prevId' = PrevOf(Head(left)) /\ left' = Tail(left)
           ELSE pc' = "ret" /\ todo' = RetOps /\ prevId' = "" /\ left' = left
     \/ pc = "ret" /\ pc' = "ints" /\ todo' = (IF "ints" \in Parts THEN IntOps ELSE << >>) /\ UNCHANGED <<left, prevId>>
     \/ pc = "ints" /\ pc' = "fin" /\ UNCHANGED <<left, prevId, todo>>

Over(code, killed, h) == PubEnd(code, killed, lfl, ~h) /\ pc' = "off" /\ todo' = << >> /\ UNCHANGED <<left, prevId, madeId, nid, cnt, lfl, pubs, tampers>>
End == pc = "fin" /\ todo = << >> /\ Over(0, FALSE, hit) /\ UNCHANGED <<hit, fails, hist>>

(* the effect of a request *)
Eff(o) ==
  CASE o.k = "cdel" -> (IF o.i \in DOMAIN precs THEN CDel(o.i, "pub") ELSE UNCHANGED pubVars) /\ UNCHANGED <<prevId, madeId, nid>>
    [] o.k = "ccreate" -> CPut(Id, [o.x EXCEPT !.parent = IF @ = "PREV" THEN prevId ELSE @, !.run = "", !.art = ""], TRUE, "pub") /\ nid' = nid + 1 /\ madeId' = Id /\ UNCHANGED prevId
    [] o.k = "cattach" -> CPut(madeId, [o.x EXCEPT !.parent = IF @ = "PREV" THEN prevId ELSE @], FALSE, "pub") /\ prevId' = madeId /\ UNCHANGED <<madeId, nid>>
    [] o.k = "review" -> Review(o.c, "to-review", "pub") /\ UNCHANGED <<prevId, madeId, nid>>
    [] o.k = "idel" -> IDel(o.i, "pub") /\ UNCHANGED <<prevId, madeId, nid>>
    [] o.k = "icreate" -> IPut(Id, [der |-> "", claim |-> o.d, gone |-> FALSE], TRUE, "pub") /\ nid' = nid + 1 /\ madeId' = Id /\ UNCHANGED prevId
    [] o.k = "iattach" -> IPut(madeId, IRec(o.d), FALSE, "pub") /\ UNCHANGED <<prevId, madeId, nid>>
    [] o.k = "ldel" -> LDel(o.i, "pub") /\ UNCHANGED <<prevId, madeId, nid>>
    [] o.k = "lcreate" -> LPut(Id, o.x, TRUE, "pub") /\ nid' = nid + 1 /\ UNCHANGED <<prevId, madeId>>
    [] o.k = "lupdate" -> LPut(o.i, o.x, FALSE, "pub") /\ UNCHANGED <<prevId, madeId, nid>>
Tick(o) == cnt' = Put(cnt, Key(o), Cnt(Key(o)) + 1)
Do ==
  /\ todo # << >> /\ pon.on
  /\ LET o == Head(todo) IN
     /\ o.k \notin {"verify", "abort"} /\ Eff(o) /\ Tick(o) /\ todo' = Tail(todo)
  /\ UNCHANGED <<pc, left, hit, lfl, pubs, tampers, fails, hist>>
Abort == todo # << >> /\ Head(todo).k = "abort" /\ Over(1, FALSE, hit) /\ UNCHANGED <<hit, fails, hist>>
Verify ==
  /\ todo # << >> /\ Head(todo).k = "verify"
  /\ IF NoVerify \/ Same(Head(todo).b)
     THEN todo' = <<[k |-> "review", c |-> "intermediates"]>> /\ UNCHANGED <<pubVars, pc, left, prevId, madeId, nid, cnt, hit, lfl, pubs, tampers, fails, hist>>
     ELSE Over(1, FALSE, hit) /\ UNCHANGED <<hit, fails, hist>>
(* a request fails: what the publisher does about it *)
Kind(o) == IF o.k \in {"ldel", "lcreate", "lupdate", "idel", "icreate"} THEN "on" ELSE IF o.k = "iattach" THEN "undo" ELSE IF o.k = "cattach" THEN (IF KeepStray THEN "stop" ELSE "undoStop") ELSE "stop"
Rest(o) == CASE Kind(o) = "on" -> (IF o.k = "icreate" THEN Tail(Tail(todo)) ELSE Tail(todo))
             [] Kind(o) = "undo" -> <<[k |-> "idel", i |-> madeId]>> \o Tail(todo)
             [] Kind(o) = "undoStop" -> <<[k |-> "cdel", i |-> madeId], [k |-> "abort"]>>
             [] OTHER -> <<[k |-> "abort"]>>
Fail(after) ==
  /\ todo # << >> /\ pon.on /\ fails < MaxFail
  /\ LET o == Head(todo) IN
     /\ o.k \notin {"verify", "abort"}
     /\ IF after THEN Eff(o) ELSE UNCHANGED <<pubVars, prevId, madeId, nid>>
     /\ Tick(o) /\ todo' = Rest(o) /\ lfl' = (lfl \/ o.k \in {"ldel", "lcreate", "lupdate"})
     /\ H([op |-> "fault", on |-> Key(o), nth |-> Cnt(Key(o)) + 1, how |-> IF after THEN "after" ELSE "before"])
  /\ fails' = fails + 1 /\ hit' = TRUE /\ UNCHANGED <<pc, left, pubs, tampers>>
Die ==
  /\ todo # << >> /\ pon.on /\ fails < MaxFail
  /\ LET o == Head(todo) IN
     /\ o.k \notin {"verify", "abort"}
     /\ H([op |-> "fault", on |-> Key(o), nth |-> Cnt(Key(o)) + 1, how |-> "kill"])
  /\ fails' = fails + 1 /\ hit' = TRUE /\ Over(137, TRUE, TRUE)

(* ------------------------------------------------------------ the others *)
Env == UNCHANGED <<pc, todo, left, prevId, madeId, cnt, lfl, pubs, fails>>
LastTs == IF Cur.runs = << >> THEN 10 ELSE Newest(Cur).ts
MkRun(n, gap, done, delta) ==
  [id |-> RunIds[n], d |-> 1, n |-> n, done |-> done, ts |-> LastTs + gap, logs |-> TRUE, full |-> <<"da", "dp">>, delta |-> IF delta THEN <<"da", "dp">> ELSE <<"dp">>]
NewRun ==
  /\ (Idle \/ (Races /\ pon.on)) /\ Len(Cur.runs) < MaxRuns
  /\ \E gap \in Gaps, done \in {TRUE, FALSE}, delta \in {TRUE, FALSE}, loc \in (IF "ints" \in Parts THEN LocSets ELSE {<< >>}) :
     /\ done \/ delta
     /\ LET n == Len(Cur.runs) + 1 IN
        /\ BucketIs([Cur EXCEPT !.runs = Append(@, MkRun(n, gap, done, delta)), !.loc = loc, !.locok = TRUE, !.sane = TRUE])
        /\ H([op |-> "run", n |-> n, ts |-> LastTs + gap, done |-> done, delta |-> delta, loc |-> loc])
  /\ hit' = (hit \/ ~Idle) /\ UNCHANGED <<nid, tampers>> /\ Env
Completes ==
  /\ Idle \/ (Races /\ pon.on)
  /\ \E n \in DOMAIN Cur.runs : ~Cur.runs[n].done /\ BucketIs([Cur EXCEPT !.runs[n].done = TRUE]) /\ H([op |-> "done", n |-> n])
  /\ hit' = (hit \/ ~Idle) /\ UNCHANGED <<nid, tampers>> /\ Env
Tamper ==
  /\ Idle /\ tampers < MaxTamper /\ tampers' = tampers + 1 /\ UNCHANGED hit /\ Env
  /\ \/ \E i \in DOMAIN precs : CDel(i, "env") /\ UNCHANGED nid /\ H([op |-> "del", ch |-> ChOf(precs[i]), run |-> precs[i].run])
     \/ \E i, j \in DOMAIN precs : precs[i].kind = "delta" /\ precs[i].parent # j /\ CPut(i, [precs[i] EXCEPT !.parent = j], FALSE, "env") /\ UNCHANGED nid /\ H([op |-> "parent", ch |-> ChOf(precs[i]), run |-> precs[i].run, to |-> precs[j].run])
     \/ \E i \in DOMAIN precs : precs[i].kind # "bad" /\ CPut(i, [precs[i] EXCEPT !.kind = "bad"], FALSE, "env") /\ UNCHANGED nid /\ H([op |-> "bad", ch |-> ChOf(precs[i]), run |-> precs[i].run])
     \/ \E i \in DOMAIN precs : CPut(Id, precs[i], TRUE, "env") /\ nid' = nid + 1 /\ H([op |-> "copy", ch |-> ChOf(precs[i]), run |-> precs[i].run])
     \/ ChanCfg = "retired" /\ \E kd \in {"full", "delta", "bad"} : CPut(Id, CRec("old", kd, "x", "9", "9/da/filter", 10, 10), TRUE, "env") /\ nid' = nid + 1 /\ H([op |-> "old", kind |-> kd])
     \/ ChanCfg = "retired" /\ CPut(Id, CRec("foreign", "full", "", "9", "9/da/filter", 10, 10), TRUE, "env") /\ nid' = nid + 1 /\ H([op |-> "foreign"])
     \/ "ints" \in Parts /\ \E i \in DOMAIN irecs : IDel(i, "env") /\ UNCHANGED nid /\ H([op |-> "idel", d |-> irecs[i].claim])
     \/ "ints" \in Parts /\ \E d \in {"d1", "d3"} : IPut(Id, IRec(d), TRUE, "env") /\ nid' = nid + 1 /\ H([op |-> "irec", d |-> d])
     \/ "ints" \in Parts /\ \E i \in DOMAIN irecs : irecs[i].der # "" /\ IPut(i, [irecs[i] EXCEPT !.der = ""], FALSE, "env") /\ UNCHANGED nid /\ H([op |-> "ibad", d |-> irecs[i].claim])
     \/ "logs" \in Parts /\ \E i \in DOMAIN lrecs : lrecs[i].enr = "yes" /\ LPut(i, [lrecs[i] EXCEPT !.enr = "no"], FALSE, "env") /\ UNCHANGED nid /\ H([op |-> "lenr", n |-> lrecs[i].log])
     \/ "logs" \in Parts /\ \E S \in UpSets, m \in {1, 2} : UpstreamIs([logs |-> SetToSeq({Up(l, m) : l \in S}), ok |-> TRUE]) /\ UNCHANGED nid /\ H([op |-> "upstream", s |-> SetToSeq(S), mmd |-> m])

MCInit ==
  /\ PubInit /\ pc = "off" /\ todo = << >> /\ left = << >> /\ prevId = "" /\ madeId = "" /\ nid = 0 /\ cnt = << >> /\ hit = FALSE /\ lfl = FALSE /\ pubs = 0 /\ tampers = 0 /\ fails = 0 /\ hist = << >>
MCNext == (\E noop \in {FALSE} \cup (IF Record THEN {TRUE} ELSE {}) : Begin(noop)) \/ Advance \/ End \/ Do \/ Abort \/ Verify \/ Fail(FALSE) \/ Fail(TRUE) \/ Die \/ NewRun \/ Completes \/ Tamper
MCSpec == MCInit /\ [][MCNext]_mcVars

NoViolation == pviol = {}
Over1 == pubs = MaxPubs /\ pc = "off"
Script == Record /\ Over1 => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
