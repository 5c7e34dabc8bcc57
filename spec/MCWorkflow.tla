---------------------------- MODULE MCWorkflow ----------------------------
(***************************************************************************)
(* Design of a run of the workflow: allocate a name, make the filters of   *)
(* both reason sets (each delta against the newest uploaded revocations of *)
(* its own reason set), upload (perhaps the source materials first), mark. *)
(* A run may die or fail at any upload; the workspace may be lost or kept; *)
(* dates go on and back; revocations come, go and change their reason;     *)
(* an interrupted upload may be repeated.                                  *)
(*                                                                         *)
(* Switches turn wrong designs on: DateRestart (the number restarts at 0   *)
(* although the newest run is of a later date), BucketOnly (leftovers in   *)
(* the workspace are not considered), Reuse (an existing directory is      *)
(* taken), OneLatest (both reason sets use the revocations of the first),  *)
(* LatestFirst (the newest revocations are replaced before the run shows), *)
(* MarkEarly, GoOn (failed uploads are ignored), StrOrder.                 *)
(***************************************************************************)
EXTENDS Workflow, Json, SequencesExt

CONSTANTS MaxRuns, MaxFail, MaxDay, MaxAgain, Ser, Record, DateRestart, BucketOnly, Reuse, OneLatest, LatestFirst, MarkEarly, GoOn, StrOrder

VARIABLES day, revd, last, loc, cur, todo, runs, fails, again, dies, hist
mcVars == <<wfVars, day, revd, last, loc, cur, todo, runs, fails, again, dies, hist>>

Dir(c) == IF c = "all" THEN "clubcard-all" ELSE "clubcard-priority"
RS == {"all", "priority"}
Reasons == {"no", "low", "high"}
Revoked(c) == {k \in Ser : revd[k] = "high" \/ (c = "all" /\ revd[k] = "low")}
Tok(S) == ToString(S)
NameOf(d, n) == "day" \o ToString(d) \o "-" \o ToString(n)
H(x) == hist' = IF Record THEN Append(hist, x) ELSE hist
KeySeq(S) == SetToSeq(S)

MaxRun == CHOOSE q \in DOMAIN wids : \A p \in DOMAIN wids : ~Before(wids[q], wids[p])
StrMax == CHOOSE q \in DOMAIN wids : \A p \in DOMAIN wids : wids[p].d <= wids[q].d /\ (wids[p].d = wids[q].d => (wids[p].n % 10) <= (wids[q].n % 10))  \* "10" sorts before "9"
LocNums(d) == {loc[r].n : r \in {q \in wdirs \cap DOMAIN loc : loc[q].d = d}}
Next1(n, S) == CHOOSE m \in n .. (n + Cardinality(S)) : m \notin S /\ \A k \in n .. (m - 1) : k \in S
Pick ==
  LET base == IF DOMAIN wids = {} THEN [d |-> day, n |-> 0]
              ELSE LET q == wids[IF StrOrder THEN StrMax ELSE MaxRun] IN
                   IF q.d = day \/ (q.d > day /\ ~DateRestart) THEN [d |-> q.d, n |-> q.n + 1] ELSE [d |-> day, n |-> 0]
  IN IF BucketOnly \/ Reuse THEN base ELSE [base EXCEPT !.n = Next1(base.n, LocNums(base.d))]

Up(name, run, d, n, path, kind, dir, S) == [name |-> name, tok |-> IF kind = "done" THEN "m" ELSE Tok(S), run |-> run, d |-> d, n |-> n, path |-> path, kind |-> kind, dir |-> dir, keys |-> KeySeq(S)]
RunObj(x, path, kind, dir, S) == Up(x.id \o "/" \o path, x.id, x.d, x.n, path, kind, dir, S)
DirOps(x, c) == <<RunObj(x, Dir(c) \o "/filter", "full", Dir(c), x.full[c]), RunObj(x, Dir(c) \o "/filter.delta", "delta", Dir(c), x.delta[c])>>
LatOps(x, c) == <<Up("latest/" \o c, "", 0 - 1, 0 - 1, c, "other", "", x.full[c])>>
Mark(x) == <<RunObj(x, "completed", "done", "", {})>>
UpOps(x) ==
  (IF LatestFirst THEN LatOps(x, "all") \o LatOps(x, "priority") ELSE << >>)
  \o DirOps(x, "all") \o (IF LatestFirst THEN << >> ELSE LatOps(x, "all"))
  \o (IF MarkEarly THEN Mark(x) ELSE << >>)
  \o DirOps(x, "priority") \o (IF LatestFirst \/ OneLatest THEN << >> ELSE LatOps(x, "priority"))
  \o (IF MarkEarly THEN << >> ELSE Mark(x))
Files(x) == [p \in {Dir(c) \o f : c \in RS, f \in {"/filter", "/filter.delta"}} |->
               LET c == CHOOSE d \in RS : \E f \in {"/filter", "/filter.delta"} : p = Dir(d) \o f IN IF p = Dir(c) \o "/filter" THEN Tok(x.full[c]) ELSE Tok(x.delta[c])]
Base(c) == IF OneLatest THEN last["all"] ELSE last[c]
Idle == todo = << >> /\ cur = ""

Env == UNCHANGED <<last, loc, cur, todo, runs, fails, again, dies>>
DayIs == Idle /\ \E d \in 0 .. MaxDay : d # day /\ day' = d /\ H([op |-> "day", d |-> d]) /\ UNCHANGED <<wfVars, revd>> /\ Env
Revs == Idle /\ \E k \in Ser, r \in Reasons : revd[k] # r /\ revd' = [revd EXCEPT ![k] = r] /\ H([op |-> "rev", k |-> k, r |-> r]) /\ UNCHANGED <<wfVars, day>> /\ Env
Loss == Idle /\ wdirs # {} /\ Wiped /\ loc' = << >> /\ H([op |-> "wipe"]) /\ UNCHANGED <<day, revd, last, cur, todo, runs, fails, again, dies>>

(* allocation; the generators follow at once; dying right after is possible *)
Start ==
  /\ Idle /\ runs < MaxRuns /\ runs' = runs + 1
  /\ LET a == Pick  nm == NameOf(a.d, a.n)  there == nm \in wdirs
         x == [id |-> nm, d |-> a.d, n |-> a.n, full |-> [c \in RS |-> Revoked(c)], delta |-> [c \in RS |-> Revoked(c) \ Base(c)]]
     IN IF there /\ ~Reuse
        THEN Alloc(1, FALSE, TRUE, "", 0, 0, FALSE, FALSE, {}) /\ H([op |-> "gen"]) /\ UNCHANGED <<loc, cur, todo, fails, dies>>
        ELSE /\ Alloc(0, FALSE, TRUE, nm, a.d, a.n, ~there, TRUE, {nm}) /\ loc' = WPut(loc, nm, x)
             /\ \/ cur' = nm /\ todo' = <<[k |-> "begin"]>> \o [n \in DOMAIN UpOps(x) |-> [k |-> "put", x |-> UpOps(x)[n]]] /\ UNCHANGED <<fails, dies>> /\ H([op |-> "gen"])
                \/ fails < MaxFail /\ fails' = fails + 1 /\ dies' = TRUE /\ UNCHANGED <<cur, todo>> /\ H([op |-> "genfail"])
  /\ UNCHANGED <<day, revd, last, again>>
Again ==
  /\ Idle /\ again < MaxAgain /\ again' = again + 1
  /\ \E r \in wdirs \cap DOMAIN loc :
       /\ r \notin wdone /\ r \in DOMAIN wids /\ r = MaxRun
       /\ cur' = r /\ todo' = <<[k |-> "begin"]>> \o [n \in DOMAIN UpOps(loc[r]) |-> [k |-> "put", x |-> UpOps(loc[r])[n]]]
       /\ Disturbed /\ H([op |-> "again", n |-> loc[r].n, d |-> loc[r].d])
  /\ UNCHANGED <<day, revd, last, loc, runs, fails, dies>>
Stay == UNCHANGED <<day, revd, loc, runs, again>>
Step ==
  /\ todo # << >>
  /\ IF Head(todo).k = "begin" THEN UpBegin(cur, FALSE) /\ todo' = Tail(todo) /\ UNCHANGED <<last, cur, fails, dies, hist>>
     ELSE LET x == Head(todo).x IN
          IF x.kind = "done" /\ wloc # Files(loc[cur]) THEN Local(Files(loc[cur])) /\ UNCHANGED <<todo, last, cur, fails, dies, hist>>
          ELSE \/ /\ Object(x, "pub") /\ todo' = Tail(todo) /\ UNCHANGED <<cur, fails, dies, hist>>
                  /\ last' = IF x.run = "" THEN [last EXCEPT ![x.path] = loc[cur].full[x.path]] ELSE last
               \/ /\ fails < MaxFail /\ fails' = fails + 1 /\ dies' = ~GoOn /\ UNCHANGED last
                  /\ IF GoOn THEN todo' = Tail(todo) /\ cur' = cur /\ Disturbed ELSE todo' = << >> /\ cur' = "" /\ UpEnd(1, FALSE, FALSE, TRUE, FALSE)
                  /\ H([op |-> "fail", name |-> x.name])
  /\ Stay
End == todo = << >> /\ cur # "" /\ UpEnd(0, FALSE, TRUE, TRUE, FALSE) /\ cur' = "" /\ UNCHANGED <<last, todo, fails, dies, hist>> /\ Stay

MCInit == WfInit /\ day = 0 /\ revd = [k \in Ser |-> "no"] /\ last = [c \in RS |-> {}] /\ loc = << >> /\ cur = "" /\ todo = << >> /\ runs = 0 /\ fails = 0 /\ again = 0 /\ dies = FALSE /\ hist = << >>
MCNext == DayIs \/ Revs \/ Loss \/ Start \/ Again \/ Step \/ End
MCSpec == MCInit /\ [][MCNext]_mcVars
View == <<wfVars, day, revd, last, loc, cur, todo, runs, fails, again>>

NoViolation == wviol = {}
Over == runs = MaxRuns /\ Idle /\ hist[Len(hist)].op \in {"gen", "fail", "genfail"}
Script == Record /\ Over => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
