------------------------------ MODULE MCFetch ------------------------------
(***************************************************************************)
(* Design of the fetcher, composed from the effects of Fetch.tla: passes   *)
(* over one log.  The worker picks a job from the saved position and the   *)
(* log's head (Init, Update, Backfill, or claiming the head of an idle     *)
(* log), splits it along the terms of a consistency proof (RFC 6962) or    *)
(* along tiles, downloads page by page and queues entries and positions    *)
(* for the writer, which stores a batch before it saves a position.        *)
(* Around it: the log grows, lies, the writer's cache fails, the process   *)
(* is stopped or killed, entries are moved to storage and the cache lost.  *)
(*                                                                         *)
(* Defects that were found in the code can be switched back on (OldX).     *)
(***************************************************************************)
EXTENDS Fetch, Json, SequencesExt, FiniteSetsExt

CONSTANTS Tiled, Batch, Width, GrowSteps, Unst, Lies,
          MaxRuns, MaxKill, MaxTerm, MaxFault, MaxLie, MaxLoss,
          OldBackfill, OldClaim, OldStart, SaveFirst, NoVerify,
          Record, Depth

VARIABLES pc,     \* worker: off, sth, proof, ents, done
          w,      \* the worker's job
          q,      \* queue to the writer
          wq,     \* entries the writer holds
          wst,    \* position the writer is about to save (<<>> or <<r>>)
          lie,    \* current lie: [kind, i]
          snap,   \* position published by the last commit
          term, bud, runs, hist
mcVars == <<fetchVars, pc, w, q, wq, wst, lie, snap, term, bud, runs, hist>>

A == "A"
H(x) == hist' = IF Record THEN Append(hist, x) ELSE hist
Honest == [kind |-> "none", i |-> -1]
NoW == [st |-> NoRec, n |-> 0, job |-> "none", plan |-> << >>, idx |-> 0, got |-> << >>, lo |-> 0, hi |-> 0, first |-> 0, last |-> 0, again |-> FALSE]
TsOf(i) == 10 + i + (IF i % 3 = 1 THEN -2 ELSE 0)
HeadTs(n) == 12 + n

MCInit ==
  /\ FetchInit([l \in {A} |-> [kind |-> IF Tiled THEN "tiled" ELSE "rfc", must |-> TRUE, may |-> TRUE]])
  /\ pc = "off" /\ w = NoW /\ q = << >> /\ wq = {} /\ wst = << >> /\ lie = Honest /\ snap = NoRec /\ term = FALSE
  /\ bud = [kill |-> MaxKill, term |-> MaxTerm, fault |-> MaxFault, lie |-> MaxLie, loss |-> MaxLoss, grow |-> Len(GrowSteps)] /\ runs = MaxRuns /\ hist = << >>

\* ------------------------------------------------------------- environment
GrowIt ==
  /\ bud.grow > 0
  /\ LET n == GrowSteps[Len(GrowSteps) - bud.grow + 1] IN
       /\ Grow(A, [k \in 1 .. n |-> TsOf(size[A] + k - 1)], {k \in 1 .. n : size[A] + k - 1 \in Unst})
       /\ H([op |-> "grow", n |-> n])
  /\ bud' = [bud EXCEPT !.grow = @ - 1]
  /\ UNCHANGED <<pc, w, q, wq, wst, lie, snap, term, runs>>

\* A lie starts between two steps of the worker, or ends.
LieIt ==
  /\ \/ /\ lie = Honest /\ bud.lie > 0 /\ size[A] > 0
        /\ \E k \in Lies, i \in 0 .. size[A] - 1 : lie' = [kind |-> k, i |-> i] /\ Variant(A, 100000 + i, TsOf(i) + 1, FALSE)
        /\ bud' = [bud EXCEPT !.lie = @ - 1]
     \/ /\ lie # Honest /\ lie' = Honest /\ UNCHANGED bud /\ fviol' = {} /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, heads, run, rewind>>
  /\ H([op |-> "lie", kind |-> lie'.kind, i |-> lie'.i])
  /\ UNCHANGED <<pc, w, q, wq, wst, snap, term, runs>>

\* what the log presents at index i: entry, and leaf its trees commit to
Serves(i) == IF lie.i = i /\ lie.kind \in {"alter", "fork"} THEN 100000 + i ELSE i
Commits == IF lie.kind = "fork" THEN {[i |-> lie.i, x |-> 100000 + lie.i]} ELSE {}

\* ------------------------------------------------------------------ worker
Start ==
  /\ ~run.on /\ runs # 0
  /\ BeginRun("fetch", TRUE)
  /\ pc' = "contact" /\ w' = [NoW EXCEPT !.st = rec[A]] /\ q' = << >> /\ wq' = {} /\ wst' = << >> /\ term' = FALSE
  /\ runs' = (IF runs < 99 THEN runs - 1 ELSE runs) /\ H([op |-> "begin"])
  /\ UNCHANGED <<lie, snap, bud>>

\* After the cache was lost, the first thing a run does is to restore the published position.
Restore ==
  /\ pc = "contact" /\ rewind
  /\ IF snap.has THEN Save(A, snap, TRUE) /\ w' = [w EXCEPT !.st = snap]
     ELSE ContactLog(A) /\ UNCHANGED w
  /\ pc' = IF snap.has THEN "contact2" ELSE "sth"
  /\ UNCHANGED <<q, wq, wst, lie, snap, term, bud, runs, hist>>

Contact ==
  /\ pc = "contact2" \/ (pc = "contact" /\ ~rewind)
  /\ ContactLog(A) /\ pc' = "sth"
  /\ UNCHANGED <<w, q, wq, wst, lie, snap, term, bud, runs, hist>>

Read(st) == IF st.has THEN st.max + 1 ELSE IF OldStart THEN 1 ELSE 0
RfcJob(st, n, recent) ==
  IF n <= 3 THEN "sleep"
  ELSE IF ~st.has THEN "init"
  ELSE IF st.max + Batch < n THEN "update"
  ELSE IF st.min > 0 THEN "backfill"
  ELSE IF recent THEN "sleep"
  ELSE IF st.max < n - 1 THEN "update" ELSE "sleep"
TiledJob(st, n, recent) ==
  IF Read(st) + Batch <= n THEN "update"
  ELSE IF recent /\ st.has THEN "sleep"
  ELSE IF Read(st) < n THEN "force" ELSE "sleep"

Range1(job, st, n) ==
  CASE job = "init"     -> IF n < Batch THEN <<0, n - 1>> ELSE <<n - Batch, n - 1>>
    [] job = "update"   -> <<st.max + 1, IF st.max + Batch > n - 1 THEN n - 1 ELSE st.max + Batch>>
    [] job = "backfill" -> <<IF st.min % Batch # 0 THEN st.min - (st.min % Batch) ELSE st.min - Batch, st.min - 1>>

GetHead ==
  /\ pc = "sth" /\ ~term
  /\ \E n \in {size[A]}, recent \in BOOLEAN :
       /\ TreeHead(A, n, HeadTs(n), TRUE, Commits)
       /\ LET st == w.st
              job == IF Tiled THEN TiledJob(st, n, recent) ELSE RfcJob(st, n, recent)
              r == IF ~Tiled /\ job # "sleep" THEN Range1(job, st, n) ELSE IF Tiled THEN <<Read(st), n - 1>> ELSE <<0, 0>>
              claim == job = "sleep" /\ (IF Tiled THEN st.max + 1 = n ELSE st.max = n - 1) /\ (OldClaim \/ st.has)
          IN /\ (recent => st.has)
             /\ IF job # "sleep"
                THEN /\ w' = [w EXCEPT !.n = n, !.job = job, !.first = r[1], !.last = r[2], !.idx = r[1], !.again = job = "force",
                                        !.st.max = IF Tiled /\ ~st.has THEN 0 ELSE @]
                     /\ pc' = (IF Tiled THEN "tiles" ELSE "proof") /\ UNCHANGED q
                ELSE /\ UNCHANGED w /\ pc' = "done"
                     /\ q' = IF claim THEN Append(q, [st |-> <<[has |-> TRUE, min |-> st.min, max |-> st.max,
                              mints |-> st.mints, maxts |-> IF HeadTs(n) > st.maxts THEN HeadTs(n) ELSE st.maxts]>>, x |-> -1]) ELSE q
  /\ H([op |-> "http"])
  /\ UNCHANGED <<wq, wst, lie, snap, term, bud, runs>>

Pow2 == {1, 2, 4, 8, 16, 32}
Below(s) == CHOOSE p \in Pow2 : p < s /\ 2 * p >= s
RECURSIVE Descend(_, _, _, _)
Descend(lo, hi, t, old) ==
  IF lo = hi \/ hi = t THEN (IF old \in Pow2 THEN {} ELSE {<<lo, hi>>})
  ELSE LET m == lo + Below(hi - lo + 1) IN
       IF t < m THEN {<<m, hi>>} \cup Descend(lo, m - 1, t, old) ELSE {<<lo, m - 1>>} \cup Descend(m, hi, t, old)
TermsOf(old, new) == Descend(0, new - 1, old - 1, old)

GetProof ==
  /\ pc = "proof" /\ ~term
  /\ LET old == IF w.first = 0 THEN 3 ELSE w.first
         new == IF w.first = 0 /\ w.last < 3 /\ ~OldBackfill THEN 4 ELSE w.last + 1
         ok  == new > old
         tt  == IF ok THEN TermsOf(old, new) ELSE {}
         use == {t \in tt : w.first <= t[1] /\ (IF w.job = "backfill" /\ ~OldBackfill THEN t[1] <= w.last ELSE t[2] <= w.last)}
         plan == IF w.job = "backfill" THEN SetToSortSeq(use, LAMBDA a, b : a[2] > b[2]) ELSE SetToSortSeq(use, LAMBDA a, b : a[1] < b[1])
     IN /\ Proof(A, {[f |-> t[1], l |-> t[2], alt |-> {a \in Commits : t[1] <= a.i /\ a.i <= t[2]}] : t \in tt})
        /\ IF ok /\ plan # << >> /\ lie.kind # "proofbad"
           THEN w' = [w EXCEPT !.plan = plan, !.idx = plan[1][1], !.got = << >>, !.lo = 0, !.hi = 0] /\ pc' = "ents"
           ELSE UNCHANGED w /\ pc' = "done"
  /\ H([op |-> "http"])
  /\ UNCHANGED <<q, wq, wst, lie, snap, term, bud, runs>>

Item(x) == [st |-> << >>, x |-> x]
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
NewPos(st, t, lo, hi) ==
  [has |-> TRUE, min |-> IF ~st.has \/ t[1] < st.min THEN t[1] ELSE st.min, max |-> IF ~st.has \/ t[2] > st.max THEN t[2] ELSE st.max,
   mints |-> IF ~st.has \/ lo < st.mints THEN lo ELSE st.mints, maxts |-> IF ~st.has \/ hi > st.maxts THEN hi ELSE st.maxts]
Adjacent(st, t) == ~st.has \/ (w.job = "backfill" /\ (IF OldBackfill THEN st.min = t[2] + 1 ELSE t[1] < st.min /\ st.min <= t[2] + 1)) \/ (w.job # "backfill" /\ st.max = t[1] - 1)

\* One get-entries request: the log answers with one entry or with all that were asked for.
GetEntries ==
  /\ pc = "ents" /\ ~term
  /\ LET t == w.plan[1] IN
     \E last \in {w.idx, t[2]} :
       LET ids == [k \in 1 .. last - w.idx + 1 |-> Serves(w.idx + k - 1)]
           got == w.got \o ids
           vals == {ts[A][got[k]] : k \in DOMAIN got}
           good == NoVerify \/ \E u \in run.terms[A] : u.f = t[1] /\ u.l = t[2] /\ \A k \in DOMAIN got : got[k] = AltOf(u.alt, t[1] + k - 1)
           items == [k \in 1 .. Len(ids) |-> Item(ids[k])]
           np == NewPos(w.st, t, Least(vals), SetMax(vals))
       IN /\ lie.kind # "empty"
          /\ Entries(A, w.idx, ids)
          /\ IF last < t[2]
             THEN q' = q \o items /\ w' = [w EXCEPT !.idx = last + 1, !.got = got] /\ UNCHANGED pc
             ELSE IF ~good \/ ~Adjacent(w.st, t) THEN q' = q \o items /\ pc' = "done" /\ UNCHANGED w
             ELSE /\ q' = q \o items \o <<[st |-> <<np>>, x |-> -1]>>
                  /\ IF Len(w.plan) > 1
                     THEN w' = [w EXCEPT !.st = np, !.plan = Tail(@), !.idx = w.plan[2][1], !.got = << >>] /\ UNCHANGED pc
                     ELSE w' = [w EXCEPT !.st = np] /\ pc' = "done"
  /\ H([op |-> "http"])
  /\ UNCHANGED <<wq, wst, lie, snap, term, bud, runs>>

\* One tile: every entry is checked against the signed head of this pass.
FullTiles == (w.n \div Width) * Width
GetTile ==
  /\ pc = "tiles" /\ ~term
  /\ LET start == w.idx
         end == IF start < FullTiles THEN ((start \div Width) + 1) * Width - 1 ELSE w.n - 1
         ids == [k \in 1 .. end - start + 1 |-> Serves(start + k - 1)]
         head == CHOOSE h \in run.heads[A] : h.n = w.n
         good == \A k \in DOMAIN ids : NoVerify \/ ids[k] = AltOf(head.alt, start + k - 1)
         vals == {ts[A][ids[k]] : k \in DOMAIN ids}
         RECURSIVE Step(_, _)
         Step(k, acc) == IF k > Len(ids) THEN acc ELSE
           LET i == start + k - 1
               v == ts[A][ids[k]]
               st == [has |-> TRUE, min |-> 0, max |-> i, mints |-> IF acc.st.has /\ acc.st.mints < v THEN acc.st.mints ELSE (IF acc.st.has THEN v ELSE 0), maxts |-> IF acc.st.maxts > v THEN acc.st.maxts ELSE v]
           IN Step(k + 1, [st |-> st, q |-> acc.q \o <<Item(ids[k])>> \o (IF i % Batch = 0 THEN <<[st |-> <<st>>, x |-> -1]>> ELSE << >>)])
         res == Step(1, [st |-> w.st, q |-> q])
         endOfPass == end + 1 >= FullTiles
     IN IF start > w.n - 1 \/ ~good
        THEN \* nothing to read, or an error: the pass ends and saves what it has
             /\ pc' = "done" /\ UNCHANGED w
             /\ q' = IF w.st.has THEN Append(q, [st |-> <<w.st>>, x |-> -1]) ELSE IF OldStart THEN Append(q, [st |-> <<[NoRec EXCEPT !.has = TRUE]>>, x |-> -1]) ELSE q
             /\ (IF good THEN fviol' = {} /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, heads, run, rewind>> ELSE Entries(A, start, ids))
        ELSE /\ Entries(A, start, ids)
             /\ q' = IF endOfPass \/ start >= FullTiles THEN Append(res.q, [st |-> <<res.st>>, x |-> -1]) ELSE res.q
             /\ LET more == end < FullTiles - 1 \/ (w.again /\ end < w.n - 1)
                IN /\ w' = [w EXCEPT !.st = res.st, !.idx = end + 1]
                   /\ pc' = IF more THEN "tiles" ELSE "done"
  /\ H([op |-> "http"])
  /\ UNCHANGED <<wq, wst, lie, snap, term, bud, runs>>

\* A request fails or the log answers nonsense: the pass ends.
Give ==
  /\ pc \in {"sth", "proof", "ents", "tiles"} /\ (term \/ lie.kind \in {"down", "empty"})
  /\ pc' = "done" /\ fviol' = {}
  /\ q' = IF Tiled /\ pc = "tiles" /\ ~term /\ w.st.has THEN Append(q, [st |-> <<w.st>>, x |-> -1]) ELSE q
  /\ H([op |-> "give"])
  /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, heads, run, rewind, w, wq, wst, lie, snap, term, bud, runs>>

\* ------------------------------------------------------------------ writer
Idle == run.on /\ wst = << >>
Take ==
  /\ Idle /\ q # << >>
  /\ LET it == Head(q)
         nq == IF it.x >= 0 /\ it.x \notin unst[A] THEN wq \cup {it.x} ELSE wq
         full == Cardinality(nq) + 1 >= Batch \/ it.st # << >>
     IN /\ q' = Tail(q)
        /\ IF ~full THEN wq' = nq /\ fviol' = {} /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, heads, run, rewind, wst>>
           ELSE IF SaveFirst /\ it.st # << >> THEN wq' = nq /\ Save(A, it.st[1], TRUE) /\ wst' = << >>
           ELSE /\ StoreEntries(A, nq) /\ wq' = {} /\ wst' = it.st
        /\ H([op |-> IF full THEN "flush" ELSE "take"])
  /\ UNCHANGED <<pc, w, lie, snap, term, bud, runs>>

SavePos ==
  /\ run.on /\ wst # << >>
  /\ Save(A, wst[1], TRUE) /\ wst' = << >>
  /\ H([op |-> "save"])
  /\ UNCHANGED <<pc, w, q, wq, lie, snap, term, bud, runs>>

\* The cache refuses while the process is being stopped: the writer gives up.
WriterQuits ==
  /\ run.on /\ term /\ bud.fault > 0 /\ (q # << >> \/ wst # << >>)
  /\ q' = << >> /\ wq' = {} /\ wst' = << >> /\ pc' = "done"
  /\ bud' = [bud EXCEPT !.fault = @ - 1] /\ fviol' = {}
  /\ H([op |-> "quit"])
  /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, heads, run, rewind, w, lie, snap, term, runs>>

End ==
  /\ run.on /\ pc = "done" /\ q = << >> /\ wst = << >>
  /\ IF wq # {} THEN \* the queue is closed with entries pending: they belong to no saved position
          EndRun(0, FALSE, term, FALSE, FALSE, FALSE, FALSE, {A}, TRUE)
     ELSE EndRun(0, FALSE, term, FALSE, FALSE, FALSE, FALSE, IF bud.lie < MaxLie THEN {A} ELSE {}, TRUE)
  /\ pc' = "off" /\ w' = NoW /\ wq' = {} /\ term' = FALSE /\ H([op |-> "end"])
  /\ UNCHANGED <<q, wst, lie, snap, bud, runs>>

Kill ==
  /\ run.on /\ bud.kill > 0
  /\ EndRun(-9, TRUE, FALSE, FALSE, FALSE, FALSE, FALSE, {}, TRUE)
  /\ pc' = "off" /\ w' = NoW /\ q' = << >> /\ wq' = {} /\ wst' = << >> /\ term' = FALSE
  /\ bud' = [bud EXCEPT !.kill = @ - 1] /\ H([op |-> "kill"])
  /\ UNCHANGED <<lie, snap, runs>>

Term ==
  /\ run.on /\ ~term /\ bud.term > 0
  /\ term' = TRUE /\ bud' = [bud EXCEPT !.term = @ - 1] /\ fviol' = {} /\ H([op |-> "term"])
  /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, heads, run, rewind, pc, w, q, wq, wst, lie, snap, runs>>

\* ------------------------------------------------- commit, and loss of the cache
\* (all stored entries of a position are below its cut-off: the window of KF-S02 is Store.tla's business)
Commit ==
  /\ ~run.on /\ bud.loss > 0 /\ rec[A].has /\ ~rewind /\ snap # rec[A]
  /\ Moved(A, stored[A]) /\ snap' = rec[A] /\ H([op |-> "commit"])
  /\ UNCHANGED <<pc, w, q, wq, wst, lie, term, bud, runs>>

Lose ==
  /\ ~run.on /\ bud.loss > 0 /\ snap.has
  /\ LoseCache /\ bud' = [bud EXCEPT !.loss = @ - 1] /\ H([op |-> "lose"])
  /\ UNCHANGED <<pc, w, q, wq, wst, lie, snap, term, runs>>

Progress == Start \/ Restore \/ Contact \/ GetHead \/ GetProof \/ GetEntries \/ GetTile \/ Give \/ Take \/ SavePos \/ End
Next == Progress \/ GrowIt \/ LieIt \/ WriterQuits \/ Kill \/ Term \/ Commit \/ Lose
Spec == MCInit /\ [][Next]_mcVars
\* a pass is started again and again, and finds the last update to be old enough infinitely often
FreshHead == GetHead /\ (w.st.has => LET n == size[A] IN pc' # "done" \/ w.st.max >= n - 1 \/ n <= 3)
LiveSpec == Spec /\ WF_mcVars(Progress) /\ SF_mcVars(FreshHead) /\ WF_mcVars(lie # Honest /\ LieIt)

Broken(p) == \E v \in fviol : v[1] = p
A01ok == ~Broken("A01")
A02ok == ~Broken("A02")
A03ok == ~Broken("A03")
A05ok == ~Broken("A05")
A06ok == ~Broken("A06")
A07ok == ~Broken("A07")
S10ok == ~Broken("S10")
\* A04, A08: everything is ingested in the end
Stuck == Enough(A) => Complete(A) \/ (rec[A].has /\ \E i \in 0 .. size[A] - 1 : \E x \in Get(srv[A], i) : x >= 100000)
Live == <>[]Stuck
Emit == (TLCGet("level") >= Depth /\ Record) => PrintT("SCRIPT " \o ToJson(hist))
View == <<fetchVars, pc, w, q, wq, wst, lie, snap, term, bud, runs>>
=============================================================================
