------------------------------- MODULE Fetch -------------------------------
(***************************************************************************)
(* Ingestion: CT logs, what they served, the cache's entries and the saved *)
(* position of every log.  One operator per observable effect; properties  *)
(* A01..A08 (and S10 for the fetcher) are evaluated on every effect.       *)
(*                                                                         *)
(* A log is abstract: index i honestly has leaf i.  Leaves from 100000 up  *)
(* are entries made up for a lie.  A proof term or a signed tree head      *)
(* stands for the sequence of leaves it commits to.                        *)
(* MCFetch.tla composes the effects into the fetcher's protocol,           *)
(* FetchTrace.tla replays the effects recorded from the real ct-fetch.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  flogs,  \* static: log -> [kind, must, may]
  ts,     \* log -> leaf -> timestamp
  unst,   \* log -> leaves that must not be stored (expired, no issuer)
  size,   \* log -> number of entries
  rec,    \* log -> saved position: [has, min, max, mints, maxts]
  base,   \* log -> the position a later one must not fall behind (A03)
  stored, \* log -> leaves in the cache
  moved,  \* log -> leaves moved to persistent storage
  srv,    \* log -> index -> leaves ever served there
  auth,   \* log -> index -> leaves authenticated there
  heads,  \* log -> tree heads served: set of [n, ts, ok, alt]
  run,    \* current run: [on, kind, single, srv, terms, heads, contacted]
  rewind, \* the cache was lost and not yet rewound by a run
  fviol   \* properties broken by the last effect

fetchVars == <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, heads, run, rewind, fviol>>

FV(p, why) == {<<p, why>>}
FIf(c, s) == IF c THEN s ELSE {}
FLogs == DOMAIN flogs
NoRec == [has |-> FALSE, min |-> 0, max |-> 0, mints |-> 0, maxts |-> 0]
NoRun == [on |-> FALSE, kind |-> "none", single |-> TRUE, srv |-> << >>, terms |-> << >>, heads |-> << >>, contacted |-> {}]
AllLogs(v) == [l \in FLogs |-> v]
Get(f, i) == IF i \in DOMAIN f THEN f[i] ELSE {}
Merge(f, g) == [i \in (DOMAIN f) \cup (DOMAIN g) |-> Get(f, i) \cup Get(g, i)]
\* what a term or tree head commits to at index i
AltOf(alt, i) == IF \E a \in alt : a.i = i THEN (CHOOSE a \in alt : a.i = i).x ELSE i
Sat(t, s) == \A i \in t.f .. t.l : AltOf(t.alt, i) \in Get(s, i)
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x

FetchInit(c) ==
  /\ flogs = c
  /\ ts = [l \in DOMAIN c |-> << >>] /\ unst = [l \in DOMAIN c |-> {}] /\ size = [l \in DOMAIN c |-> 0]
  /\ rec = [l \in DOMAIN c |-> NoRec] /\ base = [l \in DOMAIN c |-> NoRec]
  /\ stored = [l \in DOMAIN c |-> {}] /\ moved = [l \in DOMAIN c |-> {}]
  /\ srv = [l \in DOMAIN c |-> << >>] /\ auth = [l \in DOMAIN c |-> << >>] /\ heads = [l \in DOMAIN c |-> {}]
  /\ run = NoRun /\ rewind = FALSE /\ fviol = {}

FetchReset(c) ==
  /\ flogs' = c
  /\ ts' = [l \in DOMAIN c |-> << >>] /\ unst' = [l \in DOMAIN c |-> {}] /\ size' = [l \in DOMAIN c |-> 0]
  /\ rec' = [l \in DOMAIN c |-> NoRec] /\ base' = [l \in DOMAIN c |-> NoRec]
  /\ stored' = [l \in DOMAIN c |-> {}] /\ moved' = [l \in DOMAIN c |-> {}]
  /\ srv' = [l \in DOMAIN c |-> << >>] /\ auth' = [l \in DOMAIN c |-> << >>] /\ heads' = [l \in DOMAIN c |-> {}]
  /\ run' = NoRun /\ rewind' = FALSE /\ fviol' = {}

\* ------------------------------------------------------------------ the world
\* New entries: tseq their timestamps, bad the positions (from 1) of those not to be stored.
Grow(l, tseq, bad) ==
  /\ ts' = [ts EXCEPT ![l] = [x \in (DOMAIN @) \cup (size[l] .. size[l] + Len(tseq) - 1) |-> IF x \in DOMAIN @ THEN @[x] ELSE tseq[x - size[l] + 1]]]
  /\ unst' = [unst EXCEPT ![l] = @ \cup {size[l] + k - 1 : k \in bad}]
  /\ size' = [size EXCEPT ![l] = @ + Len(tseq)]
  /\ fviol' = {}
  /\ UNCHANGED <<flogs, rec, base, stored, moved, srv, auth, heads, run, rewind>>

Variant(l, x, t, u) ==
  /\ ts' = [ts EXCEPT ![l] = (x :> t) @@ @]
  /\ unst' = [unst EXCEPT ![l] = IF u THEN @ \cup {x} ELSE @]
  /\ fviol' = {}
  /\ UNCHANGED <<flogs, size, rec, base, stored, moved, srv, auth, heads, run, rewind>>

BeginRun(kind, single) ==
  /\ run' = [NoRun EXCEPT !.on = TRUE, !.kind = kind, !.single = single, !.srv = AllLogs(<< >>), !.terms = AllLogs({}), !.heads = AllLogs({})]
  /\ fviol' = {}
  /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, heads, rewind>>

ContactLog(l) ==
  /\ run' = [run EXCEPT !.contacted = @ \cup {l}]
  /\ fviol' = FIf(~flogs[l].may, FV("A07", "a log that is not enrolled is contacted"))
  /\ rewind' = FALSE
  /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, heads>>

\* ------------------------------------------------------------- what logs serve
TreeHead(l, n, t, ok, alt) ==
  LET h == [n |-> n, ts |-> t, ok |-> ok, alt |-> alt] IN
  /\ heads' = [heads EXCEPT ![l] = @ \cup {h}]
  /\ run' = [run EXCEPT !.heads[l] = @ \cup {h}]
  /\ fviol' = {}
  /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, rewind>>

Proof(l, terms) ==
  LET tt == run.terms[l] \cup terms IN
  /\ run' = [run EXCEPT !.terms[l] = tt]
  /\ fviol' = {}
  /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, heads, rewind>>

Entries(l, start, ids) ==
  LET new == [i \in start .. start + Len(ids) - 1 |-> {ids[i - start + 1]}]
      s   == Merge(run.srv[l], new)
      byTerm == {t \in run.terms[l] : Sat(t, s)}
      a   == IF flogs[l].kind = "rfc"
             THEN [i \in UNION {t.f .. t.l : t \in byTerm} |-> {AltOf(t.alt, i) : t \in {u \in byTerm : u.f <= i /\ i <= u.l}}]
             ELSE [i \in DOMAIN new |-> {x \in new[i] : \E h \in run.heads[l] : h.ok /\ i < h.n /\ AltOf(h.alt, i) = x}]
  IN
  /\ run' = [run EXCEPT !.srv[l] = s]
  /\ srv' = [srv EXCEPT ![l] = Merge(@, new)]
  /\ auth' = [auth EXCEPT ![l] = Merge(@, a)]
  /\ fviol' = {}
  /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, heads, rewind>>

\* ------------------------------------------------------- effects on the cache
StoreEntries(l, xs) ==
  /\ stored' = [stored EXCEPT ![l] = @ \cup xs]
  /\ fviol' = FIf(\E x \in xs : x \in unst[l], FV("A05", "an entry is stored that must not be"))
  /\ UNCHANGED <<flogs, ts, unst, size, rec, base, moved, srv, auth, heads, run, rewind>>

BadStore(why) == fviol' = FV("A05", "stored: " \o why) /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, heads, run, rewind>>

Moved(l, xs) ==
  /\ stored' = [stored EXCEPT ![l] = @ \ xs]
  /\ moved' = [moved EXCEPT ![l] = @ \cup xs]
  /\ fviol' = {}
  /\ UNCHANGED <<flogs, ts, unst, size, rec, base, srv, auth, heads, run, rewind>>

\* ---- what must hold of a position, whoever saves it
RangeOf(r) == IF r.has THEN r.min .. r.max ELSE {}
Have(l, x) == x \in stored[l] \/ x \in moved[l] \/ x \in unst[l]
Held(l, i) == \E x \in Get(srv[l], i) \cup {i} : x \in DOMAIN ts[l] /\ Have(l, x)
A01(l, r) == r.has => r.min <= r.max /\ r.max < size[l] + 100000 /\ \A i \in r.min .. r.max : Held(l, i)
A02(l, r) == \A i \in RangeOf(r) : Get(auth[l], i) # {}
Stamps(l, r) == {ts[l][x] : x \in DOMAIN ts[l] \cap UNION {Get(auth[l], i) : i \in RangeOf(r)}}
Reached(l, r) == {h.ts : h \in {g \in heads[l] : g.ok /\ g.n >= 1 /\ g.n - 1 <= r.max}}
A06new(l, r) ==
  \/ ~r.has
  \/ LET S == Stamps(l, r) \cup Reached(l, r) IN S # {} /\ r.maxts <= SetMax(S) /\ DOMAIN srv[l] # {}
A06old(l, r) == \A i \in RangeOf(r) : Get(auth[l], i) # {} => \E x \in Get(auth[l], i) \cap DOMAIN ts[l] : r.mints <= ts[l][x] /\ ts[l][x] <= r.maxts
A03(o, r) == o.has => r.has /\ r.min <= o.min /\ r.max >= o.max /\ r.mints <= o.mints /\ r.maxts >= o.maxts

Save(l, r, meta) ==
  /\ rec' = [rec EXCEPT ![l] = r]
  /\ base' = [base EXCEPT ![l] = r]
  /\ fviol' =
       FIf(~A01(l, r), FV("A01", "the saved position covers an entry that is not stored"))
       \cup FIf(A01(l, r) /\ ~A02(l, r), FV("A02", "the saved position covers an entry that was never authenticated"))
       \cup FIf(run.single /\ ~A03(base[l], r), FV("A03", "the saved range shrinks"))
       \cup FIf(~A06new(l, r), FV("A06", "the newest timestamp claimed is not justified"))
       \cup FIf(~A06old(l, r), FV("A06", "the claimed timestamps do not enclose those of the entries"))
       \cup FIf(~flogs[l].may /\ ~rewind, FV("A07", "a position is saved for a log that is not enrolled"))
       \cup FIf(~meta /\ ~rewind, FV("A07", "a position is saved under another log identity"))
  /\ UNCHANGED <<flogs, ts, unst, size, stored, moved, srv, auth, heads, run, rewind>>

SaveOther(why) == fviol' = FV("A07", "a position is saved for an unknown log " \o why) /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, heads, run, rewind>>

DelPos(l) ==
  /\ rec' = [rec EXCEPT ![l] = NoRec]
  /\ fviol' = FIf(base[l].has /\ ~rewind, FV("A03", "the saved position is deleted"))
  /\ UNCHANGED <<flogs, ts, unst, size, base, stored, moved, srv, auth, heads, run, rewind>>

\* The cache server loses everything; what was moved to storage stays.
LoseCache ==
  /\ stored' = AllLogs({}) /\ rec' = AllLogs(NoRec) /\ base' = AllLogs(NoRec)
  /\ rewind' = TRUE /\ fviol' = {}
  /\ UNCHANGED <<flogs, ts, unst, size, moved, srv, auth, heads, run>>

\* -------------------------------------------------------------- ends of runs
\* Everything an honest log served has been stored and is inside the position.
Finished(l) == \A i \in DOMAIN run.srv[l] : i \in RangeOf(rec[l]) /\ Held(l, i)

EndRun(code, killed, sig, hang, panic, wfault, rfault, dishonest, fssame) ==
  LET free == ~killed /\ ~sig
      must == {l \in FLogs : flogs[l].must}
  IN
  /\ run' = [run EXCEPT !.on = FALSE]
  /\ rewind' = IF free /\ code = 0 THEN FALSE ELSE rewind
  /\ fviol' =
       FIf(~fssame, FV("S10", "the fetcher changed persistent storage"))
       \cup FIf(free /\ hang /\ ~rfault, FV(IF wfault THEN "A08" ELSE "A07", "the run does not end"))
       \cup FIf(panic /\ ~killed, FV("A07", "the fetcher crashed"))
       \cup FIf(free /\ ~hang /\ code # 0 /\ ~rfault /\ must # {}, FV(IF wfault THEN "A08" ELSE "A07", "the run fails"))
       \cup FIf(free /\ code = 0 /\ ~wfault /\ ~rfault /\ (\E l \in FLogs : \E i \in DOMAIN run.srv[l] \cap RangeOf(rec[l]) : ~Held(l, i)), FV("A05", "an entry that must be stored has not been"))
       \cup FIf(free /\ code = 0 /\ run.single /\ ~rfault /\ ~(must \subseteq run.contacted), FV("A07", "an enrolled log was not contacted"))
       \cup FIf(free /\ code = 0 /\ run.single /\ ~rfault /\ (\E l \in (must \cap run.contacted) \ dishonest : ~Finished(l)),
                FV(IF wfault THEN "A08" ELSE "A07", "the run ends before everything fetched has been written"))
  /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, heads>>

EndCommit == run' = [run EXCEPT !.on = FALSE] /\ fviol' = {} /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, heads, rewind>>

\* A process that should keep running has ended by itself.
Died(wf) == fviol' = FV(IF wf THEN "A08" ELSE "A07", "a fetcher that should keep running ended") /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, heads, run, rewind>>

\* Nothing changes any more: a healthy log must be complete.
Enough(l) == size[l] >= (IF flogs[l].kind = "rfc" THEN 4 ELSE 1)
Complete(l) == rec[l].has /\ rec[l].min = 0 /\ rec[l].max = size[l] - 1 /\ \A i \in 0 .. size[l] - 1 : Have(l, i)
Quiet(l, honest, wf) ==
  /\ fviol' = FIf(flogs[l].must /\ honest /\ Enough(l) /\ ~Complete(l), FV(IF wf THEN "A08" ELSE "A04", "fetching is stuck before everything is ingested"))
  /\ UNCHANGED <<flogs, ts, unst, size, rec, base, stored, moved, srv, auth, heads, run, rewind>>
=============================================================================
