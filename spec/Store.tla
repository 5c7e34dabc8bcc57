------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The pipeline's state: the cache (Redis), the persistent storage         *)
(* directory, and the history needed to state what must hold of them.      *)
(*                                                                         *)
(* One operator per EFFECT a process can have on the two.  The design      *)
(* (MCCommit.tla) composes these effects into the programs' protocol; the  *)
(* trace specification (StoreTrace.tla) replays the effects recorded from  *)
(* the real programs.  Both evaluate the same properties, S01..K03, below. *)
(* Every operator is permissive: it accepts any effect and records in      *)
(* `viol` which properties that effect breaks.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  cfg,     \* static description: bins, ents, mmd, enroll
  cache,   \* entries in the cache
  logst,   \* saved log positions in the cache: set of [log, mmd, min, max, mints, maxts, idok]
  cepoch,  \* generation in the cache
  lock,    \* owner of the commit lock, or "none"
  stbin,   \* storage: existing serial files, bin -> set of serials
  broken,  \* storage objects that cannot be read completely
  cover,   \* storage: published coverage, [has, logs]
  sepoch,  \* generation in storage, -1 if there is none
  \* ---- history
  ever,    \* every entry ever accepted
  acc,     \* those not lost by the cache server itself
  exempt,  \* those lost by the server while a commit was running
  winlost, \* those lost by the server after a published position had passed them without covering them yet
           \* (known finding S02-window: a rewind does not reach them)
  saved,   \* positions ever saved: set of [rec, ents], ents = accepted at that time
  pairst,  \* what is known of the cache/storage pair: none (nothing was ever committed), ok, lost,
           \* maybe (a commit was interrupted), maybe0 (the first one was: no generation was ever agreed)
  ncommit, \* [v, c, g]: version of storage, runs that changed it so far, successful ones (as of that version); k: some commit or rewind was interrupted
  snap,    \* snapshot of the cache for a roll-back
  ssnap,   \* snapshot of the storage directory
  runs,    \* running processes
  toks,    \* holders of lock tokens (driver processes)
  lastcode,\* exit status of the last finished committer
  viol     \* properties broken by the last effect: set of <<property, reason>>

storeVars == <<cfg, cache, logst, cepoch, lock, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, saved,
               pairst, ncommit, snap, ssnap, runs, toks, lastcode, viol>>

\* ------------------------------------------------------------------ helpers
Bin(e)     == cfg.ents[e].bin
Ser(e)     == cfg.ents[e].ser
Bins       == DOMAIN cfg.bins
Live(b)    == cfg.bins[b].live              \* "live", "edge" (expires within the current hour/day), "past"
Files      == DOMAIN stbin
StoredIn(b)== IF b \in Files THEN stbin[b] ELSE {}
Stored(e)  == Bin(e) \in Files /\ Bin(e) \notin broken /\ Ser(e) \in stbin[Bin(e)]
Cutoff(r)  == IF r.maxts > r.mmd THEN r.maxts - r.mmd ELSE 0
CoveredBy(e, L) ==
  IF cfg.ents[e].legacy THEN TRUE
  ELSE \E r \in L : r.log = cfg.ents[e].log /\ cfg.ents[e].ts <= Cutoff(r)
Committer(k) == k \in {"commit", "known", "rawcommit"}   \* rawcommit: one storage call with a given token
Running(a) == a \in DOMAIN runs
IsCommitter(a) == Running(a) /\ Committer(runs[a].kind)
NoSnap == [has |-> FALSE]
V(p, why) == {<<p, why>>}
If(c, s) == IF c THEN s ELSE {}

StoreInit(c) ==
  /\ cfg = c /\ cache = {} /\ logst = {} /\ cepoch = 0 /\ lock = "none"
  /\ stbin = << >> /\ broken = {} /\ cover = [has |-> FALSE, logs |-> {}] /\ sepoch = -1
  /\ ever = {} /\ acc = {} /\ exempt = {} /\ winlost = {} /\ saved = {} /\ pairst = "none" /\ ncommit = [v |-> 0, c |-> 0, g |-> 0, k |-> FALSE]
  /\ snap = NoSnap /\ ssnap = NoSnap /\ runs = << >> /\ toks = {} /\ lastcode = 0 /\ viol = {}

Reset(c) ==
  /\ cfg' = c /\ cache' = {} /\ logst' = {} /\ cepoch' = 0 /\ lock' = "none"
  /\ stbin' = << >> /\ broken' = {} /\ cover' = [has |-> FALSE, logs |-> {}] /\ sepoch' = -1
  /\ ever' = {} /\ acc' = {} /\ exempt' = {} /\ winlost' = {} /\ saved' = {} /\ pairst' = "none" /\ ncommit' = [v |-> 0, c |-> 0, g |-> 0, k |-> FALSE]
  /\ snap' = NoSnap /\ ssnap' = NoSnap /\ runs' = << >> /\ toks' = {} /\ lastcode' = 0 /\ viol' = {}

Upd(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k)    == [x \in (DOMAIN f) \ {k} |-> f[x]]

\* Marks every running committer: its completeness cannot be judged any more.
Disturb == [a \in DOMAIN runs |-> [runs[a] EXCEPT !.disturbed = TRUE]]

\* A known run that has begun to change storage and still holds the lock.
Listing(y) == runs[y].kind = "known" /\ runs[y].wrote /\ ~runs[y].disturbed /\ ~runs[y].unl.has

\* A change of storage by a: who may do it, and when.
StorageWriteViol(a) ==
  If(~IsCommitter(a), V("S07", "storage changed by a process that is not committing"))
  \cup If(IsCommitter(a) /\ ~runs[a].owned, V("S07", "storage changed without holding the commit lock"))
  \cup If(IsCommitter(a) /\ runs[a].pair = "lost", V("S06", "storage changed although cache and storage diverged"))
  \cup If(\E y \in DOMAIN runs : y # a /\ Listing(y),
          V("K03", "storage changed while another run was producing known lists"))
  \cup If(a = "F" \/ (Running(a) /\ ~IsCommitter(a)), V("S10", "storage changed by the fetcher"))
MarkWrote(a) == IF IsCommitter(a) THEN [runs EXCEPT ![a].wrote = TRUE] ELSE runs

\* ------------------------------------------------------- effects on the cache
Add(a, es) ==
  /\ cache' = cache \cup es
  /\ ever' = ever \cup es
  /\ acc' = acc \cup es
  /\ winlost' = winlost \ es
  /\ runs' = [y \in DOMAIN runs |-> [runs[y] EXCEPT !.added = @ \cup es]]
  /\ viol' = If(IsCommitter(a), V("S03", "a committer added entries to the cache"))
  /\ UNCHANGED <<cfg, logst, cepoch, lock, stbin, broken, cover, sepoch, exempt, saved, pairst, ncommit, snap, ssnap, toks, lastcode>>

Rem(a, es) ==
  /\ cache' = cache \ es
  /\ viol' = If(\E e \in es : Live(Bin(e)) = "live" /\ ~Stored(e), V("S01", "removed from the cache before it was readable in storage"))
             \cup If(~IsCommitter(a) /\ (\E e \in es : Live(Bin(e)) = "live"), V("S01", "removed from the cache outside a commit"))
  /\ runs' = IF IsCommitter(a) THEN [runs EXCEPT ![a].rem = @ \cup es] ELSE runs
  /\ UNCHANGED <<cfg, logst, cepoch, lock, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, toks, lastcode>>

\* The expiry time the server will apply to a bin.
Ttl(a, b, good) ==
  /\ viol' = If(~good, V("S01", "the cache will drop the bin before its certificates expire"))
  /\ UNCHANGED <<cfg, cache, logst, cepoch, lock, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, runs, toks, lastcode>>

Save(a, r) ==
  /\ logst' = {x \in logst : x.log # r.log} \cup {r}
  \* a position restored by the rewind was saved (and justified) earlier
  /\ saved' = IF \E s \in saved : s.rec = r THEN saved ELSE saved \cup {[rec |-> r, ents |-> {e \in ever : cfg.ents[e].idx <= r.max}]}
  /\ viol' = If(~r.idok, V("S03", "log identity changed in a saved position"))
             \cup If(IsCommitter(a), V("S06", "a committer changed a log position"))
  /\ runs' = [y \in DOMAIN runs |-> [runs[y] EXCEPT !.pos = @ \cup {r}]]
  /\ UNCHANGED <<cfg, cache, cepoch, lock, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, pairst, ncommit, snap, ssnap, toks, lastcode>>

DelLog(a, l) ==
  /\ logst' = {x \in logst : x.log # l}
  /\ runs' = [y \in DOMAIN runs |-> IF y = a THEN runs[y] ELSE [runs[y] EXCEPT !.log0 = {x \in @ : x.log # l}]]
  /\ viol' = If(IsCommitter(a), V("S06", "a committer removed a log position"))
             \cup If(Running(a) /\ runs[a].kind = "ensure" /\ ~runs[a].disturbed /\ runs[a].pair \in {"ok", "none"} /\ pairst \in {"ok", "none"}
                     /\ \A y \in DOMAIN runs : ~Committer(runs[y].kind), V("S06", "a consistent cache is being rewound"))
  /\ UNCHANGED <<cfg, cache, cepoch, lock, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, toks, lastcode>>

EpochC(a, n) ==
  /\ cepoch' = n
  /\ viol' = {}
  /\ runs' = IF IsCommitter(a) THEN [runs EXCEPT ![a].wrote = TRUE] ELSE runs
  /\ UNCHANGED <<cfg, cache, logst, lock, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, toks, lastcode>>

\* An object in the cache or in storage that nothing in the system should have produced.
Unknown(a, what) ==
  /\ viol' = V("S04", "unexpected object") \cup V("S03", "unexpected object")
  /\ UNCHANGED <<cfg, cache, logst, cepoch, lock, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, runs, toks, lastcode>>

\* ----------------------------------------------------- effects on the storage
StBin(a, b, s, ok, dup) ==
  /\ stbin' = Upd(stbin, b, s)
  /\ broken' = IF ok THEN broken \ {b} ELSE broken \cup {b}
  /\ runs' = MarkWrote(a)
  /\ viol' = StorageWriteViol(a)
       \cup If(~ok, V("S05", "serial file not readable completely"))
       \cup If(ok /\ dup, V("S04", "serial file holds duplicates"))
       \cup If(ok /\ ~(StoredIn(b) \subseteq s), V("S04", "serial file lost serials"))
       \cup If(ok /\ \E x \in s \ StoredIn(b) : ~\E e \in ever : Bin(e) = b /\ Ser(e) = x, V("S04", "serial file holds serials that were never accepted for it"))
  /\ UNCHANGED <<cfg, cache, logst, cepoch, lock, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, toks, lastcode>>

StUnlink(a, b) ==
  /\ stbin' = Del(stbin, b)
  /\ broken' = broken \ {b}
  /\ runs' = MarkWrote(a)
  /\ viol' = StorageWriteViol(a)
       \cup If(Live(b) # "past", V("S04", "a serial file was removed before its expiry hour or day had passed"))
  /\ UNCHANGED <<cfg, cache, logst, cepoch, lock, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, toks, lastcode>>

StCover(a, ok, L) ==
  /\ cover' = [has |-> TRUE, logs |-> L]
  /\ broken' = IF ok THEN broken \ {"cover"} ELSE broken \cup {"cover"}
  /\ runs' = MarkWrote(a)
  /\ viol' = StorageWriteViol(a)
       \cup If(~ok, V("S05", "coverage file not readable completely"))
       \cup If(ok /\ ~(L \subseteq {s.rec : s \in saved}), V("S02", "coverage lists a position that was never saved"))
  /\ UNCHANGED <<cfg, cache, logst, cepoch, lock, stbin, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, toks, lastcode>>

StEpoch(a, n, ok) ==
  /\ sepoch' = n
  /\ broken' = IF ok THEN broken \ {"epoch"} ELSE broken \cup {"epoch"}
  /\ runs' = MarkWrote(a)
  /\ viol' = StorageWriteViol(a) \cup If(~ok, V("S05", "generation file not readable completely"))
  /\ UNCHANGED <<cfg, cache, logst, cepoch, lock, stbin, cover, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, toks, lastcode>>

\* Any other change below the storage directory. foreign: not a path of this system
\* (or its temporary files); was: it existed before.
Touch(a, foreign, was) ==
  /\ viol' = If(foreign /\ was, V("S04", "a foreign file was changed or removed"))
             \cup If(~IsCommitter(a), V("S10", "something under the storage directory changed"))
  /\ UNCHANGED <<cfg, cache, logst, cepoch, lock, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, runs, toks, lastcode>>

\* ---------------------------------------------------------------- environment
Present(C, f) == {e \in ever : e \in C \/ (Bin(e) \in DOMAIN f /\ Ser(e) \in f[Bin(e)])}

\* Entries that published position L already passed without covering them, out of X.
Window(X, L) == {e \in X : ~cfg.ents[e].legacy /\ \E c \in L : c.log = cfg.ents[e].log /\ ~CoveredBy(e, {c})
                     /\ \E x \in saved : x.rec = c /\ e \in x.ents}
\* What is gone without anybody being able to notice.
Unseen(ps, C, f) == IF ps = "maybe0" THEN ever \ Present(C, f) ELSE {}
SomeCommit == \E a \in DOMAIN runs : Committer(runs[a].kind)

Flush ==
  /\ cache' = {} /\ logst' = {} /\ cepoch' = 0 /\ lock' = "none" /\ toks' = {}
  /\ acc' = Present({}, stbin)
  /\ pairst' = CASE pairst = "ok" -> "lost" [] pairst = "lost" /\ sepoch < 0 -> "maybe0" [] OTHER -> pairst
  /\ exempt' = IF SomeCommit THEN exempt \cup (cache \ Present({}, stbin)) ELSE exempt \cup Unseen(pairst', {}, stbin)
  /\ winlost' = winlost \cup Window(ever \ Present({}, stbin), cover.logs)
  /\ runs' = Disturb
  /\ viol' = {}
  /\ UNCHANGED <<cfg, stbin, broken, cover, sepoch, ever, saved, ncommit, snap, ssnap, lastcode>>

Snap ==
  /\ snap' = [has |-> TRUE, cache |-> cache, logst |-> logst, cepoch |-> cepoch, lock |-> lock, pairst |-> pairst, n |-> ncommit]
  /\ viol' = {}
  /\ UNCHANGED <<cfg, cache, logst, cepoch, lock, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, ssnap, runs, toks, lastcode>>

\* same: nothing has changed storage since the snapshot was taken. A second loss
\* on top of one that was not repaired can cancel it, and commits that did not
\* succeed agree on no new generation: nothing is claimed then.
PairAfter(s, cacheSide) ==
  IF pairst \in {"maybe", "maybe0"} \/ s.pairst \in {"maybe", "maybe0"} THEN "maybe0"
  ELSE IF s.n.v = ncommit.v THEN (IF cacheSide THEN s.pairst ELSE pairst)
  ELSE IF s.pairst \in {"ok", "none"} /\ pairst = "ok" /\ s.n.g # ncommit.g THEN "lost" ELSE "maybe0"

Rollback ==
  /\ snap.has
  /\ cache' = snap.cache /\ logst' = snap.logst /\ cepoch' = snap.cepoch /\ lock' = snap.lock
  /\ acc' = Present(snap.cache, stbin)
  /\ pairst' = PairAfter(snap, TRUE)
  /\ exempt' = IF SomeCommit THEN exempt \cup (cache \ Present(snap.cache, stbin)) ELSE exempt \cup Unseen(pairst', snap.cache, stbin)
  /\ winlost' = winlost \cup Window(ever \ Present(snap.cache, stbin), cover.logs)
  /\ runs' = Disturb
  /\ viol' = {}
  /\ UNCHANGED <<cfg, stbin, broken, cover, sepoch, ever, saved, ncommit, snap, ssnap, toks, lastcode>>

StSnap ==
  /\ ssnap' = [has |-> TRUE, stbin |-> stbin, broken |-> broken, cover |-> cover, sepoch |-> sepoch, pairst |-> pairst, n |-> ncommit]
  /\ viol' = {}
  /\ UNCHANGED <<cfg, cache, logst, cepoch, lock, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, runs, toks, lastcode>>

StRollback ==
  /\ ssnap.has
  /\ stbin' = ssnap.stbin /\ broken' = ssnap.broken /\ cover' = ssnap.cover /\ sepoch' = ssnap.sepoch
  /\ acc' = Present(cache, ssnap.stbin)
  /\ winlost' = winlost \cup Window(ever \ Present(cache, ssnap.stbin), ssnap.cover.logs)
  /\ pairst' = PairAfter(ssnap, FALSE)
  /\ ncommit' = [ncommit EXCEPT !.v = ssnap.n.v, !.g = ssnap.n.g]
  /\ exempt' = exempt \cup Unseen(pairst', cache, ssnap.stbin)
  /\ runs' = Disturb
  /\ viol' = {}
  /\ UNCHANGED <<cfg, cache, logst, cepoch, lock, ever, saved, snap, ssnap, toks, lastcode>>

LockExpire ==
  /\ lock' = "none"
  /\ toks' = toks \ {lock}
  /\ runs' = [a \in DOMAIN runs |-> IF a = lock THEN [runs[a] EXCEPT !.disturbed = TRUE] ELSE runs[a]]
  /\ viol' = {}
  /\ UNCHANGED <<cfg, cache, logst, cepoch, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, lastcode>>

\* Serials put into storage by an earlier version of the system.
PreStore(b, s) ==
  /\ stbin' = Upd(stbin, b, s)
  /\ viol' = {}
  /\ UNCHANGED <<cfg, cache, logst, cepoch, lock, broken, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, runs, toks, lastcode>>

\* ------------------------------------------------------------------ processes
NewRun(a, kind) ==
  [kind |-> kind, cache0 |-> cache, bin0 |-> stbin, cover0 |-> cover, log0 |-> logst, pos |-> logst, ce0 |-> cepoch, se0 |-> sepoch,
   pair |-> IF pairst = "lost" /\ Committer(kind) /\ (\E x \in DOMAIN runs : runs[x].kind = "ensure") THEN "maybe" ELSE pairst, lock0 |-> lock, owned |-> (lock = a /\ a \in toks), wrote |-> FALSE, disturbed |-> FALSE, rem |-> {}, added |-> {},
   lists |-> [has |-> FALSE], final |-> [has |-> FALSE], unl |-> [has |-> FALSE], others |-> Cardinality(DOMAIN runs) > 0]

Begin(a, kind) ==
  /\ runs' = [x \in (DOMAIN runs) \cup {a} |->
        IF x = a THEN NewRun(a, kind)
        ELSE [runs[x] EXCEPT !.others = TRUE, !.pair = IF kind = "ensure" /\ @ = "lost" THEN "maybe" ELSE @]]
  /\ viol' = {}
  /\ UNCHANGED <<cfg, cache, logst, cepoch, lock, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, toks, lastcode>>

\* What a committer that reports success must have achieved (S03, S04).
Moved(r, faulty) ==
  \A e \in r.cache0 : (CoveredBy(e, cover.logs) /\ Live(Bin(e)) # "past")
     => Stored(e) /\ (e \notin cache \/ faulty \/ e \in r.added)   \* (fetched again meanwhile)
Kept(r)  == \A e \in r.cache0 : ~CoveredBy(e, cover.logs) => (e \in cache \/ Live(Bin(e)) # "live")
OnlyCovered(r) == \A e \in r.rem : CoveredBy(e, cover.logs)
Positions(r) ==
  /\ cover.has
  /\ \A x \in r.log0 : \E y \in cover.logs : y.log = x.log
  /\ \A y \in cover.logs : y \in r.pos
Exact(r) ==
  /\ \A b \in Files : \A x \in stbin[b] :
        \/ b \in DOMAIN r.bin0 /\ x \in r.bin0[b]
        \/ \E e \in ever : Bin(e) = b /\ Ser(e) = x /\ CoveredBy(e, cover.logs)
  /\ \A b \in DOMAIN r.bin0 : Live(b) # "past" => (b \in Files /\ r.bin0[b] \subseteq stbin[b])
Expired == \A b \in Files : Live(b) # "past"

SuccessViol(r, faulty) ==
  If(~Positions(r), V("S03", "published coverage is not the set of saved log positions"))
  \cup If(~Moved(r, faulty), V("S03", "a covered entry was not moved to storage"))
  \cup If(~Kept(r), V("S03", "an entry that is not covered left the cache"))
  \cup If(~OnlyCovered(r), V("S03", "an entry that is not covered was removed from the cache"))
  \cup If(~Exact(r), V("S04", "stored serials are not the previous ones plus the covered ones"))
  \cup If(~Expired, V("S04", "an expired serial file was left in storage"))

LockSet(a, ttl) ==
  /\ lock' = a
  /\ toks' = toks \cup {a}
  /\ runs' = IF Running(a) THEN [runs EXCEPT ![a].owned = TRUE] ELSE runs
  /\ viol' = If(lock # "none", V("S07", "lock taken while it was held"))
             \cup If(~ttl, V("S07", "lock taken without an expiry"))
             \cup If(\E y \in DOMAIN runs : y # a /\ Listing(y),
                     V("K03", "lock available while another run was producing known lists"))
  /\ UNCHANGED <<cfg, cache, logst, cepoch, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, lastcode>>

LockDel(a) ==
  /\ lock' = "none"
  /\ toks' = toks \ {lock}
  /\ viol' = If(lock # a, V("S07", "removed a lock that belongs to another process"))
  \* what a committer has achieved is judged when it lets the others in
  /\ runs' = IF ~Running(a) THEN runs
             ELSE IF lock = a /\ IsCommitter(a) /\ ~runs[a].unl.has
             THEN [runs EXCEPT ![a].owned = FALSE, ![a].unl = [has |-> TRUE, clean |-> SuccessViol(runs[a], FALSE), faulty |-> SuccessViol(runs[a], TRUE)]]
             ELSE [runs EXCEPT ![a].owned = FALSE]
  /\ UNCHANGED <<cfg, cache, logst, cepoch, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, lastcode>>

\* Complete known lists (K01).
WantBins(i) == {b \in Files : cfg.bins[b].iss = i /\ Live(b) # "past"}
ListOK(k) ==
  /\ k.ok /\ ~k.dup
  /\ \A s \in k.secs : \E b \in WantBins(k.iss) : b \in s.bins /\ s.s = stbin[b]
  /\ \A b \in WantBins(k.iss) : stbin[b] # {} => \E s \in k.secs : b \in s.bins
  /\ k.nsec = Cardinality(k.secs)
KnownComplete(out) ==
  /\ \A k \in out.lists : k.iss \in cfg.enroll
  /\ \A k \in out.lists : ListOK(k)
  /\ \A i \in cfg.enroll : (\E b \in WantBins(i) : stbin[b] # {}) => \E k \in out.lists : k.iss = i
  /\ out.cover.ok /\ out.cover.logs = cover.logs

\* The lists a known run has produced so far; when = "unlock" or "end".
\* out = [lists: set of [iss, secs: set of [bins, s], ok, dup, nsec], cover: [ok, logs]]
KnownOut(a, when, out) ==
  /\ runs' = IF ~Running(a) THEN runs
             ELSE IF when = "unlock" THEN [runs EXCEPT ![a].lists = [has |-> TRUE, out |-> out, complete |-> KnownComplete(out)]]
             ELSE [runs EXCEPT ![a].final = [has |-> TRUE, out |-> out]]
  /\ viol' = {}
  /\ UNCHANGED <<cfg, cache, logst, cepoch, lock, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, toks, lastcode>>

\* End of a run. code: exit status (0 success); killed; faulty: a cache fault was
\* injected; injected: a data operation on disk was made to fail; sig: it was
\* told to stop; soft: creating a file failed, which may be made up for (renameio
\* probes directories), so only the result counts; res: boolean result of a lock operation.
EndViol(a, r, code, killed, faulty, injected, soft, sig, res) ==
  LET commit == Committer(r.kind)
      ok     == code = 0 /\ ~killed
      known  == r.kind = "known"
      judged == IF r.unl.has THEN (IF faulty THEN r.unl.faulty ELSE r.unl.clean) ELSE SuccessViol(r, faulty)
  IN
  If(commit /\ ok /\ ~r.disturbed,
       judged
       \cup If(soft /\ judged # {}, V("S08", "success reported although a file could not be written"))
       \cup If(~r.owned /\ ~r.wrote, V("S07", "reported success without having committed under the lock")))
  \cup If(commit /\ ok /\ r.pair = "lost", V("S06", "a commit was accepted although cache and storage had diverged"))
  \cup If(commit /\ ok /\ injected, V("S08", "success reported although a write to storage failed"))
  \cup If(known /\ ok /\ injected, V("K02", "success reported although a read or write failed"))
  \cup If(r.kind \in {"commit", "known", "ensure"} /\ ~killed /\ lock = a /\ ~faulty, V("S07", "finished without releasing the commit lock"))
  \cup If(commit /\ ~ok /\ ~killed /\ ~faulty /\ ~injected /\ ~sig /\ ~r.disturbed /\ r.pair \in {"ok", "none"}
            /\ (IF r.kind = "rawcommit" THEN r.owned ELSE r.lock0 = "none") /\ ~r.others,
          V("S06", "a commit on a consistent pair with a free lock failed")
          \cup If(ncommit.c > 0 \/ r.wrote, V("S09", "a commit on a consistent pair failed")))
  \cup If(known /\ ok /\ r.final.has /\ ~r.disturbed
            /\ ~(IF r.lists.has /\ r.lists.out = r.final.out THEN r.lists.complete ELSE KnownComplete(r.final.out)),
          V(IF sig \/ injected \/ soft \/ faulty THEN "K02" ELSE "K01", "success with incomplete or inexact known lists"))
  \cup If(known /\ ok /\ r.lists.has /\ r.final.has /\ r.lists.out # r.final.out, V("K03", "lists were still being written after the lock was released"))
  \cup If(known /\ ok /\ ~r.final.has, V("K01", "success without any output"))
  \* ---- the fetcher's start-up check
  \cup If(r.kind = "ensure" /\ ok /\ ~r.disturbed /\ r.pair = "lost" /\ logst # cover.logs, V("S06", "positions were not rewound to the stored coverage")
          \cup If(ncommit.k, V("S09", "after an interruption the positions were not rewound to the stored coverage")))
  \cup If(r.kind = "ensure" /\ ok /\ ~r.disturbed /\ r.pair \in {"ok", "none"} /\ ~r.others /\ (logst # r.log0 \/ cepoch # r.ce0), V("S06", "a consistent cache was rewound"))
  \cup If(r.kind = "ensure" /\ ~ok /\ ~killed /\ ~faulty /\ ~r.disturbed /\ r.lock0 = "none" /\ ~r.others,
          V("S06", "the start-up check failed") \cup V("S09", "the start-up check failed"))
  \* ---- lock operations
  \cup If(r.kind = "acquire" /\ ok /\ ~faulty /\ res # (r.lock0 = "none") /\ ~r.disturbed /\ r.lock0 = lock, V("S07", "wrong answer when acquiring the lock"))
  \cup If(r.kind = "has" /\ ok /\ res /\ lock # a /\ r.lock0 # a, V("S07", "claims a lock that is not held"))
  \cup If(r.kind = "release" /\ ~faulty /\ ~killed /\ lock = a, V("S07", "a released lock is still held"))
  \* ---- read-only storage
  \cup If(r.kind = "rocommit" /\ ok, V("S10", "a database opened read-only accepted a commit"))

PairEnd(r, code, killed, faulty) ==
  IF Committer(r.kind) THEN
    IF code = 0 /\ ~killed /\ ~faulty /\ ~r.disturbed THEN "ok"
    ELSE IF r.wrote \/ (code = 0 /\ ~killed) THEN (CASE pairst = "lost" -> "lost" [] pairst \in {"none", "maybe0"} -> "maybe0" [] OTHER -> "maybe") ELSE pairst
  ELSE IF r.kind = "ensure" THEN
    IF code = 0 /\ ~killed /\ ~r.disturbed THEN (CASE pairst \in {"none", "maybe0"} -> pairst [] r.others /\ pairst \in {"lost", "maybe"} -> "maybe" [] OTHER -> "ok")
    ELSE IF pairst = "lost" /\ logst = cover.logs /\ cepoch = sepoch + 1 THEN "maybe" ELSE pairst
  ELSE pairst

EndS(a, code, killed, faulty, injected, soft, sig, res) ==
  /\ Running(a)
  /\ LET r == runs[a] IN
     /\ viol' = EndViol(a, r, code, killed, faulty, injected, soft, sig, res)
     /\ pairst' = PairEnd(r, code, killed, faulty)
     /\ ncommit' = IF Committer(r.kind) /\ (r.wrote \/ (code = 0 /\ ~killed))
                   THEN [v |-> ncommit.c + 1, c |-> ncommit.c + 1, g |-> IF code = 0 /\ ~killed /\ ~faulty THEN ncommit.g + 1 ELSE ncommit.g, k |-> ncommit.k \/ killed]
                   ELSE [ncommit EXCEPT !.k = @ \/ (r.kind = "ensure" /\ (killed \/ code # 0))]
     /\ lastcode' = IF Committer(r.kind) THEN (IF killed THEN -1 ELSE code) ELSE lastcode
     \* the lock of a process that is gone belongs to nobody alive
     /\ lock' = IF lock = a /\ (killed \/ r.kind \in {"commit", "known", "ensure"}) THEN "dead" ELSE lock
  /\ runs' = Del(runs, a)
  /\ UNCHANGED <<cfg, cache, logst, cepoch, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, saved, snap, ssnap, toks>>
End(a, code, killed, faulty, injected, sig, res) == EndS(a, code, killed, faulty, injected, FALSE, sig, res)

\* The point where a history with interruptions must have reached the state an
\* uninterrupted one reaches: everything accepted and covered is in storage,
\* the coverage is the set of saved positions, and the pair is accepted.
Recovered ==
  /\ lastcode = 0
  /\ cover.has /\ cover.logs = logst
  /\ \A e \in acc : (CoveredBy(e, cover.logs) /\ Live(Bin(e)) # "past") => Stored(e)
  /\ \A b \in Files : \A x \in stbin[b] : (\E e \in ever : Bin(e) = b /\ Ser(e) = x /\ CoveredBy(e, cover.logs)) \/ ~\E e \in ever : Bin(e) = b /\ Ser(e) = x
  /\ broken = {}
  /\ lock = "none"

Expect ==
  /\ viol' = If(~Recovered, V("S09", "recovery did not reach the state of an uninterrupted run"))
  /\ UNCHANGED <<cfg, cache, logst, cepoch, lock, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, runs, toks, lastcode>>

\* -------------------------------------------------------------- the properties
\* State invariants.
NothingLost ==
  \A e \in acc : Live(Bin(e)) = "live" => (e \in cache \/ Stored(e))
CoverageSound ==
  "cover" \in broken \/
  \A c \in cover.logs : \A s \in saved : s.rec = c =>
     \A e \in s.ents : (~cfg.ents[e].legacy /\ cfg.ents[e].log = c.log /\ CoveredBy(e, {c}) /\ Live(Bin(e)) = "live" /\ e \notin exempt /\ e \notin winlost) => Stored(e)
\* The known finding: such an entry is claimed although it is nowhere.
WindowFinding == \E e \in winlost : Live(Bin(e)) = "live" /\ CoveredBy(e, cover.logs) /\ ~Stored(e) /\ e \notin cache
NeverTorn == broken = {}

Broke(p) == \E v \in viol : v[1] = p
S01 == NothingLost /\ ~Broke("S01")
S02 == CoverageSound /\ ~Broke("S02")
S03 == ~Broke("S03")
S04 == ~Broke("S04")
S05 == NeverTorn /\ ~Broke("S05")
S06 == ~Broke("S06")
S07 == ~Broke("S07")
S08 == ~Broke("S08")
S09 == ~Broke("S09")
S10 == ~Broke("S10")
K01 == ~Broke("K01")
K02 == ~Broke("K02")
K03 == ~Broke("K03")
=============================================================================
