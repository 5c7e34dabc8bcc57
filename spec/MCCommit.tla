------------------------------ MODULE MCCommit ------------------------------
(***************************************************************************)
(* The design of the commit pipeline, one action per cache command or file *)
(* operation, composed from the effects of Store.tla:                      *)
(*   - committers (commit / aggregate-known): lock, check, generations,    *)
(*     positions, bins (read, replace file, remove - bins in parallel),    *)
(*     coverage, expired files, generation in cache, generation file,      *)
(*     unlock;  a crash or a failing operation possible at each step;      *)
(*   - the fetcher: start-up check (rewind step by step), ingestion in log *)
(*     order, positions saved after their entries;  a crash at each step;  *)
(*   - the environment: loss and roll-back of the cache server, expiry of  *)
(*     a dead holder's lock.                                               *)
(* TLC checks all properties of Store.tla on it exhaustively; in           *)
(* simulation mode its behaviours (hist) become test scripts.              *)
(***************************************************************************)
EXTENDS Store, Json

CONSTANTS
  C,          \* committers
  Kind,       \* what they run: committer -> "commit" | "known"
  Static,     \* cfg
  LogSeq,     \* log -> sequence of its entries (index 0 first)
  MaxRuns, MaxCrash, MaxFault, MaxLoss, MaxRestart, MaxSaves,
  OldEpoch,   \* TRUE: the original test of the generations, which cannot tell "0" from "none"
  OldRewind,  \* TRUE: the original rewind, which trusts generations read before it has the lock
  Record, Depth

VARIABLES pc, loc, fpc, pos, todo, fl, cnt, hist
vars == <<storeVars, pc, loc, fpc, pos, todo, fl, cnt, hist>>

Logs == DOMAIN LogSeq
NoLoc == [L |-> {}, ce |-> 0, bins |-> {}, read |-> << >>, done |-> {}, code |-> 0, faulty |-> FALSE]
H(r) == hist' = IF Record THEN Append(hist, r) ELSE hist
Same == UNCHANGED <<cfg, cache, logst, cepoch, lock, stbin, broken, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, ncommit, snap, ssnap, runs, toks, lastcode>> /\ viol' = {}

Init ==
  /\ StoreInit(Static)
  /\ pc = [c \in C |-> "idle"] /\ loc = [c \in C |-> NoLoc]
  /\ fpc = "down" /\ pos = [l \in Logs |-> 0] /\ todo = {} /\ fl = [has |-> FALSE, se |-> 0]
  /\ cnt = [runs |-> 0, crash |-> 0, fault |-> 0, loss |-> 0, restart |-> 0, saves |-> 0]
  /\ hist = << >>

FVars == <<fpc, pos, todo, fl>>
Step(c, from, to) == pc[c] = from /\ pc' = [pc EXCEPT ![c] = to]

\* ------------------------------------------------------------- the committer
CBegin(c) ==
  /\ cnt.runs < MaxRuns /\ Step(c, "idle", "lock") /\ cnt' = [cnt EXCEPT !.runs = @ + 1]
  /\ Begin(c, Kind[c]) /\ loc' = [loc EXCEPT ![c] = NoLoc]
  /\ H([a |-> c, op |-> "begin", kind |-> Kind[c]]) /\ UNCHANGED FVars
CLock(c) ==
  /\ IF lock = "none" THEN LockSet(c, TRUE) /\ Step(c, "lock", "chk") /\ UNCHANGED loc
     ELSE Same /\ Step(c, "lock", "end") /\ loc' = [loc EXCEPT ![c].code = 1]
  /\ H([a |-> c, op |-> "step", cls |-> "lock"]) /\ UNCHANGED <<FVars, cnt>>
CChk(c) ==
  /\ Step(c, "chk", IF lock = c THEN "epoch" ELSE "unlock")
  /\ loc' = [loc EXCEPT ![c].code = IF lock = c THEN 0 ELSE 1]
  /\ Same /\ H([a |-> c, op |-> "step", cls |-> "lockchk"]) /\ UNCHANGED <<FVars, cnt>>
Num == IF sepoch < 0 THEN 0 ELSE sepoch
Consistent(ce, has, se) == IF OldEpoch THEN ce = se + 1 \/ (ce = 0 /\ se = 0) ELSE ce = (IF has THEN se + 1 ELSE 0)
CEpoch(c) ==
  /\ Step(c, "epoch", IF Consistent(cepoch, sepoch >= 0, Num) THEN "load" ELSE "unlock")
  /\ loc' = [loc EXCEPT ![c].ce = cepoch, ![c].code = IF Consistent(cepoch, sepoch >= 0, Num) THEN 0 ELSE 1]
  /\ Same /\ H([a |-> c, op |-> "step", cls |-> "epoch"]) /\ UNCHANGED <<FVars, cnt>>
CLoad(c) ==
  /\ Step(c, "load", "scan") /\ loc' = [loc EXCEPT ![c].L = logst]
  /\ Same /\ H([a |-> c, op |-> "step", cls |-> "scanlogs"]) /\ UNCHANGED <<FVars, cnt>>
CScan(c) ==
  /\ Step(c, "scan", "bins") /\ loc' = [loc EXCEPT ![c].bins = {Bin(e) : e \in cache}]
  /\ Same /\ H([a |-> c, op |-> "step", cls |-> "scanserials"]) /\ UNCHANGED <<FVars, cnt>>
CRead(c, b) ==
  /\ pc[c] = "bins" /\ b \in loc[c].bins /\ b \notin DOMAIN loc[c].read
  /\ loc' = [loc EXCEPT ![c].read = Upd(@, b, {e \in cache : Bin(e) = b})]
  /\ Same /\ H([a |-> c, op |-> "step", cls |-> "read:" \o b]) /\ UNCHANGED <<FVars, cnt, pc>>
Cov(c, b) == {e \in loc[c].read[b] : CoveredBy(e, loc[c].L)}
CWrite(c, b) ==
  /\ pc[c] = "bins" /\ b \in DOMAIN loc[c].read /\ b \notin loc[c].done
  /\ loc' = [loc EXCEPT ![c].done = @ \cup {b}]
  /\ IF loc[c].read[b] = {} THEN Same
     ELSE StBin(c, b, StoredIn(b) \cup {Ser(e) : e \in Cov(c, b)}, TRUE, FALSE)
  /\ H([a |-> c, op |-> "step", cls |-> "-"]) /\ UNCHANGED <<FVars, cnt, pc>>
CRem(c, b) ==
  /\ pc[c] = "bins" /\ b \in loc[c].done /\ b \in loc[c].bins
  /\ loc' = [loc EXCEPT ![c].bins = @ \ {b}]
  /\ Rem(c, Cov(c, b) \cap cache)
  /\ H([a |-> c, op |-> "step", cls |-> "rem:" \o b]) /\ UNCHANGED <<FVars, cnt, pc>>
CCover(c) ==
  /\ loc[c].bins = {} /\ Step(c, "bins", "expire")
  /\ StCover(c, TRUE, loc[c].L) /\ H([a |-> c, op |-> "step", cls |-> "-"]) /\ UNCHANGED <<FVars, cnt, loc>>
CExpire(c) ==
  /\ pc[c] = "expire"
  /\ IF Expired THEN Same /\ pc' = [pc EXCEPT ![c] = "incr"]
     ELSE (\E b \in Files : Live(b) = "past" /\ StUnlink(c, b)) /\ UNCHANGED pc
  /\ H([a |-> c, op |-> "step", cls |-> "-"]) /\ UNCHANGED <<FVars, cnt, loc>>
CIncr(c) ==
  /\ Step(c, "incr", "efile") /\ EpochC(c, cepoch + 1)
  /\ H([a |-> c, op |-> "step", cls |-> "incr"]) /\ UNCHANGED <<FVars, cnt, loc>>
CEfile(c) ==
  /\ Step(c, "efile", "unlock") /\ StEpoch(c, loc[c].ce, TRUE)
  /\ H([a |-> c, op |-> "step", cls |-> "-"]) /\ UNCHANGED <<FVars, cnt, loc>>
CUnlock(c) ==
  /\ Step(c, "unlock", "end")
  /\ IF lock = c THEN LockDel(c) ELSE Same
  /\ H([a |-> c, op |-> "step", cls |-> "unlock"]) /\ UNCHANGED <<FVars, cnt, loc>>
CEnd(c) ==
  /\ Step(c, "end", "idle") /\ End(c, loc[c].code, FALSE, loc[c].faulty, FALSE, FALSE, TRUE)
  /\ H([a |-> c, op |-> "end"]) /\ UNCHANGED <<FVars, cnt, loc>>
CCrash(c) ==
  /\ pc[c] # "idle" /\ cnt.crash < MaxCrash /\ cnt' = [cnt EXCEPT !.crash = @ + 1]
  /\ pc' = [pc EXCEPT ![c] = "idle"] /\ End(c, -1, TRUE, FALSE, FALSE, FALSE, FALSE)
  /\ H([a |-> c, op |-> "crash"]) /\ UNCHANGED <<FVars, loc>>
\* A cache command or file operation fails; the committer gives up (a failing
\* removal from the cache or a failing increment is only logged).
CFault(c) ==
  /\ pc[c] \in {"chk", "epoch", "load", "scan", "bins", "expire", "incr", "efile"} /\ cnt.fault < MaxFault
  /\ cnt' = [cnt EXCEPT !.fault = @ + 1]
  /\ pc' = [pc EXCEPT ![c] = "unlock"]
  /\ loc' = [loc EXCEPT ![c].code = IF pc[c] = "incr" THEN 0 ELSE 1, ![c].faulty = TRUE]
  /\ Same /\ H([a |-> c, op |-> "fault"]) /\ UNCHANGED FVars
CFaultRem(c, b) ==
  /\ pc[c] = "bins" /\ b \in loc[c].done /\ b \in loc[c].bins /\ cnt.fault < MaxFault
  /\ cnt' = [cnt EXCEPT !.fault = @ + 1]
  /\ loc' = [loc EXCEPT ![c].bins = @ \ {b}, ![c].faulty = TRUE]
  /\ Same /\ H([a |-> c, op |-> "faultrem", cls |-> "rem:" \o b]) /\ UNCHANGED <<FVars, pc>>

\* --------------------------------------------------------------- the fetcher
CV == <<pc, loc>>
\* fl: what the start-up check remembers: the storage generation it has read.
FStart ==     \* start-up check: reads the storage generation
  /\ fpc = "down" /\ cnt.restart < MaxRestart /\ cnt' = [cnt EXCEPT !.restart = @ + 1]
  /\ fpc' = "ecmp" /\ Begin("F", "ensure") /\ fl' = [has |-> sepoch >= 0, se |-> Num]
  /\ H([a |-> "F", op |-> "ensure"]) /\ UNCHANGED <<CV, pos, todo>>
Resume == pos' = [l \in Logs |-> IF \E r \in logst' : r.log = l THEN (CHOOSE r \in logst' : r.log = l).max + 1 ELSE 0]
FCmp ==       \* reads the cache generation
  /\ fpc = "ecmp"
  /\ IF Consistent(cepoch, fl.has, fl.se) THEN fpc' = "eend" /\ UNCHANGED todo
     ELSE fpc' = "elock" /\ todo' = cover.logs
  /\ Same /\ H([a |-> "F", op |-> "estep", cls |-> "epoch"]) /\ UNCHANGED <<CV, pos, fl, cnt>>
FLock ==
  /\ fpc = "elock"
  /\ IF lock = "none" THEN LockSet("F", TRUE) /\ fpc' = (IF OldRewind THEN "edel" ELSE "ere") ELSE Same /\ fpc' = "efail"
  /\ H([a |-> "F", op |-> "estep", cls |-> "lock"]) /\ UNCHANGED <<CV, pos, todo, fl, cnt>>
FRecheck ==   \* nobody else can commit now: read both generations and the coverage again
  /\ fpc = "ere" /\ fl' = [has |-> sepoch >= 0, se |-> Num]
  /\ IF Consistent(cepoch, sepoch >= 0, Num) THEN fpc' = "eunlock" /\ UNCHANGED todo ELSE fpc' = "edel" /\ todo' = cover.logs
  /\ Same /\ H([a |-> "F", op |-> "estep", cls |-> "epoch"]) /\ UNCHANGED <<CV, pos, cnt>>
FDel ==
  /\ fpc = "edel"
  /\ IF logst = {} THEN Same /\ fpc' = "estore"
     ELSE (\E r \in logst : DelLog("F", r.log)) /\ UNCHANGED fpc
  /\ H([a |-> "F", op |-> "estep", cls |-> "dellog"]) /\ UNCHANGED <<CV, pos, todo, fl, cnt>>
FStore ==
  /\ fpc = "estore"
  /\ IF todo = {} THEN Same /\ fpc' = "eset" /\ UNCHANGED todo
     ELSE \E r \in todo : Save("F", r) /\ todo' = todo \ {r} /\ UNCHANGED fpc
  /\ H([a |-> "F", op |-> "estep", cls |-> "savelog"]) /\ UNCHANGED <<CV, pos, fl, cnt>>
FSet ==
  /\ fpc = "eset" /\ fpc' = "eunlock" /\ EpochC("F", IF OldEpoch \/ fl.has THEN fl.se + 1 ELSE 0)
  /\ H([a |-> "F", op |-> "estep", cls |-> "setepoch"]) /\ UNCHANGED <<CV, pos, todo, fl, cnt>>
FUnlock ==
  /\ fpc = "eunlock" /\ fpc' = "eend"
  /\ IF lock = "F" THEN LockDel("F") ELSE Same
  /\ H([a |-> "F", op |-> "estep", cls |-> "unlock"]) /\ UNCHANGED <<CV, pos, todo, fl, cnt>>
FEnd ==
  /\ fpc = "eend" /\ fpc' = "up" /\ End("F", 0, FALSE, FALSE, FALSE, FALSE, TRUE) /\ Resume
  /\ H([a |-> "F", op |-> "eend"]) /\ UNCHANGED <<CV, todo, fl, cnt>>
FFail ==
  /\ fpc = "efail" /\ fpc' = "down" /\ End("F", 1, FALSE, FALSE, FALSE, FALSE, TRUE)
  /\ H([a |-> "F", op |-> "eend"]) /\ UNCHANGED <<CV, pos, todo, fl, cnt>>
Batch(l, n) == {LogSeq[l][i] : i \in (pos[l] + 1)..(pos[l] + n)}
FIngest(l, n) ==
  /\ fpc = "up" /\ pos[l] + n <= Len(LogSeq[l])
  /\ Add("F", {e \in Batch(l, n) : Live(Bin(e)) = "live"}) /\ pos' = [pos EXCEPT ![l] = @ + n]
  /\ H([a |-> "F", op |-> "ingest", e |-> {LogSeq[l][i] : i \in (pos[l] + 1)..(pos[l] + n)}]) /\ UNCHANGED <<CV, fpc, todo, fl, cnt>>
TS(l, i) == cfg.ents[LogSeq[l][i]].ts
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Rec(l) == LET S == {TS(l, i) : i \in 1..pos[l]} IN
  [log |-> l, mmd |-> cfg.mmd[l], min |-> 0, max |-> pos[l] - 1, mints |-> MinOf(S), maxts |-> MaxOf(S), idok |-> TRUE]
FSave(l) ==
  /\ fpc = "up" /\ pos[l] > 0 /\ Rec(l) \notin logst /\ cnt.saves < MaxSaves
  /\ Save("F", Rec(l)) /\ H([a |-> "F", op |-> "save", r |-> Rec(l)])
  /\ cnt' = [cnt EXCEPT !.saves = @ + 1] /\ UNCHANGED <<CV, fpc, pos, todo, fl>>
FCrash ==
  /\ fpc # "down" /\ cnt.crash < MaxCrash /\ cnt' = [cnt EXCEPT !.crash = @ + 1]
  /\ fpc' = "down" /\ (IF Running("F") THEN End("F", -1, TRUE, FALSE, FALSE, FALSE, FALSE) ELSE Same)
  /\ H([a |-> "F", op |-> "fcrash"]) /\ UNCHANGED <<CV, pos, todo, fl>>

\* -------------------------------------------------------------- environment
\* Losing the cache before anything was ever committed leaves no trace; the
\* operator restarts the fetcher then (assumption).
EFlush ==
  /\ cnt.loss < MaxLoss /\ cnt' = [cnt EXCEPT !.loss = @ + 1]
  /\ ~Running("F") /\ (\A c \in C : pc[c] = "idle")
  /\ Flush /\ fpc' = (IF pairst = "ok" THEN fpc ELSE "down") /\ H([a |-> "env", op |-> "flush"]) /\ UNCHANGED <<CV, pos, todo, fl>>
ESnap ==
  /\ cnt.loss < MaxLoss /\ ~snap.has /\ ~Running("F") /\ (\A c \in C : pc[c] = "idle")
  /\ Snap /\ H([a |-> "env", op |-> "snap"]) /\ UNCHANGED <<CV, FVars, cnt>>
ERollback ==
  /\ snap.has /\ cnt.loss < MaxLoss /\ cnt' = [cnt EXCEPT !.loss = @ + 1]
  /\ ~Running("F") /\ (\A c \in C : pc[c] = "idle")
  /\ Rollback /\ fpc' = "down" /\ H([a |-> "env", op |-> "rollback"]) /\ UNCHANGED <<CV, pos, todo, fl>>
EStSnap ==
  /\ cnt.loss < MaxLoss /\ ~ssnap.has /\ ~Running("F") /\ (\A c \in C : pc[c] = "idle")
  /\ StSnap /\ H([a |-> "env", op |-> "stsnap"]) /\ UNCHANGED <<CV, FVars, cnt>>
EStRollback ==
  /\ ssnap.has /\ cnt.loss < MaxLoss /\ cnt' = [cnt EXCEPT !.loss = @ + 1]
  /\ ~Running("F") /\ (\A c \in C : pc[c] = "idle")
  /\ StRollback /\ fpc' = "down" /\ H([a |-> "env", op |-> "strollback"]) /\ UNCHANGED <<CV, pos, todo, fl>>
ELockExpire ==    \* a lock outlives a live holder by assumption (4 hours)
  /\ lock # "none" /\ lock \notin DOMAIN runs
  /\ LockExpire /\ H([a |-> "env", op |-> "lockexpire"]) /\ UNCHANGED <<CV, FVars, cnt>>

Next ==
  \/ \E c \in C : CBegin(c) \/ CLock(c) \/ CChk(c) \/ CEpoch(c) \/ CLoad(c) \/ CScan(c) \/ CCover(c) \/ CExpire(c)
                  \/ CIncr(c) \/ CEfile(c) \/ CUnlock(c) \/ CEnd(c) \/ CCrash(c) \/ CFault(c)
                  \/ (\E b \in Bins : CRead(c, b) \/ CWrite(c, b) \/ CRem(c, b) \/ CFaultRem(c, b))
  \/ FStart \/ FCmp \/ FRecheck \/ FLock \/ FDel \/ FStore \/ FSet \/ FUnlock \/ FEnd \/ FFail \/ FCrash
  \/ (\E l \in Logs : (\E n \in 1..2 : FIngest(l, n)) \/ FSave(l))
  \/ EFlush \/ ESnap \/ ERollback \/ EStSnap \/ EStRollback \/ ELockExpire
Spec == Init /\ [][Next]_vars

\* History variables that cannot influence the future are left out of the view.
View == <<cache, logst, cepoch, lock, stbin, cover, sepoch, ever, acc, exempt, winlost, saved, pairst, snap, ssnap, runs, toks, lastcode, viol, pc, loc, fpc, pos, todo, fl, cnt, ncommit>>

\* Printing behaviours as scripts.
Emit == (Record /\ TLCGet("level") >= Depth) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
