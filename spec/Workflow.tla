----------------------------- MODULE Workflow -----------------------------
(***************************************************************************)
(* Runs of the workflow: a name is allocated, the run's files are made in  *)
(* a workspace, uploaded to the bucket, and the run is marked complete.    *)
(* Nothing here says which script does what in which order.                *)
(*                                                                         *)
(*   wobj    name of an object -> digest of its content                    *)
(*   wids    run -> [d, n] (date, number) of the runs the bucket holds     *)
(*   wdirs   directories of the workspace                                  *)
(*   wdone   runs that are marked complete; wlast: the last one marked     *)
(*   wart    <<run, directory, "full" or "delta">> -> the revoked serials  *)
(*           that the uploaded filter decides                              *)
(*   wloc    the files of the run that is being marked: path -> digest     *)
(*   won     the current upload: on, run, dry                              *)
(*   wcalm   runs whose making nothing disturbed                           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES wobj, wids, wdirs, wdone, wlast, wart, wloc, won, wviol
wfVars == <<wobj, wids, wdirs, wdone, wlast, wart, wloc, won, wviol>>

WRng(s) == {s[n] : n \in DOMAIN s}
WWhen(c, what) == IF c THEN {what} ELSE {}
WPut(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* the order of runs in which the publisher publishes them *)
Before(x, y) == x.d < y.d \/ (x.d = y.d /\ x.n < y.n)
Earlier(r) == {q \in DOMAIN wids : Before(wids[q], wids[r])}
HasPrev(r) == Earlier(r) # {}
Prev(r) == CHOOSE q \in Earlier(r) : \A p \in Earlier(r) : ~Before(wids[q], wids[p])
Chans == {"clubcard-all", "clubcard-priority"}
HasArt(r, c, k) == <<r, c, k>> \in DOMAIN wart
Art(r, c, k) == wart[<<r, c, k>>]

(* --------------------------------------------------------------- names -- *)
AllocV(code, killed, calm, name, d, n, made, stamp) ==
  IF killed THEN {}
  ELSE IF code # 0 THEN WWhen(calm, <<"W01", "no run could be allocated although nothing stood in the way">>)
  ELSE IF name = "" THEN {<<"W01", "the allocated directory is not there, or its name is no identifier of a run">>}
  ELSE WWhen(name \in DOMAIN wids, <<"W01", "an identifier that the bucket holds already was allocated: " \o name>>)
       \cup WWhen(name \in wdirs \/ ~made, <<"W01", "a directory that existed already was allocated: " \o name>>)
       \cup {<<"W01", "the allocated " \o name \o " does not come after " \o r>> : r \in {q \in DOMAIN wids \ {name} : ~Before(wids[q], [d |-> d, n |-> n])}}
       \cup WWhen(~stamp, <<"W01", "the allocated run carries no time: " \o name>>)

(* ------------------------------------------------------------ completion *)
At(r, p) == r \o "/" \o p
(* the deltas that follow a full filter decide what the next full filter decides *)
DeltaV(r, c) ==
  IF ~(HasArt(r, c, "full") /\ HasArt(r, c, "delta") /\ HasPrev(r)) THEN {}
  ELSE LET p == Prev(r) IN
       IF p \notin wdone \/ ~HasArt(p, c, "full") THEN {}
       ELSE WWhen(~(Art(r, c, "full") \subseteq (Art(p, c, "full") \cup Art(r, c, "delta"))), <<"W03", "revocations are in neither the filter of " \o p \o " nor the delta of " \o r \o " in " \o c>>)
            \cup WWhen(~(Art(r, c, "delta") \subseteq Art(r, c, "full")), <<"W03", "the delta of " \o r \o " is not of that run in " \o c>>)
            \cup WWhen(won.calm /\ wlast = p /\ Art(r, c, "delta") \cap Art(p, c, "full") # {}, <<"W03", "the delta of " \o r \o " repeats what " \o p \o " decides in " \o c>>)
MarkV(r) ==
  WWhen(won.dry, <<"W02", "a dry upload marked a run complete: " \o r>>)
  \cup WWhen(won.run # "" /\ r # won.run, <<"W02", "another run was marked complete: " \o r>>)
  \cup {<<"W02", r \o " was marked complete without " \o p>> : p \in {q \in DOMAIN wloc : At(r, q) \notin DOMAIN wobj \/ wobj[At(r, q)] # wloc[q]}}
  \cup {<<"W02", r \o " was marked complete without a filter in " \o c>> : c \in {x \in Chans : At(r, x \o "/filter") \notin DOMAIN wobj}}
  \cup UNION {DeltaV(r, c) : c \in Chans}
ObjV(x) ==
  WWhen(won.dry, <<"W02", "a dry run uploaded " \o x.name>>)
  \cup WWhen(x.kind = "foreign", <<"W02", "something was uploaded to another bucket">>)
  \cup WWhen(x.run \in wdone /\ x.path # "completed" /\ (x.name \notin DOMAIN wobj \/ wobj[x.name] # x.tok), <<"W02", "a complete run was changed: " \o x.name>>)
  \cup WWhen(x.run # "" /\ won.run # "" /\ x.run # won.run, <<"W02", "the upload of one run changed another: " \o x.name>>)

(* --------------------------------------------------------------- effects *)
NoUpload == [on |-> FALSE, run |-> "", dry |-> FALSE, calm |-> TRUE]
WfInit == wobj = << >> /\ wids = << >> /\ wdirs = {} /\ wdone = {} /\ wlast = "" /\ wart = << >> /\ wloc = << >> /\ won = NoUpload /\ wviol = {}
WfReset == wobj' = << >> /\ wids' = << >> /\ wdirs' = {} /\ wdone' = {} /\ wlast' = "" /\ wart' = << >> /\ wloc' = << >> /\ won' = NoUpload /\ wviol' = {}

Alloc(code, killed, calm, name, d, n, made, stamp, new) ==
  /\ wviol' = AllocV(code, killed, calm, name, d, n, made, stamp) /\ wdirs' = wdirs \cup new
  /\ won' = [won EXCEPT !.calm = calm]
  /\ UNCHANGED <<wobj, wids, wdone, wlast, wart, wloc>>
LocalDir(name) == wdirs' = wdirs \cup {name} /\ wviol' = {} /\ UNCHANGED <<wobj, wids, wdone, wlast, wart, wloc, won>>
Wiped == wdirs' = {} /\ wviol' = {} /\ UNCHANGED <<wobj, wids, wdone, wlast, wart, wloc, won>>
Local(files) == wloc' = files /\ wviol' = {} /\ UNCHANGED <<wobj, wids, wdirs, wdone, wlast, wart, won>>
UpBegin(r, dry) == won' = [won EXCEPT !.on = TRUE, !.run = r, !.dry = dry] /\ wviol' = {} /\ UNCHANGED <<wobj, wids, wdirs, wdone, wlast, wart, wloc>>
UpIs(r) == won' = [won EXCEPT !.run = r] /\ wviol' = {} /\ UNCHANGED <<wobj, wids, wdirs, wdone, wlast, wart, wloc>>
Disturbed == won' = [won EXCEPT !.calm = FALSE] /\ wviol' = {} /\ UNCHANGED <<wobj, wids, wdirs, wdone, wlast, wart, wloc>>
Object(x, by) ==
  /\ wobj' = WPut(wobj, x.name, x.tok)
  /\ wids' = IF x.run # "" THEN WPut(wids, x.run, [d |-> x.d, n |-> x.n]) ELSE wids
  /\ wart' = IF x.kind \in {"full", "delta"} THEN WPut(wart, <<x.run, x.dir, x.kind>>, WRng(x.keys)) ELSE wart
  /\ wdone' = (IF x.kind = "done" THEN wdone \cup {x.run} ELSE wdone) /\ wlast' = (IF x.kind = "done" THEN x.run ELSE wlast)
  /\ wviol' = IF by = "env" THEN {} ELSE ObjV(x) \cup (IF x.kind = "done" /\ x.run \notin wdone THEN MarkV(x.run) ELSE {})
  /\ UNCHANGED <<wdirs, wloc, won>>
Inside(r, nm) == \E p \in {nm} : Len(p) > Len(r) + 1 /\ SubSeq(p, 1, Len(r) + 1) = r \o "/"
(* an object is removed; the run disappears with its last object *)
Removed(nm, run, by) ==
  /\ wobj' = [x \in DOMAIN wobj \ {nm} |-> wobj[x]]
  /\ wids' = IF run \in DOMAIN wids /\ \A x \in DOMAIN wobj \ {nm} : ~Inside(run, x) THEN [x \in DOMAIN wids \ {run} |-> wids[x]] ELSE wids
  /\ wart' = [k \in {k \in DOMAIN wart : At(k[1], k[2] \o (IF k[3] = "full" THEN "/filter" ELSE "/filter.delta")) # nm} |-> wart[k]]
  /\ wdone' = IF nm = run \o "/completed" THEN wdone \ {run} ELSE wdone
  /\ UNCHANGED wlast
  /\ wviol' = IF by = "env" THEN {} ELSE {<<"W02", "an object was removed: " \o nm>>}
  /\ UNCHANGED <<wdirs, wloc, won>>
(* the source materials are uploaded *)
SrcEnd(code, killed, calm, files) ==
  /\ wviol' = (IF killed \/ code # 0 THEN WWhen(~killed /\ calm, <<"W02", "an undisturbed upload of source materials failed">>)
               ELSE {<<"W02", "source material was not uploaded: " \o p>> : p \in {q \in DOMAIN files : ~won.dry /\ (At(won.run, q) \notin DOMAIN wobj \/ wobj[At(won.run, q)] # files[q])}})
  /\ won' = [won EXCEPT !.on = FALSE, !.run = "", !.dry = FALSE] /\ UNCHANGED <<wobj, wids, wdirs, wdone, wlast, wart, wloc>>
(* bad: a collector or generator of this run failed *)
UpEnd(code, killed, calm, sound, bad) ==
  /\ wviol' = WWhen(bad /\ won.run \in wdone, <<"W02", "a run was marked complete although one of its steps failed: " \o won.run>>)
         \cup (IF killed THEN {}
               ELSE IF bad THEN WWhen(code = 0, <<"W02", "a workflow of which a step failed reported success">>)
               ELSE IF code # 0 THEN WWhen(calm /\ sound, <<"W02", "an undisturbed upload failed">>)
               ELSE WWhen(~won.dry /\ won.run \notin wdone, <<"W02", "an upload succeeded without marking the run complete: " \o won.run>>))
  /\ won' = NoUpload /\ UNCHANGED <<wobj, wids, wdirs, wdone, wlast, wart, wloc>>
=============================================================================
