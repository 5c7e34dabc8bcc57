-------------------------------- MODULE Crl --------------------------------
\* Revocation lists: what CRL servers answer, which copies are kept, which lists
\* and which audit a run leaves behind, and what must hold of them (R01-R07).
\*
\* The effects are permissive about how a run goes about its work (order, number
\* of attempts, names of files): it is judged by what it leaves behind.
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  cis,    \* issuer -> set of its CRL URLs
  cont,   \* content -> [valid: issuers whose key signed it (complete and unaltered), proc: it can be processed,
          \*             ent: its entries (reason and serial), dp: URLs its distribution point names, dpk: dp is judged]
  part,   \* issuers which disclose partitioned CRLs
  local,  \* issuer -> url -> content of the copy kept ("none", or "bad" for something unusable)
  left,   \* url -> contents of which a part (or, to a run that did not end, the whole) was sent
  served, \* url -> sequence of answers in this run: [ok: complete, c: content, any: some content was sent]
  disk,   \* issuer -> sequence of contents of its files ("?" for anything unknown)
  lists,  \* issuer -> [has, ent, junk]
  crun,   \* [on, kills]
  cviol   \* properties broken by the last effect

crlVars == <<cis, cont, part, local, left, served, disk, lists, crun, cviol>>

CV(p, why) == {<<p, why>>}
CIf(c, s) == IF c THEN s ELSE {}
Issuers == DOMAIN cis
Urls == UNION {cis[i] : i \in Issuers}
NoList == [has |-> FALSE, ent |-> {}, junk |-> FALSE]
Rng(s) == {s[k] : k \in DOMAIN s}

CrlStart(ci, pa) ==
  LET us == UNION {ci[i] : i \in DOMAIN ci} IN
  [cis |-> ci, part |-> pa, local |-> [i \in DOMAIN ci |-> [u \in ci[i] |-> "none"]], left |-> [u \in us |-> {}],
   served |-> [u \in us |-> << >>], disk |-> [i \in DOMAIN ci |-> << >>], lists |-> [i \in DOMAIN ci |-> NoList]]

CrlInit(ci, pa) ==
  LET s == CrlStart(ci, pa) IN
  /\ cis = s.cis /\ part = s.part /\ cont = << >> /\ local = s.local /\ left = s.left /\ served = s.served /\ disk = s.disk /\ lists = s.lists
  /\ crun = [on |-> FALSE, kills |-> 0] /\ cviol = {}

CrlReset(ci, pa) ==
  LET s == CrlStart(ci, pa) IN
  /\ cis' = s.cis /\ part' = s.part /\ cont' = << >> /\ local' = s.local /\ left' = s.left /\ served' = s.served /\ disk' = s.disk /\ lists' = s.lists
  /\ crun' = [on |-> FALSE, kills |-> 0] /\ cviol' = {}

AddContent(c, r) == cont' = (c :> r) @@ cont /\ cviol' = {} /\ UNCHANGED <<cis, part, local, left, served, disk, lists, crun>>

Valid(i, c) == c \in DOMAIN cont /\ i \in cont[c].valid

BeginRun ==
  /\ served' = [u \in Urls |-> << >>]
  /\ lists' = [i \in Issuers |-> NoList]          \* every run writes to a folder of its own
  /\ crun' = [crun EXCEPT !.on = TRUE] /\ cviol' = {}
  /\ UNCHANGED <<cis, cont, part, local, left, disk>>

\* An answer to a request for u: ok if it was complete; any if any content came with it.
Answer(u, ok, c, any) ==
  /\ served' = [served EXCEPT ![u] = Append(@, [ok |-> ok, c |-> c, any |-> any])]
  /\ left' = IF any /\ ~ok THEN [left EXCEPT ![u] = @ \cup {c}] ELSE left
  /\ cviol' = {}
  /\ UNCHANGED <<cis, cont, part, local, disk, lists, crun>>

\* Someone damages or removes the copy of u.
Spoil(i, u) == local' = [local EXCEPT ![i][u] = "bad"] /\ cviol' = {} /\ UNCHANGED <<cis, cont, part, left, served, disk, lists, crun>>

\* ------------------------------------------------------------- expectations
\* valid contents the run may have obtained for u
Got(i, u) == {c \in left[u] \cup {a.c : a \in {b \in Rng(served[u]) : b.ok}} : Valid(i, c)}
MayKeep(i, u) == {local[i][u]} \cup Got(i, u)
Last(u) == served[u][Len(served[u])]
\* the last answer was complete and valid
Fresh(i, u) == served[u] # << >> /\ Last(u).ok /\ Valid(i, Last(u).c)
\* what the copy of u may be when the run is over
Final(i, u) == IF Fresh(i, u) THEN {Last(u).c}
               ELSE IF Got(i, u) # {} THEN MayKeep(i, u) ELSE {local[i][u]}
Good(i, u, c) == Valid(i, c) /\ cont[c].proc
Ents(cs) == UNION {cont[c].ent : c \in cs}

\* ------------------------------------------------------------------ copies
\* R04 at every moment: nothing but valid answers appears; a usable copy disappears only for a valid answer.
R04(d) == \A i \in Issuers :
  /\ \A c \in Rng(d[i]) : c \in Rng(disk[i]) \/ \E u \in cis[i] : c \in MayKeep(i, u)
  /\ \A u \in cis[i] : Valid(i, local[i][u]) => \E c \in MayKeep(i, u) : Valid(i, c) /\ c \in Rng(d[i])

Copies(d, spoiled) ==
  /\ disk' = d
  /\ cviol' = CIf(~spoiled /\ ~R04(d), CV("R04", "a copy is replaced by something that is not a complete valid answer"))
  /\ UNCHANGED <<cis, cont, part, local, left, served, lists, crun>>

\* ------------------------------------------------------------------- lists
\* the unions of entries that come of picking a usable content for each URL of i; none if a URL has no usable content
RECURSIVE Unions(_, _, _, _)
Unions(i, us, S(_), acc) ==
  IF us = {} THEN acc
  ELSE LET u == CHOOSE x \in us : TRUE
       IN Unions(i, us \ {u}, S, {e \cup x : e \in acc, x \in {cont[c].ent : c \in {y \in S(u) : Good(i, u, y)}}})
Choices(i, S(_)) == Unions(i, cis[i], S, {{}})
Authentic(i) == Ents({c \in DOMAIN cont : i \in cont[c].valid /\ \E u \in cis[i] : c \in MayKeep(i, u)})
\* at any end, even of a run that was killed
ListBad(l) == UNION {
  IF ~l[i].has THEN {}
  ELSE LET May(u) == MayKeep(i, u)
           ch == Choices(i, May)
       IN CIf(l[i].junk \/ ~(l[i].ent \subseteq Authentic(i)), CV("R01", "a list has an entry that no valid CRL of its issuer has"))
          \cup CIf(cis[i] # {} /\ ch = {}, CV("R02", "a list is written though a CRL of its issuer is missing"))
          \cup CIf(ch # {} /\ l[i].ent \subseteq Authentic(i) /\ l[i].ent \notin ch, CV("R02", "a list is incomplete"))
  : i \in Issuers}

\* ---------------------------------------------------------------- the audit
FailKinds == {"Failed Download", "Failed Verify", "Failed Process Local", "Older Than Previous", "Wrong distribution point"}
DlKinds == {"Failed Download", "Failed Verify"}
Kinds(a, i, u) == {e.k : e \in {x \in a : x.i = i /\ x.u = u}}
WrongDP(i, u, c) == i \in part /\ cont[c].dpk /\ (u \notin cont[c].dp \/ (cont[c].dp \cap cis[i]) # {u})
AuditBad(a, d, l, fault) ==
  UNION {UNION {
    LET ks == Kinds(a, i, u)
        obtained == \E c \in Got(i, u) : c \in Rng(d[i])
        clean == Fresh(i, u) /\ \A b \in Rng(served[u]) : b.ok
        fin == Final(i, u) \cap Rng(d[i])
        noproc == \A c \in fin : Valid(i, c) => ~cont[c].proc
        usable == \E c \in fin : Valid(i, c)
        judged == \A c \in fin : Valid(i, c) => cont[c].dpk
    IN CIf(~obtained /\ ks \cap DlKinds = {}, CV("R06", "a CRL that was not obtained is not in the audit"))
       \cup (IF fault THEN {} ELSE
             CIf(served[u] # << >> /\ (\A b \in Rng(served[u]) : ~b.any) /\ "Failed Download" \notin ks, CV("R06", "a failed download is not in the audit"))
             \cup CIf(served[u] # << >> /\ (\A b \in Rng(served[u]) : b.ok) /\ ~Fresh(i, u) /\ "Failed Verify" \notin ks, CV("R06", "a CRL that does not verify is not in the audit"))
             \cup CIf(served[u] # << >> /\ (\A b \in Rng(served[u]) : b.ok) /\ "Failed Download" \in ks, CV("R06", "the audit reports a failed download of a CRL that was downloaded"))
             \cup CIf(Fresh(i, u) /\ ks \cap DlKinds # {}, CV("R06", "the audit reports a failure of a CRL that was obtained"))
             \cup CIf(usable /\ noproc /\ "Failed Process Local" \notin ks, CV("R06", "a CRL that cannot be processed is not in the audit"))
             \cup CIf(~noproc /\ (\A c \in fin : Valid(i, c) => cont[c].proc) /\ "Failed Process Local" \in ks, CV("R06", "the audit reports a CRL as not processed that can be"))
             \cup CIf("Older Than Previous" \in ks /\ Fresh(i, u), CV("R06", "the audit reports a CRL as old that was used"))
             \cup CIf(judged /\ usable /\ (\A c \in fin : Valid(i, c) => WrongDP(i, u, c)) /\ "Wrong distribution point" \notin ks, CV("R06", "a CRL with another distribution point is not in the audit"))
             \cup CIf(judged /\ (\A c \in fin : Valid(i, c) => ~WrongDP(i, u, c)) /\ "Wrong distribution point" \in ks, CV("R06", "the audit complains about a distribution point without reason")))
  : u \in cis[i]}
  \cup CIf(fault /\ cis[i] # {} /\ ~l[i].has /\ (\A u \in cis[i] : Kinds(a, i, u) \cap FailKinds = {}) /\ (\A u \in cis[i] : \E c \in MayKeep(i, u) : Good(i, u, c) /\ cont[c].ent # {}),
           CV("R06", "a list is missing and the audit does not say why"))
  : i \in Issuers}
  \cup CIf(\E e \in a : e.i \notin Issuers \/ e.u \notin cis[e.i], CV("R06", "the audit names a CRL that was not asked for"))

\* ------------------------------------------------------------- ends of runs
\* What a run that reports success must have left behind.
Complete(d, l) ==
  UNION {
    LET Fin(u) == Final(i, u)
        es == Choices(i, Fin)
        sure == \A u \in cis[i] : \A c \in Final(i, u) : Good(i, u, c)
    IN UNION {CIf((\A c \in Final(i, u) : Valid(i, c)) /\ Final(i, u) \cap Rng(d[i]) = {},
                  CV(IF Len(d[i]) < Cardinality(cis[i]) THEN "R05" ELSE "R04", "the copy of a CRL is missing")) : u \in cis[i]}
       \cup (IF cis[i] = {} THEN CIf(l[i].has /\ l[i].ent # {}, CV("R01", "a list of an issuer without CRLs"))
             ELSE IF es = {} THEN CIf(l[i].has, CV("R02", "a list is written though a CRL of its issuer is missing"))
             ELSE CIf(~l[i].has /\ sure /\ {} \notin es, CV("R02", "there is no list though all CRLs are good"))
                  \cup CIf(l[i].has /\ (l[i].ent \notin es \/ l[i].junk), CV("R03", "a list is not the union of the CRLs")))
    : i \in Issuers}

\* R05: as many files as URLs, and not new ones in every run.
TooMany(d) == \E i \in Issuers : Len(d[i]) > Cardinality(cis[i]) + crun.kills

EndRun(code, killed, sig, fault, hang, hasaudit, audit) ==
  LET full == IF fault THEN {} ELSE Complete(disk, lists)
      done == code = 0 /\ ~killed
      ab == IF hasaudit THEN AuditBad(audit, disk, lists, fault) ELSE CV("R06", "there is no audit")
  IN
  /\ crun' = [on |-> FALSE, kills |-> crun.kills + (IF killed \/ code # 0 THEN 1 ELSE 0)]
  /\ local' = [i \in Issuers |-> [u \in cis[i] |->
        LET new == {c \in Got(i, u) \ {local[i][u]} : c \in Rng(disk[i])}
        IN IF Fresh(i, u) /\ Last(u).c \in Rng(disk[i]) THEN Last(u).c
           ELSE IF new # {} /\ local[i][u] \notin Rng(disk[i]) THEN CHOOSE c \in new : TRUE ELSE local[i][u]]]
  /\ left' = [u \in Urls |-> IF done THEN {} ELSE left[u] \cup {a.c : a \in Rng(served[u])}]
  /\ cviol' =
       ListBad(lists)
       \cup (IF done /\ sig THEN CIf(full \cup ab # {}, CV("R07", "an interrupted run reports success"))
             ELSE IF done THEN full \cup ab
             ELSE {})
       \cup CIf(~done /\ ~killed /\ ~sig /\ ~fault, CV("R02", IF hang THEN "the run does not end" ELSE "the run fails because of a CRL"))
       \cup CIf(TooMany(disk), CV("R05", "one CRL is kept in more than one file"))
  /\ UNCHANGED <<cis, cont, part, served, disk, lists>>

Lists(l) == lists' = l /\ cviol' = {} /\ UNCHANGED <<cis, cont, part, local, left, served, disk, crun>>
=============================================================================
