------------------------------- MODULE Roots -------------------------------
(***************************************************************************)
(* Which issuers a CCADB report enrols, which CRL URLs it discloses for    *)
(* them, and which report a run may use.  Declarative: nothing here says   *)
(* in which order rows are read, certificates verified or files written.   *)
(*                                                                         *)
(*   rcert  certificate -> what it says: key, name, who issued and signed  *)
(*   rrep   report -> whether it is well formed, and its rows              *)
(*   rloc   the reports that the local file may be ([r, fresh])            *)
(*   rserv  the reports served completely in this run                      *)
(*                                                                         *)
(* Where path validation leaves room (a path length that some other path   *)
(* would exceed, key usage absent, a root that is listed as an *)
(* intermediate too, a path through two certificates of one name and key,  *)
(* an "intermediate" that is no CA) Must is the strict and May the lenient *)
(* reading; the code has to be between the two.                            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES rcert, rrep, rloc, rserv, ron, renr, rviol
rootVars == <<rcert, rrep, rloc, rserv, ron, renr, rviol>>

RRng(s) == {s[n] : n \in DOMAIN s}

(* ------------------------------------------------- what a report says -- *)
Of(r, kind) == {n \in DOMAIN rrep[r].rows : LET x == rrep[r].rows[n] IN x.kind = kind /\ ~x.rev /\ x.parse}
RootCerts(r) == {rrep[r].rows[n].c : n \in Of(r, "root")}
InterCerts(r) == {rrep[r].rows[n].c : n \in Of(r, "inter")}

Usable(c) == rcert[c].now /\ rcert[c].tls
Issued(p, c) == rcert[p].subj = rcert[c].iss /\ rcert[p].key = rcert[c].sign
MaySign(p, between, strict) ==
  LET x == rcert[p] IN
  /\ Usable(p) /\ x.ca
  /\ x.ku = "sign" \/ (~strict /\ x.ku = "none")
  /\ x.plen < 0 \/ x.plen >= IF strict THEN Cardinality(DOMAIN rcert) ELSE between

RECURSIVE Chains(_, _, _, _, _)
(* c chains to a root of r; `between` certificates lie between the first one and c's issuer *)
Chains(r, c, between, seen, strict) ==
  \E p \in (RootCerts(r) \cup InterCerts(r)) \ seen :
     /\ Issued(p, c) /\ MaySign(p, between, strict)
     /\ strict => \A q \in seen : ~(rcert[q].subj = rcert[p].subj /\ rcert[q].key = rcert[p].key)
     /\ p \in RootCerts(r) \/ Chains(r, p, between + 1, seen \cup {p}, strict)

MustCerts(r) == {c \in InterCerts(r) : Usable(c) /\ rcert[c].ca /\ Chains(r, c, 0, {c}, TRUE)}
MayCerts(r) == {c \in InterCerts(r) : Usable(c) /\ (c \in RootCerts(r) \/ Chains(r, c, 0, {c}, FALSE))}
KeysOf(cs) == {rcert[c].key : c \in cs}

(* the row that counts of a certificate: its first acceptable one *)
RowOf(r, c) == LET ns == {n \in Of(r, "inter") : rrep[r].rows[n].c = c} IN rrep[r].rows[CHOOSE n \in ns : \A m \in ns : n <= m]
UrlsFor(r, k, cs) == UNION {RRng(RowOf(r, c).urls) : c \in {d \in cs : rcert[d].key = k}}
PartFor(r, k, cs) == \E c \in cs : rcert[c].key = k /\ RowOf(r, c).part

(* -------------------------------------------------- what a run may use -- *)
Ok(r) == r # "" /\ rrep[r].ok
Latest == rserv[Len(rserv)]
Usables ==
  UNION {IF Ok(l.r) /\ l.fresh THEN {l.r}
         ELSE IF rserv # << >> THEN {x \in {Latest.r} : Ok(x)}
         ELSE {x \in {l.r} : Ok(x)} : l \in rloc}
MustRun == \A l \in rloc : (Ok(l.r) /\ l.fresh) \/ (rserv # << >> /\ Ok(Latest.r))

(* ---------------------------------------------------------- properties -- *)
When(cond, what) == IF cond THEN {what} ELSE {}
EnrolledKeys(items) == {x.k : x \in RRng(items)}
V01(r, items) ==
  LET ek == EnrolledKeys(items) IN
  When(~(KeysOf(MustCerts(r)) \subseteq ek), <<"I01", "not enrolled: " \o ToString(KeysOf(MustCerts(r)) \ ek)>>)
  \cup When(~(ek \subseteq KeysOf(MayCerts(r))), <<"I01", "enrolled without being an unrevoked, chaining intermediate of the report: " \o ToString(ek \ KeysOf(MayCerts(r)))>>)
V03(r, items) ==
  LET cs == {x.c : x \in RRng(items)} IN
  When(KeysOf(MustCerts(r)) \subseteq EnrolledKeys(items) /\ ~(MustCerts(r) \subseteq cs), <<"I03", "certificates missing from the enrolled list: " \o ToString(MustCerts(r) \ cs)>>)
  \cup When(EnrolledKeys(items) \subseteq KeysOf(MayCerts(r)) /\ ~(cs \subseteq MayCerts(r)), <<"I03", "foreign certificates in the enrolled list: " \o ToString(cs \ MayCerts(r))>>)
  \cup {<<"I03", "entry does not describe its certificate: " \o x.c>> : x \in {y \in RRng(items) : ~y.ok}}
  \cup When(Cardinality(cs) # Len(items), <<"I03", "certificate listed twice">>)
V02(r, items, asked, seen, withUrls) ==
  LET ek == EnrolledKeys(items)
      U(k) == {x.u : x \in {y \in RRng(asked) : y.k = k}}
      part == {x.k : x \in {y \in RRng(items) : y.part}}
      todo == UNION {UrlsFor(r, k, MustCerts(r)) : k \in ek}
  IN {<<"I02", "URLs disclosed but not used for " \o k \o ": " \o ToString(UrlsFor(r, k, MustCerts(r)) \ U(k))>> : k \in {j \in ek : withUrls /\ ~(UrlsFor(r, j, MustCerts(r)) \subseteq U(j))}}
     \cup {<<"I02", "URLs used but not disclosed for " \o k \o ": " \o ToString(U(k) \ UrlsFor(r, k, MayCerts(r)))>> : k \in {j \in {x.k : x \in RRng(asked)} : withUrls /\ ~(U(j) \subseteq UrlsFor(r, j, MayCerts(r)))}}
     \cup When(withUrls /\ ~(todo \subseteq RRng(seen)), <<"I02", "URLs never requested: " \o ToString(todo \ RRng(seen))>>)
     \cup {<<"I02", "partitioned CRLs disclosed but their distribution points are not checked for " \o k>> : k \in {j \in ek : PartFor(r, j, MustCerts(r)) /\ ~(\A x \in RRng(items) : x.k = j => x.part)}}
     \cup {<<"I02", "no partitioned CRLs disclosed for " \o k>> : k \in {j \in part : ~PartFor(r, j, MayCerts(r))}}

Judge(r, items, asked, seen, withUrls) == V01(r, items) \cup V03(r, items) \cup V02(r, items, asked, seen, withUrls)

(* ------------------------------------------------------------- effects -- *)
RootsReset(cs, rs) ==
  /\ rcert' = cs /\ rrep' = rs /\ rloc' = {[r |-> "", fresh |-> FALSE]} /\ rserv' = << >> /\ ron' = FALSE /\ renr' = {} /\ rviol' = {}

Local(r, fresh) == rloc' = {[r |-> r, fresh |-> fresh]} /\ rviol' = {} /\ UNCHANGED <<rcert, rrep, rserv, ron, renr>>

RootsBegin == ron' = TRUE /\ rserv' = << >> /\ renr' = {} /\ rviol' = {} /\ UNCHANGED <<rcert, rrep, rloc>>

Served(r, ok, fresh) ==
  /\ rserv' = IF ok THEN Append(rserv, [r |-> r, fresh |-> fresh]) ELSE rserv
  /\ rviol' = {} /\ UNCHANGED <<rcert, rrep, rloc, ron, renr>>

RootsEnd(code, killed, has, items, asked, seen, withUrls) ==
  /\ ron' = FALSE /\ rserv' = << >>
  /\ rloc' = IF rserv = << >> THEN rloc
             ELSE (IF code = 0 THEN {} ELSE rloc) \cup {[r |-> Latest.r, fresh |-> Latest.fresh]} \cup {l \in rloc : Ok(l.r) /\ l.fresh}
  /\ renr' = IF code = 0 THEN EnrolledKeys(items) ELSE {}
  /\ rviol' = IF killed THEN {}
              ELSE IF code # 0 THEN When(MustRun, <<"I01", "a well-formed report was refused">>)
              ELSE IF ~has THEN {<<"I03", "the run succeeded but left no readable enrolled list">>}
              ELSE IF Usables = {} THEN {<<"I01", "issuers enrolled although no complete, well-formed report was at hand">>}
              ELSE IF \E r \in Usables : Judge(r, items, asked, seen, withUrls) = {} THEN {}
              ELSE Judge(CHOOSE r \in Usables : TRUE, items, asked, seen, withUrls)
  /\ UNCHANGED <<rcert, rrep>>

(* the next command read the enrolled list; there was something to tell about every key *)
Known(code, lists, keys) ==
  /\ rviol' = When(code # 0, <<"I03", "the enrolled list could not be loaded">>)
      \cup (IF code # 0 THEN {} ELSE
           When(~(renr \cap RRng(keys) \subseteq {x.k : x \in RRng(lists)}), <<"I03", "issuers lost on loading: " \o ToString(renr \ {x.k : x \in RRng(lists)})>>)
           \cup When(~({x.k : x \in RRng(lists)} \subseteq renr), <<"I03", "issuers appeared on loading: " \o ToString({x.k : x \in RRng(lists)} \ renr)>>)
           \cup {<<"I03", "wrong certificates for " \o x.k>> : x \in {y \in RRng(lists) : ~y.ok}})
  /\ UNCHANGED <<rcert, rrep, rloc, rserv, ron, renr>>
=============================================================================
