---- MODULE MC2 ----
\* Two logs, two issuers, a commit and an aggregate-known run, files that expire.
EXTENDS MCCommit
Ent(l, i, t, s, b) == [log |-> l, ts |-> t, ser |-> s, bin |-> b, legacy |-> FALSE, idx |-> i]
mcStatic == [bins |-> [b1 |-> [iss |-> "I1", live |-> "live"], b2 |-> [iss |-> "I1", live |-> "live"], b3 |-> [iss |-> "I2", live |-> "live"]],
  ents |-> [e1 |-> Ent("L1", 0, 1000, "01", "b1"), e2 |-> Ent("L1", 1, 4000, "02", "b2"), e3 |-> Ent("L1", 2, 3000, "03", "b1"), e4 |-> Ent("L1", 3, 5001, "04", "b3"),
            f1 |-> Ent("L2", 0, 2000, "01", "b1"), f2 |-> Ent("L2", 1, 4000, "05", "b3")],
  mmd |-> [L1 |-> 1000, L2 |-> 2000], enroll |-> {"I1"}]
mcLogSeq == [L1 |-> <<"e1", "e2", "e3", "e4">>, L2 |-> <<"f1", "f2">>]
mcKind == [c \in C |-> IF c = "C" THEN "commit" ELSE "known"]
====
