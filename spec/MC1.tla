---- MODULE MC1 ----
\* One log, two bins of one issuer, one committer.
EXTENDS MCCommit
CONSTANT NE
E1 == [log |-> "L1", ts |-> 1000, ser |-> "01", bin |-> "b1", legacy |-> FALSE, idx |-> 0]
E2 == [log |-> "L1", ts |-> 4000, ser |-> "02", bin |-> "b2", legacy |-> FALSE, idx |-> 1]
E3 == [log |-> "L1", ts |-> 3001, ser |-> "03", bin |-> "b1", legacy |-> FALSE, idx |-> 2]
mcStatic == [bins |-> [b1 |-> [iss |-> "I1", live |-> "live"], b2 |-> [iss |-> "I1", live |-> "live"]],
  ents |-> [e1 |-> E1, e2 |-> E2, e3 |-> E3],
  mmd |-> [L1 |-> 1000], enroll |-> {"I1"}]
mcLogSeq == [L1 |-> SubSeq(<<"e1", "e2", "e3">>, 1, NE)]
mcKind == [c \in C |-> "commit"]
====
