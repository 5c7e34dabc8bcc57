SPECIFICATION Spec
CONSTANTS
 Batch = 4
 Depth = 70
 GrowSteps <- G664
 Lies = {"alter","fork","proofbad","empty","down"}
 MaxFault = 1
 MaxKill = 2
 MaxLie = 1
 MaxLoss = 0
 MaxRuns = 8
 MaxTerm = 1
 NoVerify = FALSE
 OldBackfill = FALSE
 OldClaim = FALSE
 OldStart = FALSE
 Record = TRUE
 SaveFirst = FALSE
 Tiled = FALSE
 Unst = {2}
 Width = 3
INVARIANTS A01ok A02ok A03ok A05ok A06ok A07ok S10ok
INVARIANT Emit

CHECK_DEADLOCK FALSE
