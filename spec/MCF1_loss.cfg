SPECIFICATION Spec
CONSTANTS
 Batch = 4
 Depth = 0
 GrowSteps <- G54
 Lies = {"fork"}
 MaxFault = 0
 MaxKill = 1
 MaxLie = 0
 MaxLoss = 1
 MaxRuns = 4
 MaxTerm = 0
 NoVerify = FALSE
 OldBackfill = FALSE
 OldClaim = FALSE
 OldStart = FALSE
 Record = FALSE
 SaveFirst = FALSE
 Tiled = FALSE
 Unst = {2}
 Width = 3
VIEW View
INVARIANTS A01ok A02ok A03ok A05ok A06ok A07ok S10ok

CHECK_DEADLOCK FALSE
