SPECIFICATION LiveSpec
CONSTANTS
 Batch = 4
 Depth = 0
 GrowSteps <- G7
 Lies = {"fork"}
 MaxFault = 0
 MaxKill = 0
 MaxLie = 0
 MaxLoss = 0
 MaxRuns = 99
 MaxTerm = 0
 NoVerify = FALSE
 OldBackfill = TRUE
 OldClaim = FALSE
 OldStart = FALSE
 Record = FALSE
 SaveFirst = FALSE
 Tiled = FALSE
 Unst = {2}
 Width = 3
VIEW View
INVARIANTS A01ok A02ok A03ok A05ok A06ok A07ok S10ok
PROPERTY Live
CHECK_DEADLOCK FALSE
