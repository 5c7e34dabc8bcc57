SPECIFICATION MCSpec
CONSTANTS
 MaxEdit = 4
 MaxRun = 2
 MaxFault = 1
 Record = FALSE
 Blind = FALSE
 Always = FALSE
 NoGate = TRUE
 Swallow = FALSE
 Reread = FALSE
INVARIANTS NoViolation 
VIEW View
CHECK_DEADLOCK FALSE
