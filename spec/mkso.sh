#!/bin/bash
# writes the configurations of MCSignoff: name edits runs faults record [switch turned on]
c() { cat > MCSignoff_$1.cfg <<Z
SPECIFICATION MCSpec
CONSTANTS
 MaxEdit = $2
 MaxRun = $3
 MaxFault = $4
 Record = $5
$(for s in Blind Always NoGate Swallow Reread; do echo " $s = $( [ "$6" = $s ] && echo TRUE || echo FALSE )"; done)
INVARIANTS NoViolation $( [ $5 = TRUE ] && echo Script )
$( [ $5 = TRUE ] || echo "VIEW View" )
CHECK_DEADLOCK FALSE
Z
}
c base 4 2 1 FALSE
c big 6 3 2 FALSE
c sim1 7 4 2 TRUE
for s in Blind Always NoGate Swallow Reread; do c $(echo $s | tr A-Z a-z) 4 2 1 FALSE $s; done
