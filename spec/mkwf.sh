#!/bin/bash
# writes the configurations of MCWorkflow: name runs fail day again serials record [switch turned on]
c() { cat > MCWorkflow_$1.cfg <<Y
SPECIFICATION MCSpec
CONSTANTS
 MaxRuns = $2
 MaxFail = $3
 MaxDay = $4
 MaxAgain = $5
 Ser = {$6}
 Record = $7
$(for s in DateRestart BucketOnly Reuse OneLatest LatestFirst MarkEarly GoOn StrOrder; do echo " $s = $( [ "$8" = $s ] && echo TRUE || echo FALSE )"; done)
INVARIANTS NoViolation $( [ $7 = TRUE ] && echo Script )
$( [ $7 = TRUE ] || echo "VIEW View" )
CHECK_DEADLOCK FALSE
Y
}
c one 3 1 1 1 '"a"' FALSE
c two 2 1 0 0 '"a", "b"' FALSE
c days 3 1 2 0 '"a"' FALSE
c big 3 2 1 1 '"a"' FALSE
c many 12 0 0 0 '' FALSE
c sim1 5 2 2 1 '"a", "b"' TRUE
c daterestart 3 0 1 0 '"a"' FALSE DateRestart
c bucketonly 3 1 0 0 '"a"' FALSE BucketOnly
c reuse 3 1 0 0 '"a"' FALSE Reuse
c onelatest 3 0 0 0 '"a"' FALSE OneLatest
c latestfirst 3 1 1 1 '"a"' FALSE LatestFirst
c markearly 2 0 0 0 '"a"' FALSE MarkEarly
c goon 2 1 0 0 '"a"' FALSE GoOn
c strorder 12 0 0 0 '' FALSE StrOrder
