#!/bin/bash
# writes the configurations of MCPublish: name chans runs pubs tamper fail gaps races parts record [switch turned on]
c() { cat > MCPublish_$1.cfg <<Y
SPECIFICATION MCSpec
CONSTANTS
 Channels <- MCChannels
 ChanCfg = "$2"
 MaxRuns = $3
 MaxPubs = $4
 MaxTamper = $5
 MaxFail = $6
 Gaps <- $7
 Races = $8
 Parts = {$9}
 Record = ${10}
$(for s in OldTimes StrMin LazyClear NoRetReview NoVerify NoReady WideClear KeepStray NewestOnly; do echo " $s = $( [ "${11}" = $s ] && echo TRUE || echo FALSE )"; done)
INVARIANTS NoViolation $( [ ${10} = TRUE ] && echo Script )
CHECK_DEADLOCK FALSE
Y
}
F=FALSE; T=TRUE
c tamper one 3 3 1 0 G1 $F "" $F
c fail one 3 3 0 1 G1 $F "" $F
c times one 4 3 0 0 GBack $F "" $F
c two two 3 2 1 1 G1 $F "" $F
c retired retired 2 2 1 1 G1 $F "" $F
c races one 3 3 0 1 G1 $T "" $F
c ints one 2 2 1 1 G1 $F "\"ints\"" $F
c logs one 1 3 2 1 G1 $F "\"logs\"" $F
c big two 4 3 1 1 G13 $F "" $F
c bigt one 4 4 2 1 G13 $F "" $F
c bigi one 2 2 2 2 G1 $F "\"ints\"" $F
c sim1 two 5 5 2 1 GAll $F "\"ints\", \"logs\"" $T
c sim2 retired 4 4 2 2 G12 $F "\"ints\", \"logs\"" $T
c oldtimes one 4 3 0 0 GBack $F "" $F OldTimes
c strmin one 4 3 0 0 G13 $F "" $F StrMin
c lazyclear one 3 3 1 0 G1 $F "" $F LazyClear
c noret retired 2 2 1 1 G1 $F "" $F NoRetReview
c noverify one 2 2 1 1 G1 $F "\"ints\"" $F NoVerify
c noready one 3 3 0 0 G1 $F "" $F NoReady
c wide two 3 2 1 0 G1 $F "" $F WideClear
c stray one 3 3 0 1 G1 $F "" $F KeepStray
c newest one 4 3 0 0 G1 $F "" $F NewestOnly
