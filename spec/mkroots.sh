#!/bin/bash
# writes the configurations of MCRoots: name mode pool rows tries runs kill inplace flag early first last norev record
c() { cat > MCRoots_$1.cfg <<Y
SPECIFICATION MCSpec
CONSTANTS
 Mode = "$2"
 Pool <- $3
 MaxRows = $4
 Tries = $5
 MaxRuns = $6
 MaxKill = $7
 OldInPlace = $8
 OldFlag = $9
 Early = ${10}
 FirstKey = ${11}
 LastRow = ${12}
 NoRev = ${13}
 Record = ${14}
INVARIANTS NoViolation $( [ $8 = FALSE ] && echo WholeFile ) $( [ ${14} = TRUE ] && echo Script )
CHECK_DEADLOCK FALSE
Y
}
F=FALSE; T=TRUE
c read read RowPool 3 1 1 0 $F $F $F $F $F $F $F
c urls read UrlPool 4 1 1 0 $F $F $F $F $F $F $F
c big read RowPool 4 1 1 0 $F $F $F $F $F $F $F
c get get RowPool 1 2 3 2 $F $F $F $F $F $F $F
c sim1 read RowPool 4 1 1 0 $F $F $F $F $F $F $T
c sim2 get RowPool 1 2 3 1 $F $F $F $F $F $F $T
c oldinplace get RowPool 1 2 2 1 $T $F $F $F $F $F $F
c oldflag read UrlPool 4 1 1 0 $F $T $F $F $F $F $F
c early read RowPool 3 1 1 0 $F $F $T $F $F $F $F
c first read UrlPool 4 1 1 0 $F $F $F $T $F $F $F
c last read UrlPool 3 1 1 0 $F $F $F $F $T $F $F
c norev read RowPool 3 1 1 0 $F $F $F $F $F $T $F
