#!/bin/bash
# writes the configurations of MCR1: name urls kinds tries runs kill term fault spoil oldexit oldlist oldname oldaudit noverify inplace record
c() { cat > MCR1_$1.cfg <<X
SPECIFICATION ${17:-MCSpec}
CONSTANTS
 UrlsOf <- $2
 Kinds0 = {$3}
 Tries = $4
 MaxRuns = $5
 MaxKill = $6
 MaxTerm = $7
 MaxFault = $8
 MaxSpoil = $9
 OldExit = ${10}
 OldList = ${11}
 OldName = ${12}
 OldAudit = ${13}
 NoVerify = ${14}
 InPlace = ${15}
 Record = ${16}
 Depth = 80
INVARIANTS NoViolation $( [ ${16} = TRUE ] && echo Script )
$( [ "${17}" ] && echo PROPERTY Ends )
CHECK_DEADLOCK FALSE
X
}
F=FALSE; T=TRUE
c one One '"1","2","f","fail","cut","p"' 2 2 1 0 1 1 $F $F $F $F $F $F $F
c sig One '"1","2","fail"' 1 2 1 1 0 0 $F $F $F $F $F $F $F
c two Two '"1","f","fail"' 1 2 1 1 0 1 $F $F $F $F $F $F $F
c big Two '"1","2","f","fail","p"' 1 2 1 1 1 0 $F $F $F $F $F $F $F
c three Lone '"1","2","f","fail","cut","p"' 2 3 1 1 1 1 $F $F $F $F $F $F $F
c live Two '"1","f","fail"' 1 2 0 1 0 0 $F $F $F $F $F $F $F MCFair
c oldexit Two '"1","fail"' 1 1 0 1 0 0 $T $F $F $F $F $F $F
c oldlist One '"1"' 1 1 1 0 0 0 $F $T $F $F $F $F $F
c oldname One '"1"' 1 1 0 0 0 0 $F $F $T $F $F $F $F
c oldaudit One '"1"' 1 1 0 0 1 0 $F $F $F $T $F $F $F
c noverify One '"1","f"' 1 2 0 0 0 0 $F $F $F $F $T $F $F
c inplace One '"1","2"' 1 2 1 0 0 0 $F $F $F $F $F $T $F
c sim1 Two '"1","2","f","fail","cut","p"' 2 3 1 1 1 1 $F $F $F $F $F $F $T
c sim2 One '"1","2","f","fail","cut","p"' 2 4 2 1 1 2 $F $F $F $F $F $F $T
