#!/bin/bash
# run.sh MODULE [CFG]: TLC exhaustively, summary only
cd "$(dirname "$0")"; m=$1; c=${2:-$1}; d=$(mktemp -d)
timeout ${T:-900} tlc -workers 8 -noGenerateSpecTE -metadir $d -config $c.cfg $m.tla > /tmp/$c.out 2>&1; echo rc=$?
grep "^State\|Invariant\|Error\|states generated\|Finished\|viol =" /tmp/$c.out | cut -c1-160 | tail -60; rm -rf "$d"
