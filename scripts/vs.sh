#!/bin/bash
# failures; I=1 also the invariants found; A=1 also those dropped
x='objects older\|^ *pc:\|^ *goal:\|counts iterations\|loop condition\|does not fall\|is kept\|grows by one'
[ -n "$A" ] || x="$x\|dropped\|not invariant"
[ -n "$A$I" ] || x="$x\|  invariant"
N=4000 V=-v /verif/scripts/vf.sh "$@" | grep -v "$x" | cut -c1-${W:-230}
