#!/bin/bash
# verify single functions: vf.sh [-p Cxx] func...
cd /verif
P=""
if [ "$1" = -p ]; then P="-prop $2"; shift 2; fi
for f in "$@"; do
 case $f in
  .*) k="xpdf.(*table)$f";;
  @*) k="xpdf.(*Processor).${f#@}";;
  *) k=$f;;
 esac
 echo "== $k"; timeout ${TO:-600} ${GOVC:-bin/govc} -repo /repo -specs contracts $P -func "$k" $V 2>&1 | tail -${N:-25}
done
