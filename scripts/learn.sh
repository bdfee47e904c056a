#!/bin/bash
# learn.sh Cxx...: notes which stated invariants do not hold where (saves time later)
cd /verif
[ $# = 0 ] && set -- $(python3 -c "
import sys; sys.path.insert(0,'scripts'); import claims; print(*claims.CLAIMED)")
for p in "$@"; do bin/govc -repo /repo -specs contracts -learned contracts/learned.json -learn -prop $p | tail -1; done
