#!/bin/bash
# replay.sh Cxx: runs the drawn case VERIF_CASE (or all) of a property on /repo
cd "$(dirname "$0")" && exec python3 check.py replay "$@"
