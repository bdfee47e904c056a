#!/bin/bash
# rp.sh Cxx...: the drawn cases of properties, outcome in short
for p in "$@"; do VERIF_MS=${MS:-4000} bash /verif/replay.sh $p > /tmp/rp.$p; python3 - $p <<'P'
import json,sys
p=sys.argv[1]; d=json.load(open('/tmp/rp.'+p))
for s in d['stats']: print(p,'evaluations',s['evaluations'],'nontrivial',s['distinct_nontrivial'])
for f in d['fails']: print(p,'FAIL',f.get('violation','')[:1200],'| case',f.get('case_seed'), str(f.get('case'))[:900], '' if 'case' in f else f['output'][-1500:])
for e in d['errors']: print(p,'ERROR',e[-1500:])
P
done
