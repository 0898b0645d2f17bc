#!/bin/bash
# development helper: build + run a harness, list violation keys with one message each
cd /verif; python3 run_check.py $1 --gen-deps || exit 1
san=$(grep -m1 '^// MC-SAN:' harness/$1.cpp | sed 's/.*: *//; s/[^a-zA-Z0-9_]\+/_/g'); san=${san:-plain}
ASAN_OPTIONS=detect_leaks=0:abort_on_error=1 .build/$san/$1.min --out /tmp/$1.json "${@:2}"
python3 - $1 <<'P'
import json,sys
r=json.load(open('/tmp/%s.json'%sys.argv[1]))
for p in r['parts']: print('%-24s cases %d evals %d states %d trans %d traces %d distinct %d abn %d %.2fs'%(p['name'],p['cases'],p['evals'],p['states'],p['transitions'],p['traces'],p['distinct'],p['abnormal'],p['wall']))
k={}
for v in r['violations']: k.setdefault(v['key'],[]).append(v)
print(len(k),'violation keys')
for q in sorted(k): print(' ',q,'x%d'%len(k[q]),'|',k[q][0]['part'],k[q][0]['idx'],k[q][0]['msg'][:300])
P
