#!/bin/bash
# run the bounded check of the given properties for a few seconds: tools/o.sh SECS ID...
cd "$(dirname "$0")/.."; S=$1; shift
for i in "$@"; do PYTHONHASHSEED=0 python3-vt -B oracles/run.py $i quick 1 $S 8 /tmp/o_$i.json; python3 - $i <<'E'
import json,sys
r=json.load(open('/tmp/o_%s.json'%sys.argv[1]))
print(sys.argv[1], r['evaluations'], r['distinct_nontrivial'], 'fails', len(r['fails']), 'lost', r['lost_workers'], '%.1fs'%r['wall_s'])
seen=set()
for c,m in r['fails']:
    k=m[:40]
    if k in seen: continue
    seen.add(k); print('   ', json.dumps(c)[:300], '\n      ->', m[:300])
    if len(seen)>5: break
E
done
