#!/bin/bash
# developer helper: run one harness and summarise
T=${2:-300}
timeout $((T+60)) /verif/build/nvh run $1 /tmp/o.$1.json 1 $T || exit 1
python3 - $1 <<'P'
import json,sys
d=json.load(open('/tmp/o.%s.json'%sys.argv[1]))
print(d['harness'],'complete',d['complete'],d['why'],'wall',d['wall_s'],'paths',d['paths'],'pruned',d['pruned'],'solver',d['solver_calls'],d['solver_ms'],'divs',d['divisors_assumed_nonzero'])
by={}
for l,o in d['obligations'].items():
    for k,v in o.items():
        by[k]=by.get(k,0)+v
print(by); print(d['covers'])
print('failures',len(d['failures']))
for f in d['failures'][:int(__import__('os').environ.get('NF','3'))]: print('FAIL',f['label'],f['kind'],f['detail'][:500],str(f['witness'])[:300])
P
