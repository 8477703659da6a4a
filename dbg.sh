#!/bin/bash
# summary of distinct failures
cd /verif; ./check.sh "$@" > /tmp/dbg.out 2>&1
python3 - <<'P'
import glob,json,collections,re,os
c=collections.Counter(); ex={}
for f in glob.glob('/verif/.build/replay/*-all.json'):
    pass
d=json.load(open('/verif/.build/replay/last.json'))
for v in d:
    m=re.search(r'error: (.*)',v['detail'])
    k=v['ob']+': '+(m.group(1) if m else v['detail'][:150])
    c[k]+=1; ex.setdefault(k,v['case'])
for k,n in c.most_common(15): print(n,k[:200],ex[k])
P
tail -1 /tmp/dbg.out; grep -h ERROR /tmp/dbg.out | head -5 | cut -c1-600
