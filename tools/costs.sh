#!/bin/bash
# runs every check in both tiers and records executions and times in tools/costs.json
cd "$(dirname "$0")/.."
ids=${*:-$(python3 -c "import json;[print(json.loads(l)['id']) for l in open('properties.jsonl')]")}
for i in $ids; do
	for m in quick thorough; do bash check.sh $i $m; done
done | tee /tmp/costs.txt
python3 - <<'P'
import re,json,os
c=json.load(open('tools/costs.json')) if os.path.exists('tools/costs.json') else {}
t={}
for l in open('/tmp/costs.txt'):
    m=re.match(r'property=(\S+) tier=(\S+) executions=(\d+) states=(\d+).*wall=(\S+)s',l)
    if m: t.setdefault(m[1],{})[m[2]]=(int(m[3]),float(m[5]))
for k,v in t.items():
    if len(v)==2: c[k]=' / '.join(f"{v[x][0]:,} executions in {v[x][1]:.0f} s" if v[x][1]>=1 else f"{v[x][0]:,} executions in under 1 s" for x in ('quick','thorough'))
json.dump(c,open('tools/costs.json','w'),indent=1,sort_keys=True)
P
