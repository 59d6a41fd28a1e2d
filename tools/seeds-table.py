#!/usr/bin/env python3
# rewrites the table of seeded bugs in DESIGN.md
import json,os,re
v=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..')
d=v+'/seeded'
t='| bug | property | needs |\n|---|---|---|\n'
rows=[(json.load(open(f'{d}/{i}/meta.json')),i) for i in os.listdir(d)]
for m,i in sorted(rows,key=lambda r:(r[0]['property'],r[1])): t+=f"| {i} | {m['property']} | {m['needs']} |\n"
s=open(v+'/DESIGN.md').read()
s=re.sub(r'<!-- seeds -->.*?<!-- /seeds -->',lambda _:'<!-- seeds -->\n'+t+'<!-- /seeds -->',s,flags=re.S)
open(v+'/DESIGN.md','w').write(s)
