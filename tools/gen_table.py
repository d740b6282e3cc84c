#!/usr/bin/env python3
"""Rewrites section 7 of DESIGN.md from seeded/*/meta.json."""
import json,os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED={}
rows=["| Planted change | Needs | Breaks | Caught by |","|---|---|---|---|"]
c=lambda s:" ".join(str(s).split()).replace("|","/")
for d in sorted(os.listdir(R+'/seeded')):
    m=json.load(open(f'{R}/seeded/{d}/meta.json'))
    rows.append(f"| {d} | {c(m['needs'])} | {c(m['what_it_breaks'])} | {MISSED.get(d,m['property']+' quick')} |")
t=open(R+'/DESIGN.md').read()
mark='"after ..." names the strengthening that a miss led to.\n\n' if '"after ..." names' in t else 'then run against the quick check of their property.\n\n'
i=t.index(mark)+len(mark)
t=t[:i]+"\n".join(rows)+"\n"
open(R+'/DESIGN.md','w').write(t)
