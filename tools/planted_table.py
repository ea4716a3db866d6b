#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (caught: from tools/caught.txt)."""
import json,glob,os,re
d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught=dict(l.split(None,1) for l in open(d+'/tools/caught.txt') if l.strip())
rows=["| id | property | needs | caught by |","|---|---|---|---|"]
for m in sorted(glob.glob(d+'/seeded/*/meta.json'),key=lambda m:(json.load(open(m))['property'],m)):
    i=m.split('/')[-2]; j=json.load(open(m))
    rows.append(f"| {i} | {j['property']} | {j['needs']} | {caught.get(i,'?').strip()} |")
s=open(d+'/DESIGN.md').read()
s=re.sub(r'<!--planted-->.*<!--/planted-->|^PLANTED$',lambda _:'<!--planted-->\n'+'\n'.join(rows)+'\n<!--/planted-->',s,flags=re.S|re.M)
open(d+'/DESIGN.md','w').write(s)
