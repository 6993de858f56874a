#!/usr/bin/env python3
"""Writes the table of planted changes into DESIGN.md."""
import json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows=['| change | property (caught by) | needs | breaks |','|---|---|---|---|']
for n in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{n}/meta.json'))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
p=V+'/DESIGN.md'; s=open(p).read()
s=re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)',lambda x:x[1]+'\n'.join(rows)+'\n'+x[2],s,flags=re.S)
open(p,'w').write(s)
