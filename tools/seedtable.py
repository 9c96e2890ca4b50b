#!/usr/bin/env python3
# rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and a results file
# ("id(prop) demo=0/1 tests=ok CHECK=1V(secs)" lines; the last line of an id counts)
import json,glob,os,re,sys
res={}
if len(sys.argv)>1:
    for l in open(sys.argv[1]):
        m=re.match(r'(\S+?)\((\w+)\)(.*)',l)
        if m:
            c=re.findall(r' (C\d+)=(\d+)(V?)\(',m[3])
            if c: res[m[1]]=c
rows=[]
for f in sorted(glob.glob('seeded/*/meta.json')):
    i=f.split('/')[1]; m=json.load(open(f))
    c=res.get(i,[])
    hit=', '.join(k for k,r,v in c if v) or 'MISSED'
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {hit} |")
s=open('DESIGN.md').read()
a=s.index('## Planted bugs')
missed=sum('MISSED' in r for r in rows)
s=s[:a]+f'''## Planted bugs

{len(rows)} changes under `seeded/`, each confirmed to build, to pass the stable tests and to fail its demonstration; all
written from the property texts and the code. {len(rows)-missed} are caught by the check of their property (quick tier).

| change | property | needs | caught by |
|---|---|---|---|
'''+'\n'.join(rows)+'\n'
open('DESIGN.md','w').write(s)
