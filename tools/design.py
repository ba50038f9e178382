import json,glob,os
V='/verif'
head=open('/verif/tools/design/head.md').read()
tail=open('/verif/tools/design/tail.md').read()
rows=[]
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(f)); rows.append((d['property'],f.split('/')[-2],d['needs']))
rows.sort()
t="| property (= check that catches it) | seeded change | needs |\n|---|---|---|\n"
for p,n,w in rows: t+=f"| {p} | {n} | {w} |\n"
open(V+'/DESIGN.md','w').write(head.replace('@@N@@',str(len(rows)))+t+tail)
