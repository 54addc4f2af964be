import json,glob,os,re
rows=["| id | property | caught by |","|---|---|---|"]
res={}
if os.path.exists('/verif/tools/seeded.txt'):
    for l in open('/verif/tools/seeded.txt'):
        w=l.strip().split(' ',1)
        if len(w)==2: res[w[0]]=w[1]
for d in sorted(glob.glob('/verif/seeded/*')):
    i=os.path.basename(d); m=json.load(open(d+'/meta.json'))
    rows.append(f"| {i} | {m['property']} | {res.get(i,'check of '+m['property'])} |")
p='/verif/DESIGN.md'; s=open(p).read()
if 'SEEDTABLE' in s: s=s.replace('SEEDTABLE','<!--seeds-->\n'+'\n'.join(rows)+'\n<!--/seeds-->')
else: s=re.sub(r'<!--seeds-->.*<!--/seeds-->','<!--seeds-->\n'+'\n'.join(rows)+'\n<!--/seeds-->',s,flags=re.S)
open(p,'w').write(s)
