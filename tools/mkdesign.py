import json,glob,os
rows=[]
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(m)); rows.append((os.path.basename(os.path.dirname(m)),d['property'],d['needs']))
mat="\n".join("| %s | %s | %s |"%(a,b,c.replace("|","/")) for a,b,c in rows)
T=open('/verif/tools/design.md.in').read().replace("@@MATRIX@@",mat)
open('/verif/DESIGN.md','w').write(T)
