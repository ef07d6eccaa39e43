exec(open('/verif/tools/proplist.py').read().replace('\r',''),{'prop':lambda *a,**k:None}) if 0 else None
P={}
def prop(i,t,s,*a,**k): P[i]=(t,k)
exec(open('/verif/tools/proplist.py').read())
import re,os,json
D=json.load(open('/verif/tools/design/props.json'))
seeds={}
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d)); seeds.setdefault(m['property'],[]).append((d,m))
out=open('/verif/tools/design/head.md').read()
for i in sorted(P):
    if not os.path.exists('/verif/rules/%s.py'%i.lower()): continue
    out+='\n### %s %s\n%s\n'%(i,P[i][0],D.get(i,'TODO').strip())
    if i in seeds: out+='Planted: '+', '.join('`%s`'%d for d,m in seeds[i])+' – caught.\n'
out+='\n## 3. Not applicable / not claimed\n\n'
m=json.load(open('/verif/MANIFEST.json'))
for n in m['not_applicable']: out+='* **%s** %s: %s\n'%(n['property'] if 'property' in n else n['id'],P[n.get('property') or n['id']][0],n['reason'])
out+=open('/verif/tools/design/tail.md').read()
open('/verif/DESIGN.md','w').write(out)
