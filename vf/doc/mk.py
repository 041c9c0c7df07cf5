import re,glob,sys,json,os
sys.path.insert(0,'/verif/vf'); import importlib
import spec,props
rule={}
for f in glob.glob('/verif/vf/harness/c[0-9]*.cc'):
    s=open(f).read(); m=re.search(r'RULE\s*=\s*((?:\s*"(?:[^"\\]|\\.)*")+)\s*;',s)
    pid=os.path.basename(f)[:3].upper()
    r=''.join(re.findall(r'"((?:[^"\\]|\\.)*)"',m.group(1))).replace('\\"','"'); rule[pid]=r
O={}
exec(open('/verif/vf/doc/oracles.py').read())
kf={}
for l in open('/verif/known-findings.txt'):
    l=l.strip()
    if l.startswith('fixed:'):
        p=re.search(r'property=(C\d+) (\w+) (.*)',l); kf.setdefault(p.group(1),[]).append('`%s` %s'%(p.group(2),p.group(3)))
    elif l.startswith('{'):
        d=json.loads(l); kf.setdefault(d['property'],[]).append('**recorded, not repaired** (`%s`): %s'%(d['id'],d['what']))
out=open('/verif/vf/doc/head.md').read()
S=spec.SPEC
for p in S:
    pid=p['id']
    if pid not in props.PROPS: continue
    e=props.PROPS[pid]; o=O[pid]
    out+='\n### %s — %s\n\n'%(pid,p['title'])
    out+='*Generated:* %s.\n\n'%rule[pid].rstrip('.')
    out+='*Oracle:* %s\n\n*Why tests cannot:* %s.\n\n'%(o[0],p['why'].rstrip('.'))
    out+='*Bounds and cost:* quick %d cases or %d s on 8 processes, thorough %d cases or %d s (whichever ends first)%s.%s\n\n'%(e['quick']+e['thorough']+(', with schedule perturbation' if e.get('sched') else '',' '+o[1] if o[1] else ''))
    if pid in kf: out+='*Defects found:*\n'+''.join('- %s\n'%k for k in kf[pid])
out+=open('/verif/vf/doc/tail.md').read()
seeds={}
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d)); out_line='| %s | %s | %s | %s |\n'%(d,m['property'],m['needs'].replace('|','/'),CAUGHT.get(d,m['property']+' (quick)')); seeds[d]=out_line
out=out.replace('@SEEDS@','| planted bug | property | needs | caught by |\n|---|---|---|---|\n'+''.join(seeds.values()))
na='\n'.join('- **%s** %s: %s.'%(n[0],n[1],n[-1].rstrip('.')) for n in spec.NOT_APPLICABLE)
out=out.replace('@NA@',na)
open('/verif/DESIGN.md','w').write(out)
