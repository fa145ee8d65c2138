import json,os,glob
d='/verif/'
s=open(d+'DESIGN.md').read()
fx=['| property | commit | what failed |','|---|---|---|']
for l in open(d+'known_findings.jsonl'):
    if l.startswith('#'): continue
    k=json.loads(l); t=k['text'].split(k['commit'],1)[1].strip()
    fx.append('| %s | %s | %s |'%(k['property'],k['commit'],t.replace('|','\\|')))
sd=['| seed | caught by | needs | breaks |','|---|---|---|---|']
for p in sorted(glob.glob(d+'seeded/*/meta.json'))+sorted(glob.glob(d+'seeded-sage/*/meta.json')):
    m=json.load(open(p))
    sd.append('| %s | %s | %s | %s |'%(p.split('/')[-2],m['property'],m['needs'].replace('|','\\|'),m['what_it_breaks'].replace('|','\\|')))
import re
def put(s,name,body):
    a,b='<!-- %s -->'%name,'<!-- end %s -->'%name
    if a in s:
        return s[:s.index(a)]+a+'\n'+body+'\n'+b+s[s.index(b)+len(b):]
    return s.replace('\n'+name+'\n','\n'+a+'\n'+body+'\n'+b+'\n')
s=put(s,'FIXTABLE','\n'.join(fx)); s=put(s,'SEEDTABLE','\n'.join(sd))
open(d+'DESIGN.md','w').write(s)
