#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from properties.jsonl, the harness directives and seeded/."""
import glob,json,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hs={}
for f in sorted(glob.glob(V+'/harness/*/*.go')):
    pkg=os.path.basename(os.path.dirname(f))
    s=open(f).read()
    for m in re.finditer(r'((?:^//.*\n)+)func (\w+)\(\)',s,re.M):
        d=m[1]
        h=re.search(r'//sv:harness (.*)',d)
        if not h: continue
        o=dict(x.split('=') for x in h[1].split() if '=' in x)
        b=re.search(r'//sv:bound (.*)',d)
        hs.setdefault(o['prop'],[]).append((m[2],b[1] if b else '',pkg,o))
    sp=os.path.dirname(f)+'/spec'
out=[]
for l in open(V+'/properties.jsonl'):
    d=json.loads(l)
    out.append('**%s %s.** %s\n'%(d['id'],d['title'],d['statement']))
    for n,b,pkg,o in hs.get(d['id'],[]):
        t=' (thorough tier only)' if o.get('tier')=='thorough' else ''
        out.append('- `%s/%s`%s: %s'%(pkg,n,t,b))
    out.append('')
seeds=['| id | property | needs | caught by |','|---|---|---|---|']
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(f)); i=os.path.basename(os.path.dirname(f))
    seeds.append('| %s | %s | %s | %s |'%(i,d['property'],d['needs'],d.get('caught_by','')))
p=V+'/DESIGN.md'
s=open(p).read()
for k,v in(('props','\n'.join(out)),('seeds','\n'.join(seeds))):
    a,b='<!-- %s -->'%k,'<!-- /%s -->'%k
    i,j=s.index(a)+len(a),s.index(b)
    s=s[:i]+'\n'+v+'\n'+s[j:]
open(p,'w').write(s)
