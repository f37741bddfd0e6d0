#!/usr/bin/env python3
"""gendesign.py: fills the generated parts of DESIGN.md from the last quick evidence, known-findings.jsonl and seeded/."""
import json,os,re,subprocess
V='/verif/'
s=open(V+'DESIGN.md').read()
props=[json.loads(l) for l in open(V+'properties.jsonl')]
def put(mark,text):
    global s
    a,b='<!-- %s -->\n'%mark,'<!-- /%s -->'%mark
    i=s.index(a)+len(a); j=s.index(b)
    s=s[:i]+text+s[j:]
# the drivers as the explorer lists them (mc list > tools/drivers.txt); figures from the last line of each quick run
fig={}
f=V+'tools/quickruns.txt'
if os.path.exists(f):
    for l in open(f):
        if 'held on everything' in l: fig[l.split()[0]]=l.split('explored: ')[1].strip()
o=''
for l in open(V+'tools/drivers.txt'):
    l=l.rstrip()
    if not l.startswith(' '):
        o+='\n**%s** %s\n\n'%(l,fig.get(l,''))
    else:
        q=l.split(None,2)
        o+='* `%s`: %s\n'%(q[0],q[2] if len(q)>2 else '')
put('drivers',o+'\n')
o=''
seen={}
for l in open(V+'known-findings.jsonl'):
    k=json.loads(l); seen.setdefault((k['commit'],k['what']),[]).append(k['property'])
for (c,w),ps in seen.items(): o+='* %s `%s` %s\n'%(', '.join(ps),c,w)
put('fixes',o)
res={}
f=V+'tools/seedresults.txt'
if os.path.exists(f):
    for l in open(f):
        q=l.split(' ',3); 
        if len(q)>=3: res[q[0]]=(q[2],(q[3] if len(q)>3 else ''))
o='| planted bug | property | result | what it breaks |\n|---|---|---|---|\n'
for d in ('seeded','tools/bugs-in-fixes'):
    for i in sorted(os.listdir(V+d)):
        m=json.load(open(V+d+'/'+i+'/meta.json'))
        r,t=res.get(i,('in its round',''))
        g=re.search(r'driver (\w+)',t)
        o+='| %s | %s | %s%s | %s |\n'%(i,m['property'],r,(' by '+g.group(1)) if g else '',m['what_it_breaks'].replace('|','/'))
put('seeds',o)
open(V+'DESIGN.md','w').write(s)
