#!/usr/bin/env python3
"""Fills in the tables of DESIGN.md from tools/design.tmpl, the evidence of the
last quick runs and seeded/*/meta.json with tools/caught.json."""
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t=open(V+'/tools/design.tmpl').read()
oracle=json.load(open(V+'/tools/oracles.json'))
rows=[]
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); e=json.load(open(V+'/evidence/%s.json'%p['id'])); c=e['coverage']
    b='; '.join('*%s*: %s'%(s['space'],s['bound'].replace('|','/')) for s in c['spaces'])
    rows.append('| %s | %s | %s | %d s |'%(p['id'],b,oracle[p['id']],round(e['wall_s'])))
caught=json.load(open(V+'/tools/caught.json'))
bugs=[]
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(m)); n=os.path.basename(os.path.dirname(m))
    bugs.append('* `%s` (%s): %s. Caught by %s.'%(n,d['property'],d['what_it_breaks'],caught.get(n,d['property'])))
open(V+'/DESIGN.md','w').write(t.replace('@TABLE@','\n'.join(rows)).replace('@BUGS@','\n'.join(bugs)))
