#!/usr/bin/env python3
# Regenerates DESIGN.md from design_head.md, design.py, design_tail.md, the evidence of the last run and the planted bugs.
import json, os, glob, sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V+'/tools')
from design import D
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
na={x['property']:x['reason'] for x in json.load(open(V+'/MANIFEST.json'))['not_applicable']}
seeds={}
for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(f)); seeds.setdefault(m['property'],[]).append((f.split('/')[-2],m))
out=[open(V+'/tools/design_head.md').read(),'\n## Properties\n']
for p in props:
    i=p['id']
    if i in na: continue
    e=json.load(open(V+f'/evidence/{i}.json'))
    how,why=D[i]
    out.append(f"\n### {i} {p['title']}\n\n{how}\n\n*Beyond tests:* {why}\n\nRules ({e['coverage']['obligations']} obligations, {len(e['coverage']['functions_analysed'])} functions on the present tree):\n")
    for r,d in e['coverage']['rules'].items():
        if r!='analysable': out.append(f"* `{r}`: {d['demands']}")
    a=[x for x in e['assumptions'][2:]]
    if a: out.append('\nAssumes: '+'; '.join(a)+'.')
    if i in seeds:
        out.append('\nPlanted: '+'; '.join(f"`{s}`" for s,_ in seeds[i])+'.')
out.append('\n## Not applicable\n')
for p in props:
    if p['id'] in na: out.append(f"* **{p['id']}** {p['title']}: {na[p['id']]}.")
out.append('\n## Planted bugs and what catches them\n\nEach was confirmed by its demonstration (passes without, fails with the change) and passes the stable tests.\n\n| bug | needs | caught by |\n|---|---|---|')
c=json.load(open(V+'/tools/caught.json')) if os.path.exists(V+'/tools/caught.json') else {}
for i in sorted(seeds):
    for s,m in seeds[i]:
        out.append(f"| `{s}` | {m['needs'].replace('|','/')} | {c.get(s,'?')} |")
out.append('\n'+open(V+'/tools/design_tail.md').read())
open(V+'/DESIGN.md','w').write('\n'.join(out).rstrip()+'\n')
