#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/design_tail.md, tools/spec.py (through properties.jsonl and MANIFEST.json),
tools/how.py and the obligations of the last run of every check (evidence/)."""
import json,os,sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'))
sys.path.insert(0,'tools')
from how import HOW
ev=sys.argv[1] if len(sys.argv)>1 else 'evidence'
man=json.load(open('MANIFEST.json'))
checks={}
for c in man['checks']: checks[c.get('property') or c.get('property_id') or c['id']]=c
out=[open('tools/design_head.md').read().rstrip(),'','## The properties','',
'For each: how it is decided, its limits, and the rules, each of which is an obligation at every construct concerned (numbers from the run on the unchanged tree).','']
for l in open('properties.jsonl'):
    p=json.loads(l); i=p['id']
    if i not in HOW: print('no HOW for',i); 
    h=HOW.get(i,('',''))
    out+=['### %s — %s'%(i,p['title']),'']
    if h[0]: out+=[h[0]]
    if len(h)>1 and h[1]: out+=['','*Limits:* '+h[1]]
    try:
        e=json.load(open('%s/%s.json'%(ev,i)))['coverage']
        seen={}
        for o in e['obligation_list']:
            r=o['rule'].split(': ')[0] if i in('R01','R02','G04','A01','A02') else o['rule']
            if r in('anchor','reachable') or r.startswith('reachable '): continue
            seen[r]=seen.get(r,0)+1
        rs=list(seen.items())
        txt='; '.join('%s%s'%(r,' (%d)'%n if n>1 else '') for r,n in rs[:40])
        out+=['','*Rules* — %d obligations, %d runs of the engine, %d functions, %d calls: %s.'%(len(e['obligation_list']),e['entry_runs'],e['functions_analysed'],e['call_sites_evaluated'],txt)]
    except FileNotFoundError: pass
    out+=['']
if man.get('not_applicable'):
    out+=['## Not applicable','']
    for n in man['not_applicable']: out+=['* **%s** %s'%(n.get('property') or n.get('property_id') or n.get('id'),n['reason'])]
    out+=['']
t=[]
for d in sorted(os.listdir('seeded')):
    m=json.load(open('seeded/%s/meta.json'%d))
    t+=['* **%s** (%s): %s. Needs: %s. Caught by %s.'%(d,m['property'],m['what_it_breaks'],m['needs'],m['property'])]
out+=[open('tools/design_tail.md').read().rstrip().replace('SEEDED','\n'.join(t)),'']
open('DESIGN.md','w').write('\n'.join(out))
