#!/usr/bin/env python3
# assembles DESIGN.md from tools/design_head.md, the property notes below, known_findings.txt and seeded/*/meta.json
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, V); sys.path.insert(0, V + '/tools')
import props, registry, design_notes as dn
o = ['## Properties\n']
for p in props.P:
    o.append('### %s %s%s\n' % (p['id'], p['title'], ' (not applicable)' if p.get('na') else ''))
    if p.get('na'): o.append(p['na'] + '\n'); continue
    o.append(dn.NOTES.get(p['id'], '').strip() + '\n')
    r = registry.PROPS.get(p['id'])
    if r: o.append('Harness files: ' + ', '.join(sorted(set(t['src'] for t in r['tus']))) + '. ' + ('Assumptions: ' + '; '.join(r['assumptions']) + '.' if r.get('assumptions') else '') + '\n')
d = ['## Defects of libdynd found\n', dn.DEFECTS.strip() + '\n', '```\n' + open(V + '/known_findings.txt').read() + '```\n']
s = ['## Planted bugs\n', dn.SEEDTEXT.strip() + '\n', '| bug | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    s.append('| %s | %s | %s | %s | %s |' % (i, j['property'], j['needs'], j['what_it_breaks'], dn.CAUGHT.get(i, j['property'])))
h = open(V + '/tools/design_head.md').read()
h = h.replace('@PROPS@', '\n'.join(o)).replace('@DEFECTS@', '\n'.join(d)).replace('@SEEDS@', '\n'.join(s))
open(V + '/DESIGN.md', 'w').write(h + '\n')
