#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H); sys.path.insert(0, V)
import props, registry
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['id']
        a = {'files': p['files'], 'mechanism': [{'name': x.split('@')[0].strip(), 'where': (x.split('@') + [p['files'][0]])[1].strip()} for x in ([p['mechanism']] if isinstance(p['mechanism'], str) else p['mechanism'])]}
        if p['state']: a['state'] = p['state']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh build', 'checks': [], 'not_applicable': []}
for p in props.P:
    if p.get('na'): m['not_applicable'].append({'property': p['id'], 'reason': p['na']}); continue
    if p['id'] not in registry.PROPS:
        print('no check yet:', p['id']); m['not_applicable'].append({'property': p['id'], 'reason': 'check under construction'}); continue
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 engine/vp.py %s --tier=quick' % p['id'], 'thorough_cmd': 'python3 engine/vp.py %s --tier=thorough' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note'] or 'all obligations discharged'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

import jsonschema
try:
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(V, 'properties.jsonl')): jsonschema.validate(json.loads(l), s)
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for c in m['checks']:
        e = os.path.join(V, 'evidence', c['property'] + '.json')
        if os.path.exists(e): jsonschema.validate(json.load(open(e)), json.load(open('/root/.vp/EVIDENCE.schema.json')))
    print('valid', len(m['checks']), 'checks')
except FileNotFoundError: pass
