"""writes properties.jsonl and MANIFEST.json from tools/props.py (deterministic)"""
import importlib.util
import json
import os
import re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
spec = importlib.util.spec_from_file_location('props', os.path.join(here, 'props.py'))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in m.PROPS:
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p.get('over', ['inputs']), 'text': p['forall']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        assert len(d['title']) <= 80, d['title']
        n = len(re.findall(r'[.;](?=\s+[A-Z]|$)', d['statement']))
        assert n <= 3, (d['id'], n)
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
checks, na = [], []
for p in m.PROPS:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'],
                   'thorough_cmd': './check %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p.get('technique', 'symbolic execution of the real functions, obligations decided by SMT (z3), counterexamples replayed'),
                   'level': 'other', 'level_note': p.get('note', m.NOTE)})
json.dump({'version': 1,
           'setup_cmd': './setup.sh',
           'checks': checks, 'not_applicable': na,
           'notes': m.NOTES}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
