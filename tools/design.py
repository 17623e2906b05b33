"""regenerates the generated parts of DESIGN.md (per-property table, findings, seeds) between markers"""
import importlib.util, json, os, re, ast, glob
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
spec = importlib.util.spec_from_file_location('props', os.path.join(here, 'props.py')); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
out = ['## Properties\n']
for p in m.PROPS:
    out.append('### %s %s\n' % (p['id'], p['title']))
    if p.get('na'):
        out.append('not applicable: ' + p['na'] + '\n'); continue
    t = ast.parse(open(os.path.join(root, 'checks', p['id'] + '.py')).read())
    d = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('EXPLANATION', 'BOUNDS', 'ASSUMPTIONS'):
            try: d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError: pass
    out.append('*Decided by:* ' + d.get('EXPLANATION', '') + '\n')
    out.append('*Bounds:* ' + d.get('BOUNDS', '') + '\n')
    out.append('*Assumes:* ' + '; '.join(d.get('ASSUMPTIONS', [])) + '\n')
props = '\n'.join(out)
kf = json.load(open(os.path.join(root, 'known_findings.json')))
find = ''.join('* recorded %s (%s): %s\n' % (f['property'], f['harness'], f['what']) for f in kf['findings']) + ''.join('* %s\n' % f for f in kf['fixed'])
notes = json.load(open(os.path.join(here, 'seeds.json')))
rows = ['| seed | property | what | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    i = f.split('/')[-2]; d = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (i, d['property'], d['what_it_breaks'].replace('|', '\\|'), notes.get(i, 'see property')))
tpl = open(os.path.join(here, 'design.tpl')).read()
open(os.path.join(root, 'DESIGN.md'), 'w').write(tpl.replace('@@PROPS@@', props).replace('@@FIND@@', find).replace('@@SEEDS@@', '\n'.join(rows)))
