#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the PROPERTY tables of dsim/props and tools/not_applicable.json."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def table(path):
    """PROPERTY of a module, read without importing it."""
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', None) in ('PROPERTY', 'ID', 'TITLE', 'LEVEL', 'NOTE'):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


props, checks = [], []
folder = os.path.join(ROOT, 'dsim', 'props')
for f in sorted(os.listdir(folder)):
    if not (f.startswith('c') and f.endswith('.py')):
        continue
    t = table(os.path.join(folder, f))
    p = {'id': t['ID'], 'title': t['TITLE'], **t['PROPERTY']}
    assert len(p['title']) <= 80, p['id']
    props.append(p)
    checks.append({
        'property': t['ID'],
        'quick_cmd': f'bin/check {t["ID"]} --tier quick',
        'thorough_cmd': f'bin/check {t["ID"]} --tier thorough',
        'evidence_file': f'evidence/{t["ID"]}.json',
        'technique': 'deterministic simulation with fault injection: seeded search over simulated histories',
        'level': t['LEVEL'],
        'level_note': t['NOTE'],
    })
na = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
for p in na:
    props.append({k: v for k, v in p.items() if k != 'reason'})
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
manifest = {
    'version': 1,
    'setup_cmd': 'bin/setup',
    'checks': checks,
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in na],
    'notes': 'No hooks in /repo: every seam is installed from /verif before simphox is imported (dsim/seams.py). '
             'Replay a violation with bin/check replay FILE; determinism self-test with bin/check selftest.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props:
        jsonschema.validate(p, s)
    jsonschema.validate(manifest, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print(f'{len(checks)} checks, {len(na)} not applicable; schemas hold')
except ImportError:
    print('jsonschema not available: schemas not checked')
