#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks which exist in harness/checks."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
src = ''.join(open(f).read() for f in glob.glob(os.path.join(root, 'harness/checks/*.go')))
have = set(re.findall(r'ID:\s*"(C\d\d)"', src))
notes = json.load(open(os.path.join(root, 'tools/levels.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        n = notes.get(i, {})
        checks.append({
            'property': i,
            'quick_cmd': f'./run.sh {i} quick',
            'thorough_cmd': f'./run.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': n.get('technique', 'property-based testing'),
            'level': n.get('level', 'exploration'),
            'level_note': n.get('note', 'generated scenarios against an explicit oracle; nothing beyond the generated cases is shown'),
        })
    else:
        na.append({'property': i, 'reason': notes.get(i, {}).get('na', 'no check built yet')})
m = {'version': 1, 'setup_cmd': './run.sh build', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
