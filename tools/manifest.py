#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks the harness registers."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
claimed = set()
for f in os.listdir(os.path.join(here, 'harness')):
    claimed |= set(re.findall(r'ID:\s*"(C\d\d)"', open(os.path.join(here, 'harness', f)).read()))
notes = json.load(open(os.path.join(here, 'tools', 'techniques.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        t = notes[i]
        checks.append({
            'property': i,
            'quick_cmd': f'./check.sh {i} quick',
            'thorough_cmd': f'./check.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': t['technique'],
            'level': 'exploration',
            'level_note': t['note'],
        })
    else:
        na.append({'property': i, 'reason': 'no check yet'})
m = {
    'version': 1,
    'setup_cmd': 'true',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Every check builds the harness and the yisp binary from the current tree of /repo (go build -overlay), so there is nothing to set up. Runtime monitoring only: oracles observe executions of the real code.',
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
