#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(root + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    cell = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    rows.append(f"| {os.path.basename(d)} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {m['property']} quick |")
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
