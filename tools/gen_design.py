#!/usr/bin/env python3
"""DESIGN.md from tools/design.md, known_findings.json and seeded/."""
import json, os, glob
here = os.path.dirname(os.path.abspath(__file__)); top = os.path.dirname(here)
s = open(f'{here}/design.md').read()
k = json.load(open(f'{top}/known_findings.json'))['findings']
def row(f):
    return f"| {f['id']} | {f['property']} | {f['status']} | {f['what'].replace('|', chr(92) + '|')} |"
t = ['| finding | property | status | what failed |', '|---|---|---|---|'] + [row(f) for f in sorted(k, key=lambda f: (f['id'][0] != 'O', f['id'], f['property']))]
s = s.replace('@@FINDINGS@@', '\n'.join(t))
rows = []
for m in sorted(glob.glob(f'{top}/seeded/*/meta.json')):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append(f"| {i} | {d['property']} | {d['needs'].replace('|', chr(92) + '|')} | {d.get('caught_by', d['property'])} |")
s = s.replace('@@SEEDS@@', '\n'.join(rows))
s = s.replace('@@MISSED@@', open(f'{here}/missed.md').read().strip())
open(f'{top}/DESIGN.md', 'w').write(s)
