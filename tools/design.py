#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_*.md, tools/props.py, known_findings.json and seeded/."""
import json, os, sys, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
from plan import PLAN
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(f'{root}/{f}').read()
out = rd('tools/design_head.md') + '## The properties and how each is decided\n\n'
out += 'Times are wall-clock on 8 cores, quick / thorough.\n\n'
for p in P:
    e = PLAN[p['id']]
    out += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
    out += f"* Enumerated: {e[0]}\n* Oracle: {e[1]}\n* Cost: {e[2]}\n* Beyond the tests: {p['tests']}\n\n"
kf = json.load(open(root + '/known_findings.json'))
by = {}
for x in kf['fixed']:
    i, c, w = x[len('fixed: property='):].split(' ', 2)
    by.setdefault((c, w), []).append(i)
out += rd('tools/design_tail.md').replace('@FIXED@', '\n'.join(f'* {c} ({", ".join(i)}): {w}' for (c, w), i in by.items()))
rows = []
res = json.load(open(root + '/tools/seeded_results.json')) if os.path.exists(root + '/tools/seeded_results.json') else {}
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {', '.join(res.get(n, [])) or 'not caught'} |")
out += rd('tools/design_seeded.md').replace('@SEEDED@', '| change | property | what it breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) if rows else 'None yet.')
open(root + '/DESIGN.md', 'w').write(out)
