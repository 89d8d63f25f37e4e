#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run in /verif)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, EXH
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['tests'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                         observe_at=p['observe'], hook_needed=None)), ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd="bash setup.sh", checks=[dict(
    property=p['id'], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
    evidence_file=f"evidence/{p['id']}.json", technique=p['technique'] or EXH, level=p['level'], level_note=p['level_note']) for p in P],
    not_applicable=[],
    notes="No hooks in /repo: every check instruments a scratch copy of the packages (step counter before each statement, map ranges handed to the explorer) and explores that.")
with open(root + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
