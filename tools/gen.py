#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (kept in step by construction)."""
import json, sys, os
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NA
root = os.path.join(os.path.dirname(__file__), '..')
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': p['mechanism']},
        }) + '\n')
m = {
    'version': 1,
    'setup_cmd': 'bash mc/setup.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': f"bash mc/run.sh check {p['id']} quick",
        'thorough_cmd': f"bash mc/run.sh check {p['id']} thorough",
        'evidence_file': f"evidence/{p['id']}.json",
        'technique': p['technique'],
        'level': 'model_checking',
        'level_note': p['note'],
    } for p in PROPS if p['id'] not in NA],
    'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
    'notes': 'No hooks in /repo: actix, actix-rt and actix-telepathy are replaced by drop-in versions (mc/vendor) with a controlled scheduler and a simulated network; everything of the repository is compiled unchanged.',
}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
