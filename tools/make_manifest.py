#!/opt/venv/bin/python
"""Regenerate properties.jsonl and MANIFEST.json from tools/props/*.json-like python dicts."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        fh.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p.get('over', ['inputs']), text=p['text']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                         observe_at=p.get('observe', []), hook_needed=None))) + '\n')
m = dict(version=1, setup_cmd='/opt/venv/bin/python -W ignore run_check.py --selftest', checks=[], not_applicable=[],
         notes='No hooks: every check drives the public Python API of the package from /repo.')
for p in PROPS:
    if not os.path.exists(os.path.join(ROOT, 'checks', p['id'].lower() + '.py')):
        continue
    m['checks'].append(dict(property=p['id'], quick_cmd='bash run.sh ' + p['id'],
                            thorough_cmd='VERIF_TIER=thorough bash run.sh ' + p['id'],
                            evidence_file='evidence/%s.json' % p['id'],
                            technique=p['technique'], level='exploration', level_note=p['note']))
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
print(len(PROPS), 'properties', len(m['checks']), 'checks')
