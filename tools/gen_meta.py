"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ROOT = os.path.dirname(HERE)
from props import PROPS, NA, NOTES  # noqa

checks = []
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        if p['id'] not in NA and not os.path.exists(os.path.join(ROOT, 'checks', p['id'].lower() + '.py')):
            print('no check yet:', p['id'])
            continue
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['q']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'],
                         mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                         state=[dict(name=a, meaning=b, where=c) for a, b, c in p.get('state', [])],
                         observe_at=p.get('obs', []), hook_needed=None))) + '\n')
        if p['id'] not in NA:
            checks.append(dict(
                property=p['id'],
                quick_cmd='/opt/venv/bin/python -B run.py %s' % p['id'],
                thorough_cmd='/opt/venv/bin/python -B run.py %s' % p['id'],
                technique=p['tech'], level='model_checking', level_note=p['note']))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B tools/setup.py', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())], notes=NOTES)
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
