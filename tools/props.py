#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run this file to regenerate both."""
import glob, importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_base import PROPS, NA, V
from registry import REGISTRY
for f in sorted(glob.glob(os.path.join(V, 'tools', 'props_*.py'))):
    importlib.import_module(os.path.basename(f)[:-3])
PROPS.sort(key=lambda p: p['rank'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for p in PROPS:
        o.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
checks, na = [], list(NA)
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
    if p['id'] in REGISTRY:
        checks.append(dict(property=p['id'], quick_cmd=f"python3 tools/check.py {p['id']} --tier quick", thorough_cmd=f"python3 tools/check.py {p['id']} --tier thorough",
                           technique=p['technique'], level=p['level'], level_note=p['note']))
    elif p['id'] not in {x['property'] for x in na}:
        print('no check for', p['id'])
for r in REGISTRY:
    assert r in {p['id'] for p in PROPS}, r
json.dump(dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='OPENCMW_VERIF (reserved; no hook in the sources was needed)', enable='checks compile /repo headers directly with their own include path; no define is set', source_commits=[]),
               checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks')
