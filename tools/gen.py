import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, os.path.join(H, 'tools')]
from props import PROPS, TRUST
from checks.registry import CHECKS
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
man = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[])
for p in PROPS:
    if p['id'] in CHECKS and not p['na']:
        man['checks'].append(dict(property=p['id'], quick_cmd=f'./run.sh {p["id"]} quick', thorough_cmd=f'./run.sh {p["id"]} thorough',
                                  technique=p['technique'], level=p['level'], level_note=p['note'] + TRUST))
    else:
        man['not_applicable'].append(dict(property=p['id'], reason=p['na'] or 'check not built yet'))
json.dump(man, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(man['checks']), 'checks', len(man['not_applicable']), 'n/a')
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
