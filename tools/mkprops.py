"""writes properties.jsonl and MANIFEST.json (both committed) from the table below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from props import PROPS, NOT_APPLICABLE, HOOKS, NOTES

with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=p['quantifier'],
                 why_tests_cant=p['why'], anchors=p['anchors'])
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
checks = []
for p in PROPS:
    if not os.path.exists(V + '/checks/%s.py' % p['id'].lower()):
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 run.py %s quick' % p['id'], thorough_cmd='python3 run.py %s thorough' % p['id'],
                       technique=p['technique'], level=p.get('level', 'exploration'), level_note=p['note']))
ids = {c['property'] for c in checks}
na = [dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()]
for p in PROPS:
    if p['id'] not in ids and p['id'] not in NOT_APPLICABLE:
        na.append(dict(property=p['id'], reason='check not built yet'))
m = dict(version=1, setup_cmd='python3 lib/acbuild.py plain', hooks=HOOKS, checks=checks, not_applicable=na, notes=NOTES)
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties,', len(checks), 'checks,', len(na), 'not claimed')
