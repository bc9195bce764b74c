"""assembles DESIGN.md from tools/design_head.md and the per-check notes in the checks' docstrings"""
import ast, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from props import PROPS, NOT_APPLICABLE
head = open(V + '/tools/design_head.md').read()
tail = open(V + '/tools/design_tail.md').read() if os.path.exists(V + '/tools/design_tail.md') else ''
out = [head, '\n## Properties and how each is decided\n']
for p in PROPS:
    f = V + '/checks/%s.py' % p['id'].lower()
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    out.append('*Technique:* %s. *Assurance:* %s\n' % (p['technique'], p['note']))
    if os.path.exists(f):
        out.append((ast.get_docstring(ast.parse(open(f).read())) or '').strip() + '\n')
    else:
        out.append('Not built yet.\n')
out.append(tail)
import json, glob
out.append('## Repairs (from known_findings.jsonl)\n\n| property | commit | what failed |\n|---|---|---|')
for l in open(V + '/known_findings.jsonl'):
    d = json.loads(l)
    if d['kind'] == 'fixed':
        out.append('| %s | %s | %s |' % (d['property'], d['commit'], d['line'].split(' ', 3)[3].replace('|', '/')))
out.append('\n## Planted bugs (from seeded/*/meta.json)\n\nThe check of the named property catches each of them (quick tier, seed 1) unless stated otherwise.\n\n| id | property | needs | breaks |\n|---|---|---|---|')
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f))
    out.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], d['needs'].replace('|', '/'), d['what_it_breaks'].replace('|', '/')))
if os.path.exists(V + '/tools/mutants.md'):
    out.append('\n' + open(V + '/tools/mutants.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
