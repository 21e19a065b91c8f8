"""Write DESIGN.md: prose below, bounds from the checks, planted bugs from seeds.json."""
import importlib
import json
import os
import sys
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
warnings.simplefilter('ignore')
PROPS = [json.loads(_) for _ in open(os.path.join(ROOT, 'properties.jsonl'))]
SEEDS = json.load(open(os.path.join(ROOT, 'tools', 'seeds.json')))

HEAD = open(os.path.join(ROOT, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(ROOT, 'tools', 'design_tail.md')).read()
PROSE = json.load(open(os.path.join(ROOT, 'tools', 'design.json')))

out = [HEAD.rstrip(), '', '## Properties', '']
for prop in PROPS:
    id = prop['id']
    check = importlib.import_module('checks.%s' % id.lower()).CHECK
    out += ['### %s %s' % (id, prop['title']), '']
    for title, text in PROSE[id]:
        out += ['*%s.* %s' % (title, text), '']
    quick = {_.name: _.bounds for _ in check.families('quick')}
    thorough = {_.name: _.bounds for _ in check.families('thorough')}
    out += ['| family | quick | thorough |', '|---|---|---|']
    for name in thorough:
        first = quick.get(name, '-')
        second = thorough[name]
        if name in quick and first == second:
            second = 'same'
        out.append('| %s | %s | %s |' % (name, first.replace('|', '/'), second.replace('|', '/')))
    out += ['', 'Counted: %s.' % check.rule]
    if check.assumptions:
        out += ['Assumed: %s.' % '; '.join(check.assumptions)]
    out.append('')
out += [TAIL.rstrip(), '', '## Planted bugs', '']
out += [
    'Every bug in `seeded/` was written from the text of a property and the code, '
    'confirmed in a scratch copy (the 65 tests pass, the demonstration fails with '
    'it and passes without it) and then given to the quick check of its property. '
    '"First" tells whether the check caught it as it was at that time, "now" whether it does now.', '',
    '| bug | property | needs | first | now |', '|---|---|---|---|---|']
for id in sorted(SEEDS):
    path = os.path.join(ROOT, 'seeded', id, 'meta.json')
    if not os.path.exists(path):
        continue
    meta = json.load(open(path))
    out.append('| %s | %s | %s | %s | %s |' % (
        id, meta['property'], meta['needs'].replace('|', '/'), SEEDS[id].get('first', '?'), SEEDS[id].get('now', '?')))
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as file:
    file.write('\n'.join(out) + '\n')
