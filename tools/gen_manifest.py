"""Writes MANIFEST.json from the checks present in checks/ and the notes in manifest_src.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from manifest_src import NOTES, NOT_APPLICABLE, TECHNIQUE
properties = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
missing = []
for property_ in properties:
    identifier = property_['id']
    if os.path.exists(os.path.join(HERE, 'checks', identifier + '.py')):
        checks.append({
            'property': identifier, 'quick_cmd': f'./check {identifier} quick',
            'thorough_cmd': f'./check {identifier} thorough', 'technique': TECHNIQUE.get(identifier, TECHNIQUE[None]),
            'level': 'model_checking', 'level_note': NOTES.get(identifier, NOTES[None]),
        })
    else:
        missing.append({'property': identifier, 'reason': NOT_APPLICABLE.get(identifier, 'its specification is not written yet')})
manifest = {
    'version': 1, 'setup_cmd': 'true',
    'hooks': {'guard': 'SCARLETIO_VERIF', 'enable': 'no hook exists: the checks drive the unmodified code through its API', 'source_commits': []},
    'checks': checks, 'not_applicable': missing,
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as file:
    json.dump(manifest, file, indent = 1)
    file.write('\n')
print(len(checks), 'checks', len(missing), 'missing')
