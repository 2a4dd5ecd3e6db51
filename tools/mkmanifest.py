"""Writes MANIFEST.json:  python3 tools/mkmanifest.py  (claims exactly the properties with a checks/<ID>.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, 'tools', 'claims.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, 'checks', p + '.py')) and p in NOTES:
        n = NOTES[p]
        checks.append(dict(property=p, quick_cmd='bash run.sh %s quick' % p, thorough_cmd='bash run.sh %s thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique=n['technique'], level='model_checking',
                           level_note=n['note']))
    else:
        na.append(dict(property=p, reason=NOTES.get(p, {}).get('reason', 'check not built yet')))
m = dict(version=1, setup_cmd='true', checks=checks)
if na:
    m['not_applicable'] = na
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not claimed')
