"""writes /verif/MANIFEST.json from the registry"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from qsa.registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(R, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS:
        fn, level, technique = CHECKS[p][:3]
        note = CHECKS[p][3] if len(CHECKS[p]) > 3 else technique
        m['checks'].append({'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
                            'technique': technique, 'level': level, 'level_note': note})
    else:
        m['not_applicable'].append({'property': p, 'reason': NOT_APPLICABLE.get(p, 'the check for this property is not built yet')})
with open(os.path.join(R, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
