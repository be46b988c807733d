import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_table import P, MC
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
with open(V + '/properties.jsonl', 'w') as fh:
    for p in P:
        fh.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}, ensure_ascii=False) + '\n')
        if os.path.exists(V + '/mc/props/%s.py' % p['id'].lower()):
            checks.append(dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'], thorough_cmd='./check.sh %s thorough' % p['id'],
                               evidence_file='evidence/%s.json' % p['id'], technique=MC, level='model_checking',
                               level_note='Bounded: ' + p['_note'] + '. Trusts: Python, sympy arithmetic of rationals, the reference model in /verif/mc.'))
        else:
            na.append(dict(property=p['id'], reason='no check registered yet (machinery under construction)'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='All checks run the real code of /repo (imported from its working tree). No hooks in /repo.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
