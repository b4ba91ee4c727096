import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
from registry import PROPS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
exec(open(V + '/tools/na.py').read()) if os.path.exists(V + '/tools/na.py') else None
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        P = PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i,
                           thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique=P.get('technique', 'TLA+ specification checked by TLC; replay of TLC behaviours into the code and TLC trace validation of recorded executions'),
                           level='model_checking',
                           level_note=P.get('note', 'Exhaustive on the bounded specification; conformance of the code only on the executions driven (sampled inputs and histories). Trusts the driver\'s quantization and the observation points.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not yet covered')))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
               notes='TLA+/TLC; see DESIGN.md. No hooks in /repo.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
