"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import importlib
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
NA = json.load(open('/verif/tools/not_applicable.json'))
for p in props:
    pid = p['id']
    if os.path.exists(f'/verif/vlib/props/{pid.lower()}.py'):
        m = importlib.import_module(f'vlib.props.{pid.lower()}')
        level = getattr(m, 'LEVEL', 'proof')
        checks.append({'property': pid, 'quick_cmd': f'./check.sh {pid} quick', 'thorough_cmd': f'./check.sh {pid} thorough',
            'evidence_file': f'evidence/{pid}.json',
            'technique': getattr(m, 'TECHNIQUE', 'contract-based deductive verification (Verus) of the functions extracted from /repo on every run; bounded companion on the real code'),
            'level': level, 'level_note': m.NOTE})
    else: na.append({'property': pid, 'reason': NA.get(pid, 'no check yet')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
