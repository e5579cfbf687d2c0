"""writes MANIFEST.json from the registered checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
TECH = json.load(open(os.path.join(V, 'tools', 'technique.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'hooks': json.load(open(os.path.join(V, 'tools', 'hooks.json'))), 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in check.CHECKS:
        t, note = TECH[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i, 'technique': t,
                            'level': 'fault_enumeration' if i == 'C09' else 'exploration', 'level_note': note})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'no check built yet'})
if not m['hooks']:
    del m['hooks']
if not m['not_applicable']:
    del m['not_applicable']
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
