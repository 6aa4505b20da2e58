"""writes MANIFEST.json from the contracts, levels.json and notes.json"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from vc import registry
Ks = registry.load_all()
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
lv = json.load(open(os.path.join(H, 'levels.json')))
N = json.load(open(os.path.join(H, 'notes.json')))
checks, na = [], []
for p in props:
    pid = p['id']
    mine = [k for k in Ks if k.prop == pid] or ([k for k in Ks] if pid == 'P31' and 'P31' in N['claim'] else [])
    if not mine or pid in N['not_applicable']:
        na.append({'property': pid, 'reason': N['not_applicable'].get(pid, 'check not built yet')})
        continue
    checks.append({'property': pid, 'quick_cmd': './check.py %s' % pid, 'thorough_cmd': 'VERIF_TIER=thorough ./check.py %s' % pid, 'evidence_file': 'evidence/%s.json' % pid,
        'technique': N.get('techniques', {}).get(pid, N['technique']), 'level': lv.get(pid, 'other'), 'level_note': N['level_note'].get(pid, N['default_note'][lv.get(pid, 'other')])})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na, 'notes': N['notes']}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
