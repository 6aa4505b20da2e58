"""/opt/venv/bin/python tools/replay.py evidence/replay/Pxx-n.json: runs the contract of a replay file on the real code with the recorded inputs
(and, where the inputs alone do not determine the run, with the recorded seed of the sample)"""
import sys, os, json, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import concrete, registry
v = json.load(open(sys.argv[1]))
print(v['contract'], '|', v['obligation'])
if not v['replayed']:
    print('no failing input; the verifier says:', v.get('why'), v.get('reason'), v.get('goal', '')[:2000]); sys.exit(1)
K = next(K for K in registry.load_all() if K.id == v['contract'])
f = v['failure']
if f['origin'].startswith('sample'):       # the generator's random state determines the run
    n = int(f['origin'].split()[1])
    st, c = concrete.run_once(K, random.Random('%s|%s|%d' % (f['seed'], K.id, n)), None, concrete.STYLES[n % len(concrete.STYLES)], f['frame'], f['frame_only'])
    fails = [(a, b, c.inputs) for a, b in c.failures]
else:
    r = concrete.campaign(K, f['seed'], 0, [f['inputs']], f['frame'], f['frame_only'])
    fails = [(x['obligation'], x['detail'], x['inputs']) for x in r['failures']]
for x in fails: print('FAILS', x[0], '|', x[1], '|', json.dumps(x[2], default=str)[:2000])
if not fails: print('does not fail; recorded detail:', f['detail'])
sys.exit(1 if fails else 0)
