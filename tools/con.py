"""/opt/venv/bin/python tools/con.py <prefix> [samples] [seed]: run the concrete mode of contracts (development aid)"""
import sys
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))))
from vc import concrete, registry
n = int(sys.argv[2]) if len(sys.argv) > 2 else None
seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
frame = '-F' in sys.argv
for K in registry.load_all():
    if not any(K.id.startswith(a) for a in sys.argv[1].split(',')): continue
    r = concrete.campaign(K, seed, n or K.samples, [], frame, frame)
    bad = [k for k, v in r['reached'].items() if v == 0]
    print('== %s runs=%d skipped=%d tries=%d t=%.1f %s' % (K.id, r['runs'], r['skipped'], r['tries'], r['time'], 'NEVER DECIDED: %s' % bad if bad else ''))
    for f in r['failures'][:6]: print('    FAIL', f['obligation'], '|', f['detail'], '|', str(f['inputs'])[:600])
