"""python3-vt tools/sym.py <contract id prefix> [-f n=1,2]: run the symbolic mode of contracts (development aid)"""
import sys, time
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))); sys.setrecursionlimit(20000)
from vc import registry, engine
args = [a for a in sys.argv[1:] if not a.startswith('-')]
fixed = {}
for a in sys.argv[1:]:
    if a.startswith('-f'):
        for p in a[2:].split(';'):
            k, v = p.split('='); fixed[k] = [int(x) for x in v.split(',')]
frame = '-F' in sys.argv
for K in registry.load_all():
    if not any(K.id.startswith(a) for a in args): continue
    t = time.time()
    r = engine.Engine(K, fixed=fixed, frame=frame, frame_only=frame).run().result()
    print('== %s paths=%d unsupported=%s %s t=%.1f' % (K.id, r['paths'], r['unsupported'], r['where'], time.time() - t))
    if r['trace']: print(r['trace'][-1500:])
    for o in r['obligations']:
        print('   ', o['status'], o['name'], o['how'], o['paths'], o['reason'] if o['status'] != 'proved' else '', o['goal'][:200] if '-v' in sys.argv else '')
    if '-m' in sys.argv:
        for m in r['refuted'][:3]: print('   REF', m['obligation'], m['reason'], m['note'], m['inputs'])
    print('    assumed', r['assumed'])
