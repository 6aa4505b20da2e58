"""/opt/venv/bin/python tools/sweep.py SEED MULT [-F] [-j N]: false-alarm sweep: every contract at run time on MULT times its samples"""
import sys, os, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import concrete, registry
seed, mult, frame = int(sys.argv[1]), int(sys.argv[2]), '-F' in sys.argv
jobs = int(sys.argv[sys.argv.index('-j') + 1]) if '-j' in sys.argv else 4
KS = registry.load_all()
def one(i):
    K = KS[i]
    if frame and not K.frame: return None
    try: r = concrete.campaign(K, seed, K.samples * mult, [], frame, frame, 120)
    except BaseException as e: return K.id, 'ERROR %r' % (e,), []
    return K.id, '%d runs, %d skipped, %.0f s' % (r['runs'], r['skipped'], r['time']), [(f['obligation'], f['detail'][:300], str(f['inputs'])[:1500]) for f in r['failures'][:3]]
if __name__ == '__main__':
    os.nice(15)
    with mp.get_context('fork').Pool(jobs, maxtasksperchild=4) as p:
        for r in p.imap_unordered(one, range(len(KS))):
            if r is None: continue
            if r[2] or 'ERROR' in r[1] or '-v' in sys.argv: print(r[0], r[1], flush=True)
            for f in r[2]: print('    FAIL', *f, flush=True)
    print('swept', len(KS), 'seed', seed)
