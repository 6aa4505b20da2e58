#!/usr/bin/env python3
"""check.py <property id>: decides one property of lace/blmath on the current tree of /repo.

1. verifier (vc/engine.py, python3-vt): symbolic execution of the functions in /repo's current source against their contracts; every
   obligation is discharged by the normaliser or by z3, for all inputs;
2. replay (vc/concrete.py, /opt/venv): counterexamples and path models of the verifier, and a bounded number of generated inputs, are run
   through the same contracts on the real code with the real numpy;
3. verdict and evidence."""
import os, sys, json, time, subprocess, multiprocessing as mp, signal, resource, hashlib, ast, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/veriftools/pyvenv/bin/python'
if __name__ == '__main__' and os.path.exists(PY) and os.environ.get('VC_REEXEC') != '1':
    os.environ['VC_REEXEC'] = '1'
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
REPO = os.environ.get('VERIF_REPO', '/repo')
CPY = '/opt/venv/bin/python'
NPROC = min(8, os.cpu_count() or 2)

def worker(conn, i, kw, frame_only, limit):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        from vc import registry, engine
        K = registry.CONTRACTS[i]
        r = engine.Engine(K, fixed=kw, frame=frame_only, frame_only=frame_only, budget=limit).run().result()
    except MemoryError:
        r = {'error': 'memory'}
    except BaseException as e:
        r = {'error': '%s: %s' % (type(e).__name__, e), 'trace': traceback.format_exc()[-2000:]}
    try: conn.send_bytes(json.dumps(r).encode())
    except Exception: conn.send_bytes(json.dumps({'error': 'result not serialisable'}).encode())
    conn.close()
    os._exit(0)

def run_symbolic(jobs, frame_only, mult=1.0, end=None):
    """jobs: [(contract index, fixed sizes)] -> results in order; all contracts stop at the time end"""
    from vc import registry
    res = [None] * len(jobs)
    todo = list(range(len(jobs)))
    todo.sort(key=lambda j: -registry.CONTRACTS[jobs[j][0]].budget)
    live = {}
    while todo or live:
        while todo and len(live) < NPROC:
            j = todo.pop(0)
            i, fixed = jobs[j]
            K = registry.CONTRACTS[i]
            limit = K.budget * mult
            if end: limit = max(1, min(limit, end - time.time()))
            a, b = mp.Pipe(False)
            pr = mp.Process(target=worker, args=(b, i, fixed, frame_only, limit))
            pr.start(); b.close()
            live[j] = (pr, a, min(time.time() + limit * 1.3 + 15, (end or 1e12) + 40))
        done = mp.connection.wait([v[1] for v in live.values()], timeout=0.5)
        for j, (pr, a, dl) in list(live.items()):
            if a in done:
                try: res[j] = json.loads(a.recv_bytes())
                except (EOFError, OSError): res[j] = {'error': 'verifier process died'}
            elif time.time() > dl:
                res[j] = {'error': 'time limit'}
            else: continue
            if pr.is_alive() and res[j].get('error') == 'time limit': pr.kill()
            pr.join(5)
            if pr.is_alive(): pr.kill(); pr.join()
            a.close()
            del live[j]
    for j, r in enumerate(res):
        if 'error' in r and 'obligations' not in r:
            K = registry.CONTRACTS[jobs[j][0]]
            res[j] = {'contract': K.id, 'obligations': [], 'paths': 0, 'unsupported': 'verifier: ' + r['error'], 'where': '', 'trace': r.get('trace', ''), 'assumed': [], 'models': [], 'refuted': [], 'time': 0, 'solver_time': 0, 'fixed': jobs[j][1]}
    return res

def run_concrete(jobs, timeout):
    """jobs spread over processes of the real interpreter"""
    if not jobs: return []
    shards = [jobs[k::NPROC] for k in range(min(NPROC, len(jobs)))]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
    env.pop('VC_REEXEC', None)
    ps = []
    for s in shards:
        p = subprocess.Popen([CPY, os.path.join(HERE, 'vc', 'concrete.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd='/')
        p.stdin.write(json.dumps(s).encode()); p.stdin.close(); p.stdin = None
        ps.append((p, s))
    out = {}
    from concurrent.futures import ThreadPoolExecutor
    def wait(ps1):
        p, s = ps1
        try:
            o, e = p.communicate(timeout=timeout)
            return json.loads(o), s, e
        except Exception as ex:
            p.kill()
            return None, s, '%s' % (ex,)
    with ThreadPoolExecutor(len(ps)) as ex:
        for r, s, e in ex.map(wait, ps):
            for k, j in enumerate(s):
                out[j['key']] = r[k] if r else {'contract': j['contract'], 'error': 'concrete runner: %s' % (e[-800:] if isinstance(e, str) else e.decode(errors='replace')[-800:]), 'failures': [], 'reached': {}, 'runs': 0, 'skipped': 0, 'model_runs': 0}
    return [out[j['key']] for j in jobs]

def strip(node):
    """code of a module without comments and docstrings"""
    for n in ast.walk(node):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:] or [ast.Pass()]
    return node
def code_hash():
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(os.path.join(REPO, 'blmath'))):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.c'): h.update(open(os.path.join(d, f), 'rb').read())
            if f.endswith('.py') and not f.startswith('test'):
                try: s = ast.dump(strip(ast.parse(open(os.path.join(d, f)).read())))
                except SyntaxError: s = 'syntax error'
                h.update((f + s).encode())
    return h.hexdigest()

def repo_path(target):
    parts = target.split('.')
    for k in range(len(parts), 0, -1):
        p = os.path.join(REPO, *parts[:k]) + '.py'
        if os.path.exists(p): return '/'.join(parts[:k]) + '.py:' + '.'.join(parts[k:])
    return target

def load_json(p, d):
    try: return json.load(open(os.path.join(HERE, p)))
    except FileNotFoundError: return d

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from vc import registry, solver
    Ks = registry.load_all()
    frame_only = pid == 'P31'
    idx = [i for i, K in enumerate(Ks) if (K.frame if frame_only else K.prop == pid)]
    if not idx:
        print('no contract for %s' % pid); return 2
    base = load_json('baseline.json', {})
    same_code = base.get('code') == code_hash()
    known = [k for k in load_json('known_findings.json', {'findings': []})['findings'] if k['property'] == pid and k.get('status') == 'open']
    mult = 1.0 if tier == 'quick' else 4.0
    end = None
    if tier == 'quick':
        # a first look at run time at code which is not the recorded one: how long to try proofs that may be lost
        early = False
        if not same_code:
            first = run_concrete([{'key': i, 'contract': Ks[i].id, 'seed': seed, 'samples': max(12, Ks[i].samples // 4) if frame_only else Ks[i].samples, 'models': [], 'frame': frame_only, 'frame_only': frame_only, 'budget': 15} for i in idx], 120)
            early = any(r['failures'] for r in first)
        end = time.time() + (60 if early else 480)
    # ---- 1. the verifier
    jobs = [(i, {}) for i in idx if not Ks[i].concrete_only]
    res = run_symbolic(jobs, frame_only, mult, end)
    sym = {jobs[k][0]: res[k] for k in range(len(jobs))}
    fb = []
    for i, r in sym.items():
        if Ks[i].fallback and (r['unsupported'] or any(o['status'] == 'unknown' or (o['status'] == 'refuted' and o['reason'] != 'complete') for o in r['obligations'])):
            fb += [(i, f) for f in Ks[i].fallback]
    fres = run_symbolic(fb, frame_only, mult, end and end + 60) if fb else []
    sized = {}
    for (i, f), r in zip(fb, fres): sized.setdefault(i, []).append(r)
    # ---- 2. replay and run-time contract checking on the real code
    cj = []
    for i in idx:
        K = Ks[i]
        models = []
        for r in [sym.get(i)] + sized.get(i, []):
            if r:
                models += [x['inputs'] for x in r['refuted'] if x['inputs']][:10]
                models += r['models']
        n = K.samples * (1 if tier == 'quick' else 25)
        if frame_only: n = max(12, n // 4)
        cj.append({'key': i, 'contract': K.id, 'seed': seed, 'samples': n, 'models': models[:40], 'frame': frame_only, 'frame_only': frame_only, 'budget': (40 if tier == 'quick' else 300)})
    con = dict(zip(idx, run_concrete(cj, 600 if tier == 'quick' else 3600)))
    # the code is not the recorded one: look harder at run time before believing what proofs do not settle
    escalated = not same_code and tier == 'quick' and not any(con[i]['failures'] for i in idx)
    if escalated:
        left = max(60, 600 - (time.time() - t0))
        per = max(5, min(60, 0.6 * left / -(-len(idx) // NPROC)))
        more = [dict(j, seed=seed + 7000, samples=j['samples'] * 10, models=[], budget=per) for j in cj]
        for i, r in zip(idx, run_concrete(more, left + 60)):
            if r.get('error'): continue
            a = con[i]
            a['failures'] += r['failures']
            for k in ('runs', 'skipped'): a[k] += r[k]
            for k, v in r['reached'].items(): a['reached'][k] = a['reached'].get(k, 0) + v
    # ---- 3. verdict
    viol, notes, errors = [], [], []
    contracts = []
    tot = {'obligations': 0, 'discharged': 0, 'bounded_obligations': 0, 'bounded_discharged': 0}
    back = {}
    assumed, funcs = [], {}
    solver_time = 0.0
    kf = []
    for i in idx:
        K, r, cr = Ks[i], sym.get(i), con[i]
        if cr.get('error'): errors.append('%s: %s' % (K.id, cr['error']))
        failed = {}
        for f in cr['failures']: failed.setdefault(f['obligation'], f)
        bl = base.get('contracts', {}).get(('F:' if frame_only else '') + K.id, {})
        entry = {'contract': K.id, 'about': K.doc().split('\n')[0], 'functions': K.targets, 'runtime': {'runs': cr['runs'], 'skipped': cr['skipped'], 'replayed_models': cr['model_runs']}}
        obl = {}
        if r:
            solver_time += r['solver_time']
            for o in r['obligations']: obl[o['name']] = o
            entry['verifier'] = {'paths': r['paths'], 'seconds': r['time'], 'solver_seconds': r['solver_time']}
            if r['unsupported']: entry['verifier']['stopped'] = '%s (%s)' % (r['unsupported'][:300], r['where'])
            for a in r['assumed']:
                if a not in assumed: assumed.append(a)
        szd = {}
        for s in sized.get(i, []):
            solver_time += s['solver_time']
            for o in s['obligations']:
                if s['unsupported'] and o['status'] == 'proved': st = 'incomplete'
                else: st = o['status']
                cur = szd.get(o['name'])
                rank = {'refuted': 3, 'unknown': 2, 'incomplete': 1, 'proved': 0}
                if cur is None or rank[st] > rank[cur]: szd[o['name']] = st
            for a in s['assumed']:
                if a not in assumed: assumed.append(a)
        complete = bool(r) and not r['unsupported']
        names = list(dict.fromkeys(list(obl) + list(szd) + [n for n in cr['reached']]))
        ent = []
        for n in names:
            o = obl.get(n)
            if o and o['status'] == 'proved' and complete:
                st = 'bounded' if K.bounded else 'proved'
                if cr['runs'] and not cr['reached'].get(n) and not cr.get('error'): vac = True
                else: vac = False
                for h in o['how']: back[h] = back.get(h, 0) + 1
            elif szd.get(n) == 'proved': st, vac = 'bounded', False
            else: st, vac = ('unproved' if o is None or o['status'] in ('proved', 'unknown') else 'refuted'), False
            tot['obligations'] += 1
            if st == 'proved': tot['discharged'] += 1
            if st == 'bounded': tot['bounded_discharged'] += 1
            e = {'name': n, 'status': st, 'checked_at_run_time': cr['reached'].get(n, 0)}
            if o: e['back_end'] = o['how']; e['paths'] = o['paths']
            if vac: e['note'] = 'never decided at run time in this run'
            ent.append(e)
        entry['obligations'] = ent
        if K.bounded: entry['bound'] = K.bounded
        if sized.get(i): entry['bound'] = 'sizes fixed to %s' % json.dumps(K.fallback)
        if K.concrete_only: entry['not_proved_because'] = K.concrete_only
        for t in K.targets:
            full = complete and not K.bounded and all(e['status'] == 'proved' for e in ent)
            funcs.setdefault(t, []).append(full)
        contracts.append(entry)
        # violations: failures on the real code
        for n, f in failed.items():
            k = next((k for k in known if k['contract'] == K.id and k['obligation'] == n and all(f['inputs'].get(a) == b for a, b in k.get('inputs', {}).items())), None)
            if k: kf.append(k); continue
            viol.append({'contract': K.id, 'obligation': n, 'replayed': True, 'failure': f, 'verifier': [x for x in (r or {}).get('refuted', []) if x['obligation'] == n][:2]})
        if failed: continue
        # obligations that were discharged on the recorded tree and now fail
        lost = []
        for rr in ([r] if r else []) + sized.get(i, []):
            for o in rr['obligations']:
                if o['status'] == 'refuted' and o['reason'] == 'complete' and o['kind'] not in ('normal', 'raises'):
                    lost.append((o, 'refuted', rr))
        gone = [n for n, st in bl.items() if st == 'proved' and next((e['status'] for e in ent if e['name'] == n), '') != 'proved']
        if gone: entry['no_longer_proved'] = gone
        for o, why, rr in lost[:3]:
            if same_code and bl and bl.get(o['name']) == 'proved': continue      # the recorded proof stands: solver noise
            viol.append({'contract': K.id, 'obligation': o['name'], 'replayed': False, 'why': why, 'reason': o['reason'], 'goal': o.get('goal', ''), 'verifier': [x for x in rr['refuted'] if x['obligation'] == o['name']][:2]})
    out = sys.stdout
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    for k in {json.dumps(k, sort_keys=True): k for k in kf}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    shown = set()
    for n, v in enumerate(viol):
        path = os.path.join('evidence', 'replay', '%s-%d.json' % (pid, n + 1))
        v['how_to_replay'] = 'VERIF_REPO=%s %s tools/replay.py %s' % (REPO, CPY, path) if v['replayed'] else 'the verifier refutes the obligation; no input of the real code reproduced it'
        json.dump(v, open(os.path.join(HERE, path), 'w'), indent=1, default=str)
        if len(shown) < 5:
            print('%s: %s' % (v['contract'], v['obligation']), ('| %s | inputs %s' % (v['failure']['detail'][:300], json.dumps(v['failure']['inputs'])[:600])) if v['replayed'] else '| ' + v['why'])
        key = v['replayed']
        if (v['replayed'] or not any(x['replayed'] for x in viol)) and len(shown) < 5:
            shown.add(n)
            print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if v['replayed'] else ' no-failing-input-found'))
    runs = sum(con[i]['runs'] for i in idx)
    level = load_json('levels.json', {}).get(pid, 'other')
    full = sorted(repo_path(t) for t, l in funcs.items() if all(l))
    part = sorted(repo_path(t) for t, l in funcs.items() if not all(l))
    coverage = {
        'obligations': tot['obligations'], 'discharged': tot['discharged'], 'discharged_only_for_bounded_sizes': tot['bounded_discharged'],
        'left_to_run_time_checking': tot['obligations'] - tot['discharged'] - tot['bounded_discharged'],
        'checker_cmd': './check.py %s' % pid,
        'trusted_base': ['vc/: the symbolic executor, its normaliser and z3 4.x (obligations it passes to z3)', 'the contracts of numpy and the standard library in vc/npshim.py, vc/shims.py, vc/sym.py',
                         'real arithmetic for floating point; mathematical integers'] + assumed,
        'functions_under_contract': {'every obligation discharged': full, 'some obligation bounded or checked at run time only': part},
        'back_ends': back, 'solver_seconds': round(solver_time, 2),
        'evaluations': runs, 'run_time_contract_checks': sum(sum(con[i]['reached'].values()) for i in idx),
        'rule': 'run-time contract checks: generated inputs (six value styles, strided layouts, verifier models and path models); a case counts when no precondition skipped it',
        'distinct_nontrivial': runs,
        'samples': [{'contract': Ks[i].id, 'models_replayed': con[i]['model_runs'], 'runs': con[i]['runs']} for i in idx[:5]],
        'contracts': contracts,
        'explanation': 'Contracts on the functions of /repo, checked by deductive verification of the current source (vc/engine.py): %d of %d obligations discharged for all inputs, %d for bounded sizes only, the rest checked at run time on generated inputs (bounded, not counted as proved).' % (tot['discharged'], tot['obligations'], tot['bounded_discharged']),
    }
    if errors: coverage['errors'] = errors
    if escalated: coverage['escalated'] = 'the code differs from the recorded tree (baseline.json): ten times the generated inputs'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': coverage,
          'assumptions': ['floating point arithmetic is treated as real arithmetic in proofs; run-time checks use tolerances'] + assumed, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d bounded, %d run-time runs, %.1f s' % (pid, tot['obligations'], tot['discharged'], tot['bounded_discharged'], runs, time.time() - t0))
    if viol: return 1
    if errors:
        for e in errors: print('ERROR', e)
        return 2
    if tot['obligations'] == 0:
        print('ERROR no obligation generated'); return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
