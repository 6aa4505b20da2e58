#!/usr/bin/env python3
"""plant.py FILE.py [id…]: develops seeded bugs. FILE defines BUGS = [dict(id, property, file, edits=[(old, new)…], needs, breaks, demo)].
Each is applied in a scratch copy of /repo; the stable tests must pass, the demo must pass without and fail with the change; then the
property's check is run against the scratch copy. Writes /verif/seeded/<id>/ when everything but the check holds."""
import os, sys, json, subprocess, shutil, tempfile, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'
DEMO = '#!/bin/sh\n# run with cwd = the repository after its build\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" %s "$(dirname "$0")/demo.py"\n' % PYTHON
def sh(cmd, cwd=None, env=None, timeout=1000):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)
def stable(repo, tmp):
    out = os.path.join(tmp, 'o.json')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    s = open('/opt/vp/test.sh').read().replace('/repo', repo)
    t = os.path.join(tmp, 'test.sh'); open(t, 'w').write(s)
    sh(['bash', t, out])
    return sorted(base - set(json.load(open(out))['passed']))
def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = set(a for a in sys.argv[2:] if not a.startswith('-'))
    for b in bugs:
        if want and b['id'] not in want: continue
        tmp = tempfile.mkdtemp(prefix='plant')
        try:
            repo = os.path.join(tmp, 'repo')
            sh(['cp', '-a', '/repo', repo])
            p = os.path.join(repo, b['file'])
            s = open(p).read()
            for old, new in b['edits']:
                assert s.count(old) == 1, (b['id'], s.count(old), old)
                s = s.replace(old, new)
            open(p, 'w').write(s)
            d = os.path.join(tmp, 'seed'); os.mkdir(d)
            open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
            open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
            open(os.path.join(d, 'patch.diff'), 'w').write(sh(['git', 'diff'], cwd=repo).stdout)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            r0 = sh(['sh', d + '/demo.sh'], cwd='/repo'); r1 = sh(['sh', d + '/demo.sh'], cwd=repo)
            broken = stable(repo, tmp)
            ok = r0.returncode == 0 and r1.returncode != 0 and not broken
            line = '%s: demo %d/%d, broken tests %s' % (b['id'], r0.returncode, r1.returncode, broken)
            if r0.returncode: line += '\n' + r0.stderr[-800:]
            if ok:
                dst = os.path.join(HERE, 'seeded', b['id'])
                os.makedirs(dst, exist_ok=True)
                for f in os.listdir(d): shutil.copy(os.path.join(d, f), os.path.join(dst, f))
            if '-n' not in sys.argv:
                bak = os.path.join(HERE, 'evidence', b['property'] + '.json')
                keep = open(bak).read() if os.path.exists(bak) else None
                r = sh([os.path.join(HERE, 'check.py'), b['property']], env={'VERIF_REPO': repo, 'VERIF_SEED': '1'})
                if keep: open(bak, 'w').write(keep)
                line += '; check exit %d: %s' % (r.returncode, ' | '.join(r.stdout.strip().split('\n')[-3:])[:400])
            print(('OK   ' if ok else 'BAD  ') + line, flush=True)
        finally: shutil.rmtree(tmp)
main()
