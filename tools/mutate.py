#!/usr/bin/env python3
"""mutate.py OUT [-j N] [-k FILE-PART] [-m STRIDE] [-o OFFSET] [-s SAMPLES-FACTOR]: mutants of /repo's source that pass the stable tests, judged by the
run-time contracts of the modules they touch (development aid: the survivors show what the contracts leave open). Works in scratch copies."""
import ast, sys, os, json, subprocess, shutil, tempfile, time, multiprocessing as mp
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: ('<', ['<=', '>=']), ast.LtE: ('<=', ['<']), ast.Gt: ('>', ['>=', '<=']), ast.GtE: ('>=', ['>']), ast.Eq: ('==', ['!=']), ast.NotEq: ('!=', ['==']), ast.Is: ('is', ['is not']), ast.IsNot: ('is not', ['is']), ast.In: ('in', ['not in']), ast.NotIn: ('not in', ['in'])}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.Pow: ['*'], ast.Mod: ['*'], ast.FloorDiv: ['/'], ast.BitAnd: ['|'], ast.BitOr: ['&']}
def mutants(src):
    """(line, description, new source)"""
    lines = src.split('\n')
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()) + 1)
    raw = src.encode()
    def pos(n): return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    def text(n): a, b = pos(n); return raw[a:b].decode()
    def sub(n, new): a, b = pos(n); return (raw[:a] + new.encode() + raw[b:]).decode()
    tree = ast.parse(src)
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): doc.add(n.body[0])
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name == 'main':
            for m in ast.walk(n): skip.add(m)
        if isinstance(n, ast.Raise):
            for m in ast.walk(n): skip.add(m)
    for n in ast.walk(tree):
        if n in skip and not isinstance(n, ast.Raise): continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0])][1]: yield n.lineno, 'compare ' + o, sub(n, '(%s %s %s)' % (text(n.left), o, text(n.comparators[0])))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant): continue
            for o in BIN[type(n.op)]: yield n.lineno, 'operator ' + o, sub(n, '((%s) %s (%s))' % (text(n.left), o, text(n.right)))
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            yield n.lineno, 'boolean' + o, sub(n, '(%s)' % o.join('(%s)' % text(v) for v in n.values))
            for i in range(len(n.values)): yield n.lineno, 'operand dropped', sub(n, '(%s)' % ((' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % text(v) for k, v in enumerate(n.values) if k != i)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) : yield n.lineno, 'unary dropped', sub(n, '(%s)' % text(n.operand))
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False: yield n.lineno, 'boolean constant', sub(n, str(not v))
            elif v is None: pass
            elif isinstance(v, int): yield n.lineno, 'constant+1', sub(n, str(v + 1)); yield n.lineno, 'constant-1', sub(n, '(%d)' % (v - 1))
            elif isinstance(v, float): yield n.lineno, 'constant*1.5', sub(n, repr(v * 1.5 if v else 1.0)); yield n.lineno, 'constant*1e4', sub(n, repr(v * 1e4 if v else -1.0))
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield n.lineno, 'condition negated', sub(n.test, '(not (%s))' % text(n.test))
            if not isinstance(n, ast.While): yield n.lineno, 'condition true', sub(n.test, 'True')
            yield n.lineno, 'condition false', sub(n.test, 'False')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) or (isinstance(n, ast.Expr) and n not in doc): yield n.lineno, 'statement dropped', sub(n, 'pass')
        elif isinstance(n, ast.Call):
            f = n.func
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a, b = n.args
                yield n.lineno, 'arguments swapped', (raw[:pos(a)[0]] + text(b).encode() + raw[pos(a)[1]:pos(b)[0]] + text(a).encode() + raw[pos(b)[1]:]).decode()
            if len(n.args) == 1 and isinstance(f, (ast.Name, ast.Attribute)) and not isinstance(n.args[0], (ast.Starred, ast.GeneratorExp)): yield n.lineno, 'call dropped', sub(n, '(%s)' % text(n.args[0]))
            if not n.args and isinstance(f, ast.Attribute): yield n.lineno, 'method dropped', sub(n, text(f.value))
            for k in n.keywords: 
                if k.arg and not n.args == [] : yield n.lineno, 'keyword dropped ' + k.arg, sub(n, '%s(%s)' % (text(f), ', '.join([text(a) for a in n.args] + ['%s=%s' % (q.arg, text(q.value)) if q.arg else '**' + text(q.value) for q in n.keywords if q is not k])))
        elif isinstance(n, ast.Attribute) and n.attr == 'T': yield n.lineno, '.T dropped', sub(n, text(n.value))
        elif isinstance(n, ast.Slice):
            for w in ('lower', 'upper'):
                if getattr(n, w) is not None: a, b = pos(getattr(n, w)); yield n.lineno, 'slice bound dropped', (raw[:a] + raw[b:]).decode()
        elif isinstance(n, ast.Break): yield n.lineno, 'break', sub(n, 'continue')
        elif isinstance(n, ast.Continue): yield n.lineno, 'continue', sub(n, 'break')
def sources():
    for d, ds, fs in sorted(os.walk(os.path.join(REPO, 'blmath'))):
        for f in sorted(fs):
            if f.endswith('.py') and not f.startswith('test') and f not in ('console.py', 'correspondence.py', '__init__.py'): yield os.path.relpath(os.path.join(d, f), REPO)
_w = {}
def work(job):
    k, f, line, what, new = job
    if 'repo' not in _w:
        _w['tmp'] = tempfile.mkdtemp(prefix='mutant', dir='/tmp')
        _w['repo'] = os.path.join(_w['tmp'], 'repo')
        subprocess.run(['cp', '-a', REPO, _w['repo']])
    p = os.path.join(_w['repo'], f)
    old = open(p).read()
    base = dict(k=k, file=f, line=line, what=what)
    try:
        try: compile(new, p, 'exec')
        except SyntaxError: return dict(base, st='syntax')
        open(p, 'w').write(new)
        diff = subprocess.run(['git', 'diff', '-U0'], cwd=_w['repo'], capture_output=True, text=True).stdout
        base['diff'] = '\n'.join(l for l in diff.split('\n') if l[:1] in '+-' and l[:3] not in ('+++', '---'))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0', VERIF_REPO=_w['repo'])
        try: r = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', '-o', 'junit_family=xunit2', '--continue-on-collection-errors', '--junitxml=%s/j.xml' % _w['tmp'], 'blmath'], cwd=_w['repo'], env=env, capture_output=True, text=True, timeout=120)
        except subprocess.TimeoutExpired: return dict(base, st='tests')
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', _w['tmp'] + '/o.json', 'junit:%s/j.xml' % _w['tmp']], capture_output=True)
        if STABLE - set(json.load(open(_w['tmp'] + '/o.json'))['passed']): return dict(base, st='tests')
        mod = f[:-3].replace('/', '.')
        jobs = [dict(key=i, contract=K, seed=1, samples=s, models=[], frame=False, frame_only=False, budget=12) for i, (K, t, s) in enumerate(KS) if any(x.startswith(mod + '.') for x in t)]
        jobs += [dict(j, frame=True, frame_only=True, samples=max(12, j['samples'] // 4)) for j in jobs]
        for q in range(0, len(jobs), 3):
            try: r = subprocess.run([PY, os.path.join(HERE, 'vc', 'concrete.py')], input=json.dumps(jobs[q:q + 3]), capture_output=True, text=True, env=env, cwd='/', timeout=240)
            except subprocess.TimeoutExpired: return dict(base, st='killed', by='timeout')
            try: out = json.loads(r.stdout)
            except ValueError: return dict(base, st='killed', by='error ' + r.stderr[-300:])
            for o in out:
                if o.get('error'): return dict(base, st='killed', by='error ' + o['error'][-300:])
                if o['failures']: return dict(base, st='killed', by=o['contract'] + ': ' + o['failures'][0]['obligation'])
        return dict(base, st='SURVIVED', contracts=len(jobs))
    finally: open(p, 'w').write(old)
if __name__ == '__main__':
    arg = lambda k, d: sys.argv[sys.argv.index(k) + 1] if k in sys.argv else d
    STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    KS = json.loads(subprocess.run([PY, '-c', 'import sys, json; sys.path.insert(0, %r)\nfrom vc import registry, concrete\nprint(json.dumps([(K.id, K.targets, K.samples) for K in registry.load_all()]))' % HERE], capture_output=True, text=True).stdout.strip().split('\n')[-1])
    stride, o = int(arg('-m', '1')), int(arg('-o', '0'))
    jobs, k = [], 0
    for f in sources():
        if arg('-k', '') not in f: continue
        for line, what, new in mutants(open(os.path.join(REPO, f)).read()):
            if k % stride == o and k >= int(arg('-from', '0')): jobs.append((k, f, line, what, new))
            k += 1
    print(len(jobs), 'mutants', flush=True)
    os.nice(10)
    n = {}
    with open(sys.argv[1], 'w') as out, mp.get_context('fork').Pool(int(arg('-j', '6'))) as p:
        for r in p.imap_unordered(work, jobs):
            n[r['st']] = n.get(r['st'], 0) + 1
            out.write(json.dumps(r) + '\n'); out.flush()
    print(n)
    for d in os.listdir('/tmp'):
        if d.startswith('mutant'): shutil.rmtree('/tmp/' + d)
