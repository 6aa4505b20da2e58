"""P30: block-sparse matrices, masks and the solvers built on them; P33: sparse Cholesky factors."""
from vc.registry import contract
BS = 'blmath.numerics.linalg.static_block_sparse_matrix.'
CG = 'blmath.numerics.linalg.sparse_cg.'
LC = 'blmath.numerics.linalg.lchol.'
RT = 'scipy sparse matrices are external and their index structure is not modelled; checked at run time on generated matrices (%s)'

def rand(c): return c.np.random.RandomState(c.rng.randrange(2 ** 31))

def matrix(c, m, n, kinds=('csr', 'csc', 'coo', 'array'), wide=False):
    """a sparse matrix with a few dense rows and columns, and rows and columns without entries, in any format"""
    import scipy.sparse as sp
    np, r, g = c.np, c.rng, rand(c)
    M = np.where(g.random_sample((m, n)) < r.choice([.1, .3, .6]), g.randn(m, n), 0)
    for i in range(m):
        if r.random() < .15: M[i] = g.randn(n)
        elif r.random() < .1: M[i] = 0
    for j in range(n):
        if r.random() < .15: M[:, j] = g.randn(m)
        elif r.random() < .1: M[:, j] = 0
    if r.random() < .2: M = np.round(3 * M).astype(np.int64)
    elif wide and r.random() < .5: M = M * 10. ** g.randint(-200, 100, M.shape)
    elif r.random() < .3: M = M * 10. ** r.randint(-20, 15)
    c.inputs['M'] = M.tolist()
    kind = r.choice(kinds)
    if kind == 'array': return M, M
    if kind == 'coo' and r.random() < .5:
        # with repeated and explicitly zero entries
        i, j = np.nonzero(M)
        k = g.permutation(len(i))
        i, j = np.concatenate([i, i])[np.concatenate([k, k])] if 0 else i[k], j[k]
        d = M[i, j]
        h = d // 2 if d.dtype.kind == 'i' else d * .25
        S = sp.coo_matrix((np.concatenate([h, d - h, 0 * d[:1]]), (np.concatenate([i, i, i[:1]]), np.concatenate([j, j, j[:1]]))), shape=M.shape, dtype=M.dtype)
        return S, M
    return sp.coo_matrix(M).asformat(kind), M

def close(np, a, b, tol=1e-9, size=None):
    """equal within rounding of operands of the given size"""
    a = a.toarray() if hasattr(a, 'toarray') else np.asarray(a)
    return a.shape == b.shape and bool((abs(a - b) <= (tol * (1 + abs(b).max() if b.size else 1) if size is None else tol * (size.max() if size.size else 0))).all())

def kinds(c, n):
    """the sparsity given for n rows or columns: none, an empty array, or any choice"""
    np, r = c.np, c.rng
    k = r.choice(['detected', 'empty', 'any', 'any', 'all sparse', 'all dense'])
    if k == 'detected': return None
    if k == 'empty': return r.choice([[], np.array([], dtype=bool)])
    return np.array([k == 'all sparse' or (k == 'any' and r.random() < .6) for i in range(n)])

@contract('P30', 'products', [BS + 'StaticBlockSparseMatrix'], samples=500, concrete_only=RT % 'up to 9 x 9, any split', frame=True)
def products(c):
    """products with vectors and matrices, and with the transpose, whatever is declared or detected as sparse or dense"""
    np, r, g = c.np, c.rng, rand(c)
    m, n = r.randint(1, 9), r.randint(1, 9)
    if r.random() < .3: n = m
    S, M = matrix(c, m, n)
    k = {}
    rs, cs = kinds(c, m), kinds(c, n)
    if rs is not None: k['row_sparsity'] = rs
    if cs is not None: k['column_sparsity'] = cs
    if r.random() < .6: k['sparsity_threshold'] = r.choice([.3, .5, .9, 0.])
    B = c.value('StaticBlockSparseMatrix', BS + 'StaticBlockSparseMatrix', S, **k)
    v = g.randn(n) if r.random() < .8 else g.randint(-3, 4, n)
    X = g.randn(n, r.randint(1, 4))
    a = abs(M)
    c.prove('the shape', tuple(B.shape) == (m, n))
    b = c.value('matvec', B.matvec, v)
    c.prove('the product with a vector', np.shape(b) == (m,) and close(np, b, M.dot(v), size=a.dot(abs(v))))
    c.prove('the product with a matrix', close(np, c.value('matmat', B.matmat, X), M.dot(X), size=a.dot(abs(X))))
    c.prove('the product with its transpose on the right', close(np, c.value('MMT', B.MMT), M.dot(M.T), size=a.dot(a.T)))
    c.prove('the product with its transpose on the left', close(np, c.value('MTM', B.MTM), M.T.dot(M), size=a.T.dot(a)))
    L = c.value('linOp', lambda: B.linOp)
    c.prove('the linear operator', tuple(L.shape) == (m, n) and close(np, L.matvec(v), M.dot(v), size=a.dot(abs(v))) and close(np, L.matmat(X), M.dot(X), size=a.dot(abs(X))) and close(np, L.dot(v), M.dot(v), size=a.dot(abs(v))))
    s, d = B.row_sparsity, B.column_sparsity
    if rs is not None and len(rs): c.prove('the rows declared', list(s) == list(rs) and list(B.row_density) == [not x for x in rs] and B.num_sparse_rows + B.num_dense_rows == m)
    if cs is not None and len(cs): c.prove('the columns declared', list(d) == list(cs) and list(B.column_density) == [not x for x in cs] and B.num_sparse_columns + B.num_dense_columns == n)

@contract('P30', 'masks', [BS + 'mask_sparse_matrix', BS + 'mask_sparse_matrix_by_rows', BS + 'mask_sparse_matrix_by_columns'], samples=400, concrete_only=RT % 'up to 9 x 9')
def masks(c):
    """masking keeps exactly the entries in the selected rows and columns"""
    np, r = c.np, c.rng
    m, n = r.randint(1, 9), r.randint(1, 9)
    S, M = matrix(c, m, n, ('csr', 'csc', 'coo'), True)
    f = lambda k, some: np.array([r.random() < .5 for i in range(k)]) if r.random() < .8 else np.array([r.random() < .9 and not some for i in range(k)])
    R, C = f(m, False), f(n, False)
    a = c.value('by rows', BS + 'mask_sparse_matrix_by_rows', S, R)
    c.prove('the entries in the selected rows', close(np, a, M * R[:, None], 0) and a.dtype == M.dtype)
    a = c.value('by columns', BS + 'mask_sparse_matrix_by_columns', S, C)
    c.prove('the entries in the selected columns', close(np, a, M * C, 0) and a.dtype == M.dtype)
    if R.any() and C.any():
        a = c.value('by both', BS + 'mask_sparse_matrix', S, R, C)
        c.prove('the entries in the selected rows and columns', close(np, a, M * R[:, None] * C, 0) and a.dtype == M.dtype)

def definite(c, n, cond):
    """a symmetric positive definite matrix"""
    import scipy.sparse as sp
    np, g = c.np, rand(c)
    A = np.where(g.random_sample((n, n)) < .3, g.randn(n, n), 0)
    A = A.dot(A.T)
    A = A + np.eye(n) * (np.linalg.eigvalsh(A).max() / cond + .1)
    return A * c.rng.choice([1, 1, .01, 100])

@contract('P30', 'solver', [BS + 'StaticBlockSparseMatrix'], samples=300, concrete_only=RT % 'symmetric positive definite, up to 12 x 12')
def solver(c):
    """the conjugate gradient solver solves symmetric positive definite systems to the tolerance"""
    import scipy.sparse as sp
    np, r, g = c.np, c.rng, rand(c)
    n = r.randint(1, 12)
    A = definite(c, n, 10.)
    c.inputs['A'] = A.tolist()
    k = {}
    for name in ('row_sparsity', 'column_sparsity'):
        x = kinds(c, n)
        if x is not None: k[name] = x
    B = c.value('StaticBlockSparseMatrix', BS + 'StaticBlockSparseMatrix', sp.csr_matrix(A), **k)
    b = g.randn(n) if r.random() < .9 else np.zeros(n)
    tol = 1e-9
    k = {}
    if r.random() < .5: k['tol'] = tol = r.choice([1e-3, 1e-6, 1e-8])
    if r.random() < .4: k['x0'] = np.linalg.solve(A, b) if r.random() < .3 else g.randn(n)
    if r.random() < .5: k['maxiter'] = 4 * n + 10
    x, i = c.value('conjGradSolve', B.conjGradSolve, b, **k)
    if 'maxiter' not in k: tol = max(tol, 1e-6 * np.linalg.norm(b), 1e-6 * np.linalg.norm(A.dot(k['x0'])) if 'x0' in k else 0)   # as many iterations as unknowns: exact but for rounding
    c.prove('the vector solves the system to the tolerance', np.shape(x) == (n,) and float(np.linalg.norm(A.dot(x) - b)) <= max(tol, 1e-13 * np.linalg.norm(A) * np.linalg.norm(x)) * 1.001)

@contract('P30', 'preconditioned', [CG + 'block_sparse_cg_solve'], samples=40, concrete_only=RT % 'symmetric positive definite, up to 40 x 40, and 1100 x 1100 with dense rows and columns')
def preconditioned(c):
    """the preconditioned solver solves symmetric positive definite systems to its relative tolerance"""
    import scipy.sparse as sp
    np, r, g = c.np, c.rng, rand(c)
    if r.random() < .2:
        n = 1100
        k = r.randint(1, 3)
        A = sp.lil_matrix((n, n))
        A.setdiag(n * (1 + g.random_sample(n)))
        for j in r.sample(range(n), k):
            x = g.randn(n) * .3 + (0.01 if r.random() < .5 else 0)
            A[j, :] = x; A[:, j] = x.reshape(-1, 1); A[j, j] = 2 * n
        A = A.tocsr()
    else:
        n = r.randint(1, 40)
        A = sp.csr_matrix(definite(c, n, 50.))
    A = A.asformat(r.choice(['csr', 'csc']))
    b = g.randn(n)
    c.inputs.update(n=n)
    x = c.value('block_sparse_cg_solve', CG + 'block_sparse_cg_solve', A, b)
    c.prove('the vector solves the system to the tolerance', np.shape(x) == (n,) and float(np.linalg.norm(A.dot(x) - b)) <= 1.01e-5 * np.linalg.norm(b))

# ------------------------------------------------------------------ P33
_ext = []
def extension(c):
    """the extension module, compiled from the current source into a scratch folder"""
    import sys, os
    if not _ext:
        import subprocess, sysconfig, tempfile, atexit, shutil, importlib.util, importlib.machinery
        from vc.concrete import REPO
        d = tempfile.mkdtemp(prefix='cholmod')
        atexit.register(shutil.rmtree, d, True)
        so = os.path.join(d, 'cholmod.so')
        cmd = ['gcc', '-shared', '-fPIC', '-O0', '-fno-inline', '-w', '-I' + sysconfig.get_paths()['include'], '-I' + c.np.get_include(), '-I/usr/include/suitesparse',
               os.path.join(REPO, 'blmath/numerics/linalg/cholmod.c'), '-o', so, '-llapack', '-lcolamd', '-lamd', '-lcholmod']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise RuntimeError('cholmod.c does not compile: ' + r.stderr[-500:])
        name = 'blmath.numerics.linalg.cholmod'
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        m = importlib.util.module_from_spec(importlib.util.spec_from_loader(name, loader))
        loader.exec_module(m)
        _ext.append(m)
    import blmath.numerics.linalg
    sys.modules['blmath.numerics.linalg.cholmod'] = _ext[0]
    blmath.numerics.linalg.cholmod = _ext[0]

def quiet(f):
    """the warnings CHOLMOD prints are none of ours"""
    import os, sys
    def g(*a):
        sys.stdout.flush()
        old, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        try: return f(*a)
        finally:
            os.dup2(old, 1); os.close(old); os.close(null)
    return g

CRT = 'the factorisation is done by CHOLMOD through a C extension; checked at run time, with the extension compiled from the current source, on generated matrices of up to %s rows'

@contract('P33', 'factors', [LC + 'lchol', 'blmath/numerics/linalg/cholmod.c:cholmod_lchol_c'], samples=300, concrete_only=CRT % 60, frame=False)
def factors(c):
    """symmetric positive definite matrices: a lower-triangular factor, a permutation and no flag, the factor times its transpose being the permuted matrix"""
    import scipy.sparse as sp
    np, r, g = c.np, c.rng, rand(c)
    extension(c)
    n = r.choice([1, 2, 3, 5, 8, 12, 20, 60])
    kind = r.choice(['any', 'any', 'diagonal', 'arrow', 'band', 'dense', 'ints'])
    if kind == 'diagonal': A = np.diag(g.random_sample(n) + .1)
    elif kind == 'dense': A = g.randn(n, n); A = A.dot(A.T) + .5 * np.eye(n)
    elif kind == 'arrow': A = np.eye(n) * n; A[0, :] = A[:, 0] = .5; A[0, 0] = n
    elif kind == 'band': A = 2.5 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
    elif kind == 'ints': A = g.randint(-2, 3, (n, n)); A = A.dot(A.T) + np.eye(n, dtype=np.int64)
    else: A = np.where(g.random_sample((n, n)) < r.choice([.05, .2]), g.randn(n, n), 0); A = A.dot(A.T) + np.eye(n) * r.choice([.01, 1])
    if kind not in ('ints',): A = A * r.choice([1, 1, 1e-3, 1e4])
    if kind in ('dense', 'band') and r.random() < .2: A = A.astype(np.float32)
    p = list(range(n))
    if r.random() < .5: r.shuffle(p)
    A = A[p][:, p]
    c.inputs['A'] = A.tolist()
    S = sp.coo_matrix(A).asformat(r.choice(['csc', 'csc', 'csr']))
    if r.random() < .2 and S.nnz:
        # entries in another order
        for j in range(n):
            a, b = S.indptr[j], S.indptr[j + 1]
            q = a + g.permutation(b - a)
            S.indices[a:b], S.data[a:b] = S.indices[q].copy(), S.data[q].copy()
        S.has_sorted_indices = False
    before = [S.indices.copy(), S.indptr.copy(), S.data.copy()]
    L, flag, P = c.value('lchol', quiet(lambda: c.fn(LC + 'lchol')(S)))
    c.prove('no flag', flag == 0)
    L, P = L.toarray(), P.toarray()
    c.prove('a lower-triangular factor', L.shape == (n, n) and not np.triu(L, 1).any() and np.diag(L).min() > 0)
    c.prove('a permutation matrix', P.shape == (n, n) and bool(((P == 0) | (P == 1)).all()) and bool((P.sum(axis=0) == 1).all() and (P.sum(axis=1) == 1).all()))
    B = P.T.dot(A.astype(float)).dot(P)
    c.prove('the factor times its transpose is the permuted matrix', float(abs(L.dot(L.T) - B).max()) <= 1e-10 * abs(A).max())
    c.prove('the matrix given is left as it was', S.indices.dtype == before[0].dtype and all(x.dtype == y.dtype and bool((x == y).all()) for x, y in zip(before, [S.indices, S.indptr, S.data])))

@contract('P33', 'flagged', [LC + 'lchol', 'blmath/numerics/linalg/cholmod.c:cholmod_lchol_c'], samples=300, concrete_only=CRT % 20, frame=False)
def flagged(c):
    """matrices that are not positive definite are flagged"""
    import scipy.sparse as sp
    np, r, g = c.np, c.rng, rand(c)
    extension(c)
    n = r.choice([1, 2, 3, 5, 8, 20])
    kind = r.choice(['indefinite', 'negative', 'one', 'last', 'zero'])
    A = np.where(g.random_sample((n, n)) < .3, g.randn(n, n), 0)
    A = A + A.T
    if kind == 'zero': A = np.zeros((n, n))
    elif kind == 'negative': A = -A.dot(A) - np.eye(n)
    elif kind in ('one', 'last'):
        A = A.dot(A) + np.eye(n)
        k = n - 1 if kind == 'last' else r.randrange(n)
        A[k, k] = -r.choice([.1, 1, 10.])
    w = np.linalg.eigvalsh(A)
    c.well(lambda: kind == 'zero' or w[0] < -1e-6 * abs(w).max())
    c.inputs['A'] = A.tolist()
    S = sp.coo_matrix(A).asformat(r.choice(['csc', 'csr']))
    L, flag, P = c.value('lchol', quiet(lambda: c.fn(LC + 'lchol')(S)))
    c.prove('flagged', flag != 0 and 1 <= flag <= n)
