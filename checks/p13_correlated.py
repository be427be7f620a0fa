"""P13: correlated_values() and correlated_values_norm()."""
from fractions import Fraction as F
from symex.runner import Task

BOUNDS = ('1-3 (quick) / 4 values; any nominal values; covariance matrices C = D V diag(w) V^T D, with arbitrary symbolic D, V and w (every positive '
          'semi-definite matrix has this form), with or without zero variances; matrices with eigenvalues that are negative '
          'for listed orthogonal V; 4-6 values with listed orthogonal V and symbolic variances; tags of several kinds')
ASSUMPTIONS = ['numpy.linalg.eigh is foreign code, represented by its contract: it returns (w, V) with C = V diag(w) V^T '
               '(the harness builds the matrix from w and V; the check verifies that the code calls it on this matrix)']

# Orthogonal matrices (times 15)
ORTHO = {1: [[[15]], [[-15]]],
         2: [[[15, 0], [0, 15]], [[9, -12], [12, 9]], [[0, 15], [-15, 0]]],
         3: [[[5, 10, 10], [10, 5, -10], [10, -10, 5]], [[9, 0, 12], [-12, 0, 9], [0, 15, 0]]],
         4: [[[15 * (i == j) - 7.5 for j in range(4)] for i in range(4)], [[0, 9, 0, 12], [15, 0, 0, 0], [0, 0, 15, 0], [0, -12, 0, 9]]],
         5: [[[15 * (i == j) - 6 for j in range(5)] for i in range(5)]],
         6: [[[15 * (i == j) - 5 for j in range(6)] for i in range(6)]]}


def gram(V, w, i, j):
    t = 0.0
    for k in range(len(w)):
        t = t + V[i][k] * V[j][k] * w[k]
    return t


def build(E, n, D, V, w, unit):
    """Correlation matrix (unit: exact ones on the diagonal, for non-zero D) and covariance matrix."""
    zero = [isinstance(d, float) and d == 0 for d in D]
    C = [[1.0 if i == j and unit and not zero[i] else gram(V, w, i, j) for j in range(n)] for i in range(n)]
    K = [[D[i] * D[i] if i == j and unit else D[i] * D[j] * C[i][j] for j in range(n)] for i in range(n)]
    return C, K


def contract(E, want, w, V):
    """eigh() is called on `want`, and gives w, V."""
    if not E.sym:
        return

    def eigh(a):
        n = len(w)
        E.check(a.shape == (n, n), 'square matrix')
        for i in range(n):
            for j in range(n):
                E.close(a[i, j], want[i][j], 'matrix to diagonalize')
        return E.np.array(w, dtype=object), E.np.array(V, dtype=object)
    E.e.memo['eigh_override'] = eigh


def container(E, rows):
    kind = E.p.get('container', 'array')
    if kind == 'array':
        return E.array(rows)
    if kind == 'matrix':
        return E.np.matrix(rows)
    return [list(r) for r in rows] if kind == 'list' else tuple(tuple(r) for r in rows)


def verify(E, us, n, nominal, K, tags, D, w):
    # (rounding errors are proportional to the standard deviations)
    sc = lambda i, j: 0 if E.sym else D[i] * D[j] * (1 + sum(map(abs, w)))
    E.check(len(us) == n and isinstance(us, tuple), 'one number per nominal value')
    M = E.u.covariance_matrix(us)
    for i in range(n):
        E.close(us[i].nominal_value, nominal[i], 'nominal value')
        for j in range(n):
            E.close(M[i][j], K[i][j], 'covariance %d,%d' % (i, j), scale=sc(i, j))
        E.close(us[i].std_dev * us[i].std_dev, K[i][i], 'variance', scale=sc(i, i))
    vs = set()
    for u in us:
        vs |= set(u.derivatives)
    E.check(len(vs) == n, 'expressed with n independent variables')
    if tags is not None:
        E.check(sorted((v.tag for v in vs), key=repr) == sorted(tags, key=repr), 'tags')
    else:
        E.check(all(v.tag is None for v in vs), 'no tags')
    return vs


def covariance(E):
    """correlated_values(): any positive semi-definite matrix."""
    n = E.p['n']
    x = [E.real('x%d' % i) for i in range(n)]
    z = E.p.get('zero', [])
    D = [0.0 if i in z else E.real('d%d' % i, pos=True) for i in range(n)]
    # (the rows of V for zero variances are zero)
    V = [[0.0 if i in z else E.real('v%d%d' % (i, j)) for j in range(n)] for i in range(n)]
    w = [E.real('w%d' % i, nonneg=True) for i in range(n)]
    for i in range(n):
        if i not in z:
            E.assume(gram(V, w, i, i) == 1 if E.sym else abs(gram(V, w, i, i) - 1) < 1e-9)
    C, K = build(E, n, D, V, w, True)
    contract(E, C, w, V)
    # (equal to K, given that the diagonal of C is 1)
    want = [[D[i] * D[j] * gram(V, w, i, j) for j in range(n)] for i in range(n)]
    tags = ['t%d' % i for i in range(n)] if E.p.get('tags') else None
    us = E.u.correlated_values(x, container(E, K), tags) if tags else E.u.correlated_values(x, container(E, K))
    verify(E, us, n, x, want, tags, D, w)


def scaled(E):
    """Same, with an exact eigenvalue decomposition (listed orthogonal matrices) and any eigenvalues; negative ones count for zero."""
    n = E.p['n']
    x = [E.real('x%d' % i) for i in range(n)]
    V = [[E.const(F(v) / 15) for v in r] for r in E.choice('V', ORTHO[n])]
    s = [E.real('s%d' % i, nonneg=True) for i in range(n)]
    w = [E.real('w%d' % i, lo=-1, hi=100) for i in range(n)] if not E.p.get('semi') else [E.real('w%d' % i, lo=0, hi=100) if i < 2 else E.const(F(i, 3)) for i in range(n)]
    C = [[gram(V, w, i, j) for j in range(n)] for i in range(n)]
    contract(E, C, w, V)
    wp = [t if t > 0 else 0.0 for t in w]
    K = [[s[i] * s[j] * gram(V, wp, i, j) for j in range(n)] for i in range(n)]
    tags = None
    if E.p.get('tags'):
        tags = E.choice('tags', [['t%d' % i for i in range(n)], ['same'] * n, ['', 0, None, ('a', 1), 'é', 2.5][-n:], tuple(range(n))])
    us = E.u.correlated_values_norm(list(zip(x, s)), container(E, C), *([tags] if tags else []))
    verify(E, us, n, x, K, tags, s, w)
    if E.flag('later'):
        # arithmetic on the result
        k = E.real('k', lo=-9, hi=9)
        r = us[0] * k + us[-1]
        E.close(r.std_dev * r.std_dev, (k * k * K[0][0] + 2 * k * K[0][n - 1] + K[n - 1][n - 1]) if n > 1
                else (k + 1) * (k + 1) * K[0][0], 'variance of a combination')


def norm(E):
    """correlated_values_norm(): covariance = correlation times the standard deviations, whatever they are."""
    n = E.p['n']
    x = [E.real('x%d' % i) for i in range(n)]
    s = [E.real('s%d' % i, nonneg=True) for i in range(n)]
    V = [[E.real('v%d%d' % (i, j)) for j in range(n)] for i in range(n)]
    w = [E.real('w%d' % i, nonneg=True) for i in range(n)]
    C = [[gram(V, w, i, j) for j in range(n)] for i in range(n)]
    K = [[s[i] * s[j] * C[i][j] for j in range(n)] for i in range(n)]
    contract(E, C, w, V)
    vals = list(zip(x, s))
    us = E.u.correlated_values_norm(vals, container(E, C))
    vs = verify(E, us, n, x, K, None, s, [4 * sum(abs(c) for r in C for c in r)] if not E.sym else w)
    ws = E.u.correlated_values_norm(vals, container(E, C))
    E.close(E.u.covariance_matrix([us[0], ws[-1]])[0][1], 0.0, 'each call gives new independent variables')


def roundtrip(E):
    """The covariance matrix of any numbers can be used to build numbers with the same covariances."""
    x, y = E.u.ufloat(E.real('x'), E.real('sx', pos=True)), E.u.ufloat(E.real('y'), E.real('sy', pos=True))
    a, b = E.real('a', nonzero=True), E.real('b')
    u, v = a * x, b * x + y
    K = E.u.covariance_matrix([u, v])
    if E.sym:
        # a decomposition of this matrix, in terms of the standard deviations
        su, sv = E.m.sqrt(K[0][0]), E.m.sqrt(K[1][1])
        r = K[0][1] / su / sv
        h = 1 / E.m.sqrt(2.0)
        w, V = [1 - r, 1 + r], [[h, h], [-h, h]]
        contract(E, [[1.0, r], [r, 1.0]], w, V)
    us = E.u.correlated_values([u.nominal_value, v.nominal_value], K)
    M = E.u.covariance_matrix(us)
    for i in range(2):
        for j in range(2):
            E.close(M[i][j], K[i][j], 'covariance')


def tasks(tier):
    T = []
    N = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    for n in N:
        T.append(Task(covariance, dict(n=n)))
        T.append(Task(covariance, dict(n=n, container='list', tags=1)))
        T.append(Task(norm, dict(n=n)))
        T.append(Task(norm, dict(n=n, container='tuple')))
        if n < 4:
            T.append(Task(scaled, dict(n=n)))
            T.append(Task(scaled, dict(n=n, tags=1, container='list')))
        for z in ([0], [n - 1]):
            T.append(Task(covariance, dict(n=n, zero=z)))
    for n in (4, 5, 6):
        T.append(Task(scaled, dict(n=n, semi=1)))
    T.append(Task(scaled, dict(n=4, tags=1, container='tuple', semi=1)))
    T.append(Task(covariance, dict(n=2, zero=[0, 1])))
    T.append(Task(covariance, dict(n=2, container='matrix')))
    T.append(Task(norm, dict(n=2, container='matrix')))
    T.append(Task(roundtrip))
    return T
