"""P21: matrix inverse and pseudo-inverse with uncertainties."""
from fractions import Fraction as F
from symex.runner import Task

BOUNDS = ('from the defining equations: inverse 1x1, 2x2; pseudo-inverse 1x1, 1x2, 2x1, rank-one 2x2, 2x3, 3x2 (outer products of vectors with one free element or free '
          'derivatives, two base vectors each), 2x2 diagonal matrices with a cutoff; from the derivative formula of Golub and Pereyra: inverse up to 3x3 and pseudo-inverse '
          'of full rank up to 3x3 (4x4, 4x2, 2x4 thorough), numbers in general position (no derivative of the result vanishes by accident); elements: variables, '
          'one shared variable, quantities derived from it with any derivative, plain numbers; also up to 12x12 with listed nominal values and any derivatives; in units of 1e-13 to 1e13')
ASSUMPTIONS = ['the LAPACK kernels numpy.linalg.inv and pinv are foreign code, represented by their algebraic definitions (on plain numbers); everything that the '
               'package does around them is executed']


def element(E, kind, name, x0):
    v = E.real(name, lo=-9, hi=9)
    if kind == 'num':
        return v
    if kind == 'var':
        return E.u.ufloat(v, E.real('s' + name, lo=0, hi=5))
    if kind == 'x':
        return x0
    k = E.real('k' + name, lo=-9, hi=9)
    return E.core.wrap(lambda a: v, [lambda a: k])(x0)


def make(E, m, n, kinds, zeros=()):
    x0 = E.u.ufloat(E.real('x', lo=-9, hi=9), 0.5)
    return [[0.0 if (i, j) in zeros else element(E, kinds[(i * n + j) % len(kinds)], 'a%d%d' % (i, j), x0) for j in range(n)] for i in range(m)]


def typed(E, rows, form):
    if form == 'list':
        return rows
    a = E.np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            a[i, j] = v
    if form == 'fortran':
        return E.np.asfortranarray(a)
    if form == 'transposed':
        return E.np.array(a.T, order='C').T
    if form == 'strided':
        b = E.np.empty((2 * a.shape[0], a.shape[1]), dtype=object)
        b[:] = 0.5
        b[::-2] = a
        return b[::-2]
    return a if form == 'array' else a.view(E.unumpy.matrix) if form == 'umatrix' else a.view(E.np.matrix)


def result_type(E, X, form):
    if form not in ('umatrix', 'matrix'):
        E.check(not isinstance(X, E.np.matrix) and isinstance(X, E.np.ndarray), 'array')
    else:
        E.check(isinstance(X, E.unumpy.matrix), 'unumpy.matrix')


def tolist(E, X):
    m, n = X.shape
    return [[X[i, j] for j in range(n)] for i in range(m)]


def nom(E, A):
    return [[E.u.nominal_value(v) for v in r] for r in A]


def der(E, A, var):
    return [[E.get_deriv(v, var) if isinstance(v, E.u.UFloat) else 0.0 for v in r] for r in A]


def mul(A, B):
    r = []
    for i in range(len(A)):
        row = []
        for j in range(len(B[0])):
            t = A[i][0] * B[0][j]
            for k in range(1, len(B)):
                t = t + A[i][k] * B[k][j]
            row.append(t)
        r.append(row)
    return r


def tr(A):
    return [list(c) for c in zip(*A)]


def add(A, B):
    return [[a + b for a, b in zip(p, q)] for p, q in zip(A, B)]


def eq(E, A, B, what, scale=1.0):
    for i, (p, q) in enumerate(zip(A, B)):
        for j, (a, b) in enumerate(zip(p, q)):
            E.close(a, b, '%s [%d,%d]' % (what, i, j), rel=1e-5, scale=scale)


def ident(n):
    return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]


def variables(E, A):
    vs = []
    for r in A:
        for v in r:
            if isinstance(v, E.u.UFloat):
                for w in v.derivatives:
                    if all(w is not x for x in vs):
                        vs.append(w)
    return vs


def only_known(E, X, vs):
    for r in X:
        for v in r:
            for w in v.derivatives:
                E.check(any(w is x for x in vs), 'depends on the variables of the matrix only')


def minors(N):
    """Determinant."""
    if len(N) == 1:
        return N[0][0]
    t = 0.0
    for j in range(len(N)):
        t = t + (-1.0) ** j * N[0][j] * minors([r[:j] + r[j + 1:] for r in N[1:]])
    return t


def inverse(E):
    n, form = E.p['n'], E.p['form']
    A = make(E, n, n, E.p['kinds'])
    N = nom(E, A)
    d = minors(N)
    E.assume(E.OR(d > 0.01, d < -0.01))
    M = typed(E, A, form)
    X = M.I if E.p.get('attr') else E.unumpy.ulinalg.inv(M)
    result_type(E, X, form)
    E.check(X.shape == (n, n), 'shape')
    X = tolist(E, X)
    for r in X:
        E.check(all(isinstance(v, E.u.UFloat) for v in r), 'numbers with uncertainty')
    eq(E, mul(N, nom(E, X)), ident(n), 'A times its inverse')
    vs = variables(E, A)
    only_known(E, X, vs)
    Z = [[0.0] * n for _ in range(n)]
    for v in vs:
        # A X = 1  =>  dA X + A dX = 0
        eq(E, add(mul(der(E, A, v), nom(E, X)), mul(N, der(E, X, v))), Z, 'derivative of A times its inverse')
    eq(E, nom(E, A), N, 'matrix left alone')


def plain(E):
    """No uncertainty: the plain inverse."""
    A = [[E.real('a%d%d' % (i, j), lo=-9, hi=9) for j in range(2)] for i in range(2)]
    d = minors(A)
    E.assume(E.OR(d > 0.01, d < -0.01))
    X = (E.unumpy.ulinalg.inv if E.flag('inv') else E.unumpy.ulinalg.pinv)(E.array(A))
    for v in X.flat:
        E.check(not isinstance(v, E.u.UFloat), 'plain numbers')
    eq(E, mul(A, tolist(E, X)), ident(2), 'A times its inverse')


def singular(E):
    """numpy's exception for singular matrices."""
    a, b, k = (E.u.ufloat(E.choice(c, [0.0, 1.0, -2.0, 0.5]), 0.25) for c in 'abk')
    M = typed(E, [[a, b], [k * a, k * b]], 'array')
    try:
        E.unumpy.ulinalg.inv(M)
    except E.np.linalg.LinAlgError:
        E.check(True)
        return
    E.fail('no exception')


def pseudo(E):
    """Full rank."""
    m, n, form = E.p['m'], E.p['n'], E.p['form']
    A = make(E, m, n, E.p['kinds'])
    N = nom(E, A)
    G = mul(tr(N), N) if m >= n else mul(N, tr(N))
    E.assume(minors(G) > 0.01)
    M = typed(E, A, form)
    X = M.I if E.p.get('attr') else E.unumpy.ulinalg.pinv(M)
    result_type(E, X, form)
    E.check(X.shape == (n, m), 'shape')
    X = tolist(E, X)
    for r in X:
        E.check(all(isinstance(v, E.u.UFloat) for v in r), 'numbers with uncertainty')
    nX = nom(E, X)
    vs = variables(E, A)
    only_known(E, X, vs)
    eq(E, mul(G, nX) if m >= n else mul(nX, G), tr(N), 'definition')
    for v in vs:
        D, dX = der(E, A, v), der(E, X, v)
        if m >= n:      # G X = A^T
            dG = add(mul(tr(D), N), mul(tr(N), D))
            eq(E, add(mul(dG, nX), mul(G, dX)), tr(D), 'derivative')
        else:           # X G = A^T
            dG = add(mul(D, tr(N)), mul(N, tr(D)))
            eq(E, add(mul(nX, dG), mul(dX, G)), tr(D), 'derivative')


def contract(E):
    if E.sym:
        E.e.memo['la_contract'] = True
        E.e.generic = bool(E.p.get('generic'))


def neg(A):
    return [[-v for v in r] for r in A]


def rank_full(E, N):
    m, n = len(N), len(N[0])
    E.suppose(minors(N if m == n else mul(tr(N), N) if m > n else mul(N, tr(N))) > 0.01)


def formula(E):
    """Larger matrices: the result is X, with derivative -X dA X + X X' dA' (1 - A X) + (1 - X A) dA' X' X, for the X that NumPy returns."""
    m, n, form, attr = E.p['m'], E.p['n'], E.p['form'], E.p.get('attr')
    square = m == n and not E.p.get('pinv')
    contract(E)
    A = make(E, m, n, E.p['kinds'], E.p.get('zeros', ()))
    N = nom(E, A)
    rank_full(E, N)
    M = typed(E, A, form)
    R = M.I if attr else (E.unumpy.ulinalg.inv if square else E.unumpy.ulinalg.pinv)(M)
    result_type(E, R, form)
    E.check(R.shape == (n, m), 'shape')
    R = tolist(E, R)
    for r in R:
        E.check(all(isinstance(v, E.u.UFloat) for v in r), 'numbers with uncertainty')
    X = nom(E, R)
    vs = variables(E, A)
    only_known(E, R, vs)
    if square:
        eq(E, mul(N, X), ident(n), 'A times its inverse')
    else:
        P, Q = mul(N, X), mul(X, N)
        eq(E, mul(P, N), N, 'A X A')
        eq(E, P, tr(P), 'A X symmetric')
        eq(E, Q, tr(Q), 'X A symmetric')
    for v in vs:
        D, dX = der(E, A, v), der(E, R, v)
        want = neg(mul(mul(X, D), X))
        if not square:
            want = add(want, mul(mul(mul(X, tr(X)), tr(D)), add(ident(m), neg(P))))
            want = add(want, mul(mul(mul(add(ident(n), neg(Q)), tr(D)), tr(X)), X))
        eq(E, dX, want, 'derivative')
    eq(E, nom(E, A), N, 'matrix left alone')


def larger(E):
    """Larger matrices of listed nominal values, with any derivatives of some of the elements."""
    m, n, form = E.p['m'], E.p['n'], E.p['form']
    x, y = E.u.ufloat(1.5, 0.5), E.u.ufloat(-2.0, E.real('s', pos=True))
    if E.sym:
        E.e.generic = True
    ks = [E.real('k0', lo=-9, hi=9), 2.0, E.real('k1', lo=-9, hi=9), -0.5]
    N = [[float((i * i + 3 * j + 2 * i * j) % 7 - 3) + (6.5 if i == j else 0.0) for j in range(n)] for i in range(m)]
    A = []
    for i in range(m):
        A.append([])
        for j in range(n):
            v, c = N[i][j], (i * n + j) % 6
            if c == 1 or c == 4:
                k, l = ks[(i + j) % 4], ks[(i + 2 * j + 1) % 4]
                a = E.core.wrap(lambda a, b, v=v: v, [lambda a, b, k=k: k, lambda a, b, l=l: l])(x, y)
            elif c == 2:
                a = E.u.ufloat(v, 0.25)
            else:
                a = v
            A[i].append(a)
    square = m == n and not E.p.get('pinv')
    M = typed(E, A, form)
    R = (M.I if E.p.get('attr') else E.unumpy.ulinalg.inv(M) if square else E.unumpy.ulinalg.pinv(M))
    result_type(E, R, form)
    E.check(R.shape == (n, m), 'shape')
    R = tolist(E, R)
    X = nom(E, R)
    eq(E, mul(N, X) if m <= n else mul(X, N), ident(min(m, n)), 'A times its inverse')
    vs = variables(E, A)
    only_known(E, R, vs)
    P, Q = mul(N, X), mul(X, N)
    for v in [x, y] + [w for w in vs if w is not x and w is not y][:3]:
        D, dX = der(E, A, v), der(E, R, v)
        want = neg(mul(mul(X, D), X))
        if m != n:
            want = add(want, mul(mul(mul(X, tr(X)), tr(D)), add(ident(m), neg(P))))
            want = add(want, mul(mul(mul(add(ident(n), neg(Q)), tr(D)), tr(X)), X))
        eq(E, dX, want, 'derivative')
    eq(E, nom(E, A), N, 'matrix left alone')


def units(E):
    """Elements in small or large units: the derivatives of the result are as small or large as they should be."""
    off = E.p['off']
    x = E.u.ufloat(2.0, 0.5)
    k = E.real('k', lo=1, hi=9) * E.choice('sign', [1, -1])
    t = 10.0 ** off
    el = lambda v, d: E.core.wrap(lambda a: v * t, [lambda a: d * t])(x)
    N = [[2.0, 1.0], [-1.0, 3.0]] if E.p['n'] == 2 else [[2.0, 1.0], [-1.0, 3.0], [1.0, 1.0]]
    D = [[k, 0.5], [1.0, -2.0]] + ([] if E.p['n'] == 2 else [[0.0, k]])
    M = typed(E, [[el(v, d) for v, d in zip(p, q)] for p, q in zip(N, D)], E.p['form'])
    m = len(N)
    R = tolist(E, E.unumpy.ulinalg.inv(M) if m == 2 and not E.p.get('pinv') else E.unumpy.ulinalg.pinv(M))
    G = mul(tr(N), N)
    d = minors(G)
    X = mul([[G[1][1] / d, -G[0][1] / d], [-G[1][0] / d, G[0][0] / d]], tr(N))
    want = neg(mul(mul(X, D), X))
    if m != 2:
        P = mul(N, X)
        want = add(want, mul(mul(mul(X, tr(X)), tr(D)), add(ident(m), neg(P))))
    for i, r in enumerate(R):
        for j, v in enumerate(r):
            E.close(v.nominal_value * t, X[i][j], 'value', rel=1e-5)
            E.close(E.get_deriv(v, x) * t, want[i][j], 'derivative', rel=1e-5)


def vector(E, name, n, kinds, x0):
    """Elements: fixed numbers, fixed nominal values with any derivative, one free number."""
    fixed = [E.p['base' + name][i % len(E.p['base' + name])] for i in range(n)]
    out = []
    for i in range(n):
        k, v = kinds[i % len(kinds)], fixed[i]
        if k == 'free':
            v = E.real('%s%d' % (name, i), lo=-9, hi=9)
        elif k == 'der':
            d = E.real('k%s%d' % (name, i), lo=-9, hi=9)
            v = E.core.wrap(lambda a, v=v: v, [lambda a, d=d: d])(x0)
        elif k == 'var':
            v = E.u.ufloat(v, 0.5)
        elif k == 'freevar':
            v = E.u.ufloat(E.real('%s%d' % (name, i), lo=-9, hi=9), 0.5)
        out.append(v)
    return out


def rankone(E):
    """A = u v^T, with uncertain u and v: the rank stays one."""
    m, n = E.p['m'], E.p['n']
    x0 = E.u.ufloat(2.0, 0.5)
    u, v = vector(E, 'u', m, E.p['ku'], x0), vector(E, 'v', n, E.p['kv'], x0)
    nu, nv = [E.u.nominal_value(t) for t in u], [E.u.nominal_value(t) for t in v]
    su = sum((t * t for t in nu[1:]), nu[0] * nu[0])
    sv = sum((t * t for t in nv[1:]), nv[0] * nv[0])
    A = [[p * q for q in v] for p in u]
    if E.sym:
        E.e.generic = True

        def kernel(B, rcond):
            eq(E, [[B[i, j] for j in range(n)] for i in range(m)], [[p * q for q in nv] for p in nu], 'matrix of nominal values')
            r = E.np.empty((n, m), dtype=object)
            for i in range(n):
                for j in range(m):
                    r[i, j] = nv[i] * nu[j] * (1.0 / su) * (1.0 / sv)
            return r
        E.e.memo['pinv_override'] = kernel
    X = tolist(E, E.unumpy.ulinalg.pinv(typed(E, A, E.p['form']), *([1e-10] if E.p.get('rcond') else [])))
    s = su * sv
    nX = nom(E, X)
    eq(E, [[s * t for t in r] for r in nX], [[p * q for q in nu] for p in nv], 'pseudo-inverse')
    for w in variables(E, A):
        du = [E.get_deriv(t, w) if isinstance(t, E.u.UFloat) else 0.0 for t in u]
        dv = [E.get_deriv(t, w) if isinstance(t, E.u.UFloat) else 0.0 for t in v]
        ds = 0.0
        for a, b in zip(nu, du):
            ds = ds + 2 * a * b * sv
        for a, b in zip(nv, dv):
            ds = ds + 2 * a * b * su
        dX = der(E, X, w)
        for i in range(n):
            for j in range(m):
                E.close(ds * nX[i][j] + s * dX[i][j], dv[i] * nu[j] + nv[i] * du[j], 'derivative', rel=1e-4)


def cutoff(E):
    """Singular values that are small relative to the largest one are neglected."""
    a = E.u.ufloat(E.real('a', lo=0.5, hi=9), 0.25)
    rc = E.p['rcond']
    b = E.u.ufloat(E.real('b', lo=0.01 if rc else 1e-17, hi=0.4), 0.125)
    na, nb = a.nominal_value, b.nominal_value
    cut = (rc if rc is not None else 1e-15) * na
    E.assume(E.OR(nb > cut * 1.01, nb < cut * 0.99))
    if E.sym:
        def kernel(B, rcond):
            r = E.np.zeros((2, 2), dtype=object)
            r[0, 0] = 1 / B[0, 0]
            r[1, 1] = 1 / B[1, 1] if B[1, 1] > rcond * B[0, 0] else 0.0
            return r
        E.e.memo['pinv_override'] = kernel
    M = typed(E, [[a, 0.0], [0.0, b]], 'array')
    pinv = E.unumpy.ulinalg.pinv
    X = pinv(M) if rc is None else pinv(M, rc) if E.flag('pos') else pinv(M, rcond=rc)
    E.close(X[0, 0].nominal_value * na, 1.0, 'inverse')
    E.close(E.get_deriv(X[0, 0], a) * na * na, -1.0, 'derivative')
    if nb > cut:
        E.close(X[1, 1].nominal_value * nb, 1.0, 'inverse')
        E.close(E.get_deriv(X[1, 1], b) * nb * nb, -1.0, 'derivative')
    else:
        E.close(X[1, 1].nominal_value, 0.0, 'neglected')
        E.close(X[1, 1].std_dev, 0.0, 'neglected')
    E.close(X[0, 1].nominal_value, 0.0, 'off the diagonal')


def tasks(tier):
    T = []
    quick = tier == 'quick'
    # defining equations
    for form in ('list', 'array', 'umatrix', 'matrix'):
        T.append(Task(inverse, dict(n=1, form=form, kinds=['var'])))
    T.append(Task(inverse, dict(n=2, form='array', kinds=['var', 'num', 'num', 'num'])))
    T += [Task(plain), Task(singular)]
    for m, n in ((1, 2), (2, 1), (1, 1)):
        for kinds in (['var'],) + ((['x', 'der', 'num'],) if not quick or m == 1 else ()) + ((['num', 'var'],) if m != n else ()):
            for form, attr in (('array', 0), ('umatrix', m != n)):
                T.append(Task(pseudo, dict(m=m, n=n, form=form, attr=attr, kinds=kinds), weight=3))
    T.append(Task(pseudo, dict(m=2, n=1, form='list', kinds=['var'])))
    T.append(Task(pseudo, dict(m=1, n=2, form='matrix', kinds=['var'])))
    # formulas
    def f(m, n, kinds, form='array', **kw):
        T.append(Task(formula, dict(m=m, n=n, kinds=kinds, form=form, **kw), weight=3))
    for form in ('list', 'array', 'umatrix', 'matrix'):
        f(2, 2, ['var'], form, generic=1)
        f(2, 3, ['var'], form, generic=1)
    f(2, 2, ['var'], 'umatrix', generic=1, attr=1)
    for form in ('fortran', 'transposed', 'strided'):
        f(2, 2, ['var', 'num', 'x', 'der'], form, generic=1)
        f(2, 3, ['var', 'num', 'x', 'der', 'num'], form, generic=1)
    f(1, 3, ['var'], generic=1)
    f(3, 1, ['var'], generic=1)
    f(1, 4, ['x', 'num', 'der', 'num'], 'umatrix', generic=1, attr=1)
    f(2, 2, ['x', 'der', 'num', 'der'], generic=1)
    f(2, 2, ['x', 'der', 'var', 'num'], generic=1, pinv=1)
    f(2, 2, ['var', 'num', 'x', 'var'], 'umatrix', pinv=1, generic=1)
    f(2, 2, ['num', 'var', 'num', 'num'])
    f(2, 2, ['var'], zeros=((0, 1),))
    f(3, 3, ['var'], generic=1)
    f(3, 3, ['x'] + ['num'] * 3 + ['der'] + ['num'] * 4, 'umatrix', attr=1, generic=1)
    f(3, 2, ['var'], 'umatrix', attr=1, generic=1)
    f(3, 2, ['x', 'der', 'num', 'num', 'num', 'num'], generic=1)
    f(2, 3, ['num', 'x', 'num', 'num', 'der', 'num'], 'umatrix', attr=1, generic=1)
    f(3, 3, ['var'] + ['num'] * 8, pinv=1, generic=1)
    if not quick:
        f(3, 3, ['var'], pinv=1, generic=1)
        f(4, 4, ['var'], generic=1)
        f(4, 2, ['var'], generic=1)
        f(2, 4, ['var'], generic=1)
        f(3, 3, ['x', 'der'], generic=1)
    for m, n in ((2, 2), (2, 3), (3, 2)) + (() if quick else ((3, 3), (1, 3), (4, 2))):
        for ku, kv in ((['der'], ['der']), (['var'], ['num']), (['freevar', 'num'], ['num', 'num', 'num']), (['num'], ['num', 'freevar', 'num', 'num'])):
            for bu, bv in (((3.0, 4.0, -2.0, 1.0), (1.0, 2.0, 2.0)), ((1.0, -1.0, 0.5, 3.0), (0.0, 2.0, 1.0))):
                T.append(Task(rankone, dict(m=m, n=n, ku=ku, kv=kv, form='array' if bv[0] else 'umatrix', rcond=1, baseu=bu, basev=bv), weight=4))
    for m, n, form, kw in ((4, 4, 'array', {}), (5, 5, 'umatrix', dict(attr=1)), (7, 7, 'list', {}), (4, 4, 'fortran', dict(pinv=1)), (5, 3, 'array', {}),
                           (3, 6, 'umatrix', dict(attr=1)), (6, 1, 'array', {}), (2, 5, 'matrix', {}), (9, 9, 'array', {}), (12, 12, 'umatrix', {}), (1, 9, 'list', {}), (9, 4, 'strided', {})):
        T.append(Task(larger, dict(m=m, n=n, form=form, **kw), weight=3))
    for off in (-13, -6, 6, 13):
        for n, form, kw in ((2, 'array', {}), (3, 'umatrix', {}), (2, 'umatrix', dict(pinv=1))):
            T.append(Task(units, dict(off=off, n=n, form=form, **kw)))
    for rc in (None, 0.125, 1e-3):
        T.append(Task(cutoff, dict(rcond=rc)))
    return T
