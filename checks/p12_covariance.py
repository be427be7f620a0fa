"""P12: covariance and correlation matrices."""
from symex.runner import Task

BOUNDS = ('1-3 (quick) / 4 numbers, each any linear function (arbitrary real coefficients, possibly zero) of 3 variables '
          'with any sigma >= 0, of one shared variable, of disjoint variables or of none; a NaN derivative with respect to an exact variable; NaN and infinite sigmas; plus one sigma change; also up to 10 numbers and 30 variables with concrete coefficients')
ASSUMPTIONS = ['rounding is outside the model (real arithmetic); overflow and underflow are modelled in the `extreme` tasks only (magnitudes up to 1e308, no subnormal intermediate results)']


def setup(E, n, nv, nonneg=True):
    vs = [E.u.ufloat(E.real('x%d' % i), E.real('s%d' % i, nonneg=nonneg, pos=not nonneg)) for i in range(nv)]
    us, rows = [], []
    for i in range(n):
        kind = E.choice('kind%d' % i, E.p['kinds'])
        if kind == 'var':
            us.append(vs[i % nv])
            rows.append([1.0 if j == i % nv else 0.0 for j in range(nv)])
            continue
        use = {'all': range(nv), 'one': [i % nv], 'two': [0, nv - 1], 'first': [0], 'none': []}[kind]
        cs = [E.real('c%d_%d' % (i, j)) if j in use else 0.0 for j in range(nv)]
        val = E.real('f%d' % i)

        def f(*a, val=val):
            return val
        if kind == 'none':
            us.append(vs[0] - vs[0] if E.flag('cancel%d' % i) else E.core.to_affine_scalar(val))
        else:
            us.append(E.core.wrap(f, [(lambda *a, c=cs[j]: c) for j in use])(*[vs[j] for j in use]))
        rows.append(cs)
    return vs, us, rows


def cov(rows, vs, i, j):
    t = 0.0
    for k, v in enumerate(vs):
        t = t + rows[i][k] * rows[j][k] * v.std_dev * v.std_dev
    return t


def covariance(E):
    n, nv = E.p['n'], E.p['nv']
    vs, us, rows = setup(E, n, nv)
    seq = us if E.choice('seq', ['list', 'tuple']) == 'list' else tuple(us)
    M = E.u.covariance_matrix(seq)
    E.check(len(M) == n and all(len(r) == n for r in M), 'square matrix')
    for i in range(n):
        for j in range(n):
            E.close(M[i][j], cov(rows, vs, i, j), 'covariance %d,%d' % (i, j))
    for i in range(n):
        E.close(M[i][i], us[i].std_dev * us[i].std_dev, 'diagonal is the variance')
    # later changes of sigma are seen
    vs[0].std_dev = E.real('new', nonneg=True)
    M2 = E.u.covariance_matrix(seq)
    E.close(M2[n - 1][0], cov(rows, vs, n - 1, 0), 'covariance after a sigma change')
    E.close(M[n - 1][0], M[0][n - 1], 'old matrix is symmetric and not modified')


def nan_derivative(E):
    """An exact variable does not contribute, even where a derivative is undefined."""
    x = E.u.ufloat(E.real('x'), 0)
    y = E.u.ufloat(E.real('y'), E.real('sy', nonneg=True))
    d = E.real('d')
    u = E.core.wrap(lambda a, b: 1.0, [lambda a, b: E.nan, lambda a, b: d])(x, y)
    M = E.u.covariance_matrix([u, x, y])
    E.close(M[0][0], d * d * y.std_dev * y.std_dev, 'variance')
    E.close(M[0][0], u.std_dev * u.std_dev, 'diagonal is std_dev squared')
    E.close(M[1][0], 0.0, 'covariance with an exact variable')
    E.close(M[2][0], d * y.std_dev * y.std_dev, 'covariance')


def nonfinite_sigma(E):
    """NaN and infinite sigmas are not ignored."""
    x = E.u.ufloat(E.real('x'), E.real('sx', nonneg=True, nan=True, inf=True))
    y = E.u.ufloat(E.real('y'), E.real('sy', nonneg=True, nan=True, inf=True))
    a, b = E.real('a', nonzero=True), E.real('b', nonzero=True)
    us = [x, y, E.core.wrap(lambda p, q: 1.0, [lambda p, q: a, lambda p, q: b])(x, y)]
    rows = [{0: 1.0}, {1: 1.0}, {0: a, 1: b}]
    M = E.u.covariance_matrix(us)
    for i in range(3):
        for j in range(3):
            t = 0.0
            for k, v in enumerate((x, y)):
                if k in rows[i] and k in rows[j]:
                    s = v.std_dev
                    c = rows[i][k] * rows[j][k]
                    if s != s:
                        t = E.nan
                    elif s == E.inf:
                        t = t + (E.inf if c > 0 else -E.inf)
                    elif not (s == 0):
                        t = t + c * s * s
            E.close(M[i][j], t, 'covariance %d,%d' % (i, j))


def correlation(E):
    n, nv = E.p['n'], E.p['nv']
    vs, us, rows = setup(E, n, nv, nonneg=False)
    for i in range(n):
        E.assume(E.NOT(cov(rows, vs, i, i) == 0))
    R = E.u.correlation_matrix(us)
    for i in range(n):
        for j in range(n):
            c = cov(rows, vs, i, j)
            r = R[i][j]
            E.close(r * us[i].std_dev * us[j].std_dev, c, 'correlation times sigmas is the covariance')
        E.close(R[i][i], 1.0, 'unit diagonal')
        for j in range(n):
            if n <= 2:
                E.check(E.AND(R[i][j] <= 1 + 1e-9, R[i][j] >= -1 - 1e-9), 'correlation is at most 1')
            E.close(R[i][j], R[j][i], 'symmetric')


def perfect(E):
    """Proportional quantities have correlation +-1, disjoint ones 0."""
    x = E.u.ufloat(E.real('x'), E.real('sx', pos=True))
    y = E.u.ufloat(E.real('y'), E.real('sy', pos=True))
    k = E.real('k', nonzero=True)
    R = E.u.correlation_matrix([x, k * x, y])
    E.close(R[0][1] * R[0][1], 1.0, 'proportional')
    E.check(R[0][1] > 0 if k > 0 else R[0][1] < 0, 'sign')
    E.close(R[0][2], 0.0, 'independent')
    E.close(R[1][2], 0.0, 'independent')


def wide(E):
    """Many numbers and variables, repeated elements, constants, arrays: concrete coefficients, any sigmas."""
    n, nv = E.choice('size', [(5, 3), (4, 9), (7, 2), (3, 30), (10, 6)] if not E.p['corr'] else [(4, 4)])
    vs = [E.u.ufloat(i + 0.5, E.real('s%d' % (i % 3), nonneg=True) if i < 3 else 0.25 * (i % 5)) for i in range(nv)]
    us, rows = [], []
    for i in range(n):
        if i % 4 == 3:
            us.append(us[i - 2])
            rows.append(rows[i - 2])
            continue
        cs = [((3 * i + 5 * j + i * j) % 7 - 2) * 0.5 for j in range(nv)]
        if i == 4:
            cs = [0.0] * nv
        t = 1.0 if i % 2 else E.core.to_affine_scalar(2.0)
        for c, v in zip(cs, vs):
            t = t + c * v
        us.append(t)
        rows.append(cs)
    make = E.choice('make', [list, tuple, lambda t: E.np.array(t, dtype=object)])
    M = E.u.covariance_matrix(make(us))
    E.check(len(M) == n and all(len(r) == n for r in M), 'square matrix')
    for i in range(n):
        for j in range(n):
            E.close(M[i][j], cov(rows, vs, i, j), 'covariance %d,%d' % (i, j))
    if E.p.get('corr'):
        sub = [0, 2, 1]
        for i in sub:
            E.assume(E.NOT(cov(rows, vs, i, i) == 0))
        R = E.u.correlation_matrix(make([us[i] for i in sub]))
        E.check(R.shape == (3, 3), 'square matrix')
        for i in range(3):
            for j in range(3):
                E.close(R[i][j] * us[sub[i]].std_dev * us[sub[j]].std_dev, M[sub[i]][sub[j]], 'correlation %d,%d' % (i, j))


def products(*a):
    n = len(a) // 3
    return sum([a[k] * a[k] * a[n + k] * a[2 * n + k] for k in range(n)])


def extreme(E):
    """Very large and very small sigmas (with the overflow and underflow of floats)."""
    vs, us, rows = [], [], []
    for i, (a, b) in enumerate(E.p['mags']):
        vs.append(E.u.ufloat(1.0, E.real('s%d' % i, lo=10.0 ** a, hi=9 * 10.0 ** a)))
        c = E.real('c%d' % i, lo=10.0 ** b, hi=9 * 10.0 ** b)
        if E.flag('neg%d' % i):
            c = -c
        us.append(E.core.wrap(lambda x: 1.0, [lambda x, c=c: c])(vs[i]))
        rows.append([c if j == i else 0.0 for j in range(len(E.p['mags']))])
    cs = [r[i] for i, r in enumerate(rows)]
    if len(us) == 2:
        us.append(E.core.wrap(lambda x, y: 1.0, [lambda x, y: cs[0], lambda x, y: cs[1]])(*vs))
        rows.append(cs)
    if E.p.get('corr'):
        R = E.u.correlation_matrix(us + [vs[0]])
        for i in range(len(us)):
            E.near(R[i][i], 1, 'unit diagonal')
        s = 1 if cs[0] > 0 else -1
        E.near(R[0][-1], s, 'correlation of proportional quantities')
        E.near(R[-1][0], s, 'correlation of proportional quantities')
        return
    M = E.u.covariance_matrix(us)
    for i in range(len(us)):
        for j in range(len(us)):
            E.check(M[i][j] == M[i][j], 'covariance is not NaN')
            want = E.exact(products, *[v.std_dev for v in vs] + rows[i] + rows[j])
            E.near(M[i][j], want, 'covariance %d,%d' % (i, j))


def tasks(tier):
    T = [Task(covariance, {'n': 1, 'nv': 2, 'kinds': ['all']}),
         Task(covariance, {'n': 2, 'nv': 2, 'kinds': ['all', 'var', 'one']}),
         Task(covariance, {'n': 3, 'nv': 3, 'kinds': ['all', 'var']}, weight=4),
         Task(covariance, {'n': 3, 'nv': 3, 'kinds': ['one', 'two']}, weight=4),
         Task(covariance, {'n': 2, 'nv': 2, 'kinds': ['first', 'none', 'var']}),
         Task(covariance, {'n': 3, 'nv': 2, 'kinds': ['first', 'all']}, weight=4),
         Task(nan_derivative), Task(nonfinite_sigma),
         Task(correlation, {'n': 1, 'nv': 2, 'kinds': ['all']}),
         Task(correlation, {'n': 2, 'nv': 2, 'kinds': ['var', 'all']}, weight=3),
         Task(correlation, {'n': 2, 'nv': 2, 'kinds': ['first', 'one']}, weight=3), Task(perfect)]
    T += [Task(wide, {'corr': c}) for c in (0, 1)]
    for mags in (((200, 0),), ((-200, 0),), ((200, -200),), ((-200, 200),), ((100, -100), (-200, 200)), ((155, -10), (155, -10)),
                 ((-290, 300), (-290, 290))):
        for corr in (0, 1)[:3 - len(mags)]:
            T.append(Task(extreme, {'mags': mags, 'corr': corr}, ieee=True))
    if tier == 'thorough':
        T += [Task(covariance, {'n': 4, 'nv': 3, 'kinds': ['all', 'var', 'two']}, weight=9),
              Task(correlation, {'n': 3, 'nv': 2, 'kinds': ['var', 'all']}, weight=9)]
    return T
