"""P22: wrap_array_func(): functions of arrays, with numerical derivatives."""
from symex.runner import Task
from checks.p21_inverse import element, typed, nom, der, mul, variables, only_known, tolist

BOUNDS = ('arrays of shapes 1x1 to 2x3 (linear maps: also 1 and 3 dimensions, Fortran order, reversed and strided) whose elements are variables, one shared variable, quantities derived from it with any derivative, '
          'and plain numbers; functions: all linear maps to another shape, elementwise squares and products of elements, with positional and keyword parameters; '
          'one variable of magnitude 1e-12 to 1e12 with any sigma up to the same magnitude; NaN, infinite, zero, huge and tiny sigmas; slopes of 1e-13 to 1e12; '
          'derivatives of the nonlinear ones to within 1e-4 of the scale of the values')
ASSUMPTIONS = ['finite differences are taken over the real numbers: rounding errors of the function itself are not represented']


def make(E, m, n, kinds):
    x0 = E.u.ufloat(E.real('x', lo=-9, hi=9), E.real('sx', lo=0, hi=5))
    return [[element(E, kinds[(i * n + j) % len(kinds)], 'a%d%d' % (i, j), x0) for j in range(n)] for i in range(m)]


def expect(E, R, val, jac, A):
    """Values val, and derivatives sum(jac[i][j][k][l] * dA[k][l])."""
    E.check(R.shape == (len(val), len(val[0])), 'shape')
    vs = variables(E, A)
    R = tolist(E, R)
    for i, r in enumerate(R):
        for j, t in enumerate(r):
            E.close(E.u.nominal_value(t), val[i][j], 'value')
    if not vs:
        for r in R:
            E.check(not any(isinstance(t, E.u.UFloat) for t in r), 'no uncertainty')
        return
    for r in R:
        E.check(all(isinstance(t, E.u.UFloat) for t in r), 'numbers with uncertainty')
    only_known(E, R, vs)
    for v in vs:
        D, dR = der(E, A, v), der(E, R, v)
        for i, r in enumerate(R):
            for j, t in enumerate(r):
                want = 0.0
                for k, d in enumerate(D):
                    for l, e in enumerate(d):
                        if jac[i][j][k][l] is not None:
                            want = want + jac[i][j][k][l] * e
                E.close(dR[i][j], want, 'derivative', rel=1e-4, scale=100.0 if E.p.get('loose') else 10.0)


def linear(E):
    m, n = E.p['m'], E.p['n']
    A = make(E, m, n, E.p['kinds'])
    L = [[E.real('l%d%d' % (i, j), lo=-3, hi=3) for j in range(m)] for i in range(E.p['r'])]
    c = E.real('c', lo=-9, hi=9)
    calls = []

    def f(arr, mat, offset=0.0):
        "Docs."
        calls.append((mat, offset))
        return E.np.dot(mat, arr) + offset
    M = typed(E, A, E.p['form'])
    mat = E.array(L)
    w = E.unumpy.core.wrap_array_func(f)
    E.check(w.__name__ == 'f', 'name')
    E.check('Docs.' in w.__doc__, 'documentation')
    R = w(M, mat, offset=c) if E.flag('kw') else w(M, mat, c)
    E.check(all(a is mat for a, _ in calls), 'parameters')
    N = nom(E, A)
    val = [[t + c for t in r] for r in mul(L, N)]
    jac = [[[[L[i][k] if l == j else None for l in range(n)] for k in range(m)] for j in range(n)] for i in range(len(L))]
    expect(E, R, val, jac, A)
    for a, b in zip(nom(E, A), N):
        for p, q in zip(a, b):
            E.close(p, q, 'argument left alone')


def nonlinear(E):
    m, n = E.p['m'], E.p['n']
    A = make(E, m, n, E.p['kinds'])
    N = nom(E, A)
    if E.p['f'] == 'square':
        def f(arr):
            return E.np.asarray(arr) * E.np.asarray(arr)
        val = [[t * t for t in r] for r in N]
        jac = [[[[2 * N[k][l] if (k, l) == (i, j) else None for l in range(n)] for k in range(m)] for j in range(n)] for i in range(m)]
    else:
        def f(arr):
            a = E.np.asarray(arr).flatten()
            return E.np.array([[a[0] * a[-1], a[0] + a[-1]]])
        p, q = N[0][0], N[-1][-1]
        val = [[p * q, p + q]]
        z = lambda s, t: [[s if (k, l) == (0, 0) else t if (k, l) == (m - 1, n - 1) else None for l in range(n)] for k in range(m)]
        jac = [[z(q, p), z(1.0, 1.0)]]
    R = E.unumpy.core.wrap_array_func(f)(typed(E, A, E.p['form']))
    expect(E, R, val, jac, A)


def shift(E):
    """Variables of any magnitude, exact or not: the shift is small, and large enough for floats."""
    lo, hi = E.p['win']
    x = E.u.ufloat(E.real('x', lo=10.0 ** lo, hi=10.0 ** hi) * E.choice('sign', [1, -1]), E.real('s', nonneg=True, hi=10.0 ** hi))
    v, k = x.nominal_value, E.real('k', lo=-9, hi=9)
    M = typed(E, [[x, k * x]], E.p['form'])
    seen = []

    def f(arr):
        seen.append((arr[0, 0], arr[0, 1]))
        return arr * 3
    R = E.unumpy.core.wrap_array_func(f)(M)
    for a, b in seen:
        d = a - v
        E.close(b, k * a, 'elements are shifted together')
        E.check(E.OR(d == 0, d >= 1e-11 * abs(v), d <= -1e-11 * abs(v)), 'the shift is not lost in rounding')
        E.check(E.AND(d <= 1e-4 * (abs(v) + x.std_dev), -d <= 1e-4 * (abs(v) + x.std_dev)), 'small shift')
    E.close(E.get_deriv(R[0, 0], x), 3.0, 'derivative', rel=1e-4)
    E.close(E.get_deriv(R[0, 1], x), 3 * k, 'derivative', rel=1e-4)


def units(E):
    """Small or large slopes, small or large units."""
    a, b = E.p['ab']
    c = E.real('c', lo=1, hi=9) * E.choice('sign', [1, -1])
    x = E.u.ufloat(E.real('x', lo=1, hi=9) * 10.0 ** a, E.real('s', nonneg=True, hi=1) * 10.0 ** a)
    k = E.real('k', lo=-9, hi=9)
    R = E.unumpy.core.wrap_array_func(lambda arr: arr * (c * 10.0 ** b))(typed(E, [[x, 1.0], [k * x, x + 10.0 ** a]], E.p['form']))
    for i, j, d in ((0, 0, 1.0), (0, 1, 0.0), (1, 0, k), (1, 1, 1.0)):
        E.close(E.get_deriv(R[i, j], x) * 10.0 ** -b, c * d, 'derivative', rel=1e-4)


def odd_sigma(E):
    """Variables whose sigma is NaN, infinite or huge have ordinary derivatives."""
    s = E.choice('s', [E.nan, E.inf, 0.0, 1e308, 5e-324])
    x, y = E.u.ufloat(E.real('x', lo=-9, hi=9), s), E.u.ufloat(E.real('y', lo=-9, hi=9), 0.5)
    if s < E.inf:
        E.assume(E.OR(x.nominal_value > 0.1, x.nominal_value < -0.1))
    k, c = E.real('k', lo=-9, hi=9), E.real('c', lo=-9, hi=9)
    R = E.unumpy.core.wrap_array_func(lambda a: E.np.dot(a, [[k, 1.0], [2.0, 0.0]]))(typed(E, [[x, y], [y, c]], E.p['form']))
    rows = {(0, 0): (k, 2.0), (0, 1): (1.0, 0.0), (1, 0): (0.0, k), (1, 1): (0.0, 1.0)}
    for (i, j), (p, q) in rows.items():
        if s != 1e308:      # (too large a shift for its result to be compared to anything)
            E.close(E.get_deriv(R[i, j], x), p, 'derivative', rel=1e-4)
            E.close(E.get_deriv(R[i, j], y), q, 'derivative', rel=1e-4)
        if i == 1:
            E.close(R[i, j].std_dev, abs(q) * 0.5, 'uncertainty of what does not depend on it')


def shapes(E):
    """Arrays of any number of dimensions, in any memory layout, to arrays of any shape."""
    shape, out = E.choice('shape', [(3,), (1,), (2, 1, 2)]), E.choice('out', [(2,), (1, 2, 1)])
    size = 1
    for k in shape:
        size *= k
    els = [r[0] for r in make(E, size, 1, ['x', 'der', 'num', 'der'])]
    layout = E.choice('layout', ['plain', 'fortran', 'reversed', 'strided'])
    if layout == 'strided':
        base = E.np.empty(2 * size, dtype=object)
        base[:] = 0.5
        base[::2] = els
        M = base[::2].reshape(shape) if len(shape) > 1 else base[::2]
    else:
        M = E.np.empty(size, dtype=object)
        M[:] = els if layout != 'reversed' else els[::-1]
        M = (M[::-1] if layout == 'reversed' else M).reshape(shape)
        if layout == 'fortran':
            M = E.np.asfortranarray(M)
    L = [[E.real('l%d%d' % (i, j), lo=-3, hi=3) for j in range(size)] for i in range(2)]
    mat = E.array(L)

    def f(arr):
        return E.np.dot(mat, arr.ravel()).reshape(out)
    R = E.unumpy.core.wrap_array_func(f)(M)
    E.check(R.shape == out, 'shape')
    N = [E.u.nominal_value(e) for e in els]
    vs = variables(E, [els])
    for i, t in enumerate(R.ravel()):
        E.check(isinstance(t, E.u.UFloat), 'number with uncertainty')
        E.close(t.nominal_value, sum(L[i][j] * N[j] for j in range(size)), 'value')
        E.check(all(any(w is v for v in vs) for w in t.derivatives), 'depends on the variables of the array only')
        for v in vs:
            want = 0.0
            for j, e in enumerate(els):
                if isinstance(e, E.u.UFloat):
                    want = want + L[i][j] * E.get_deriv(e, v)
            E.close(E.get_deriv(t, v), want, 'derivative', rel=1e-4, scale=10.0)


def tasks(tier):
    T = [Task(shift, dict(win=w, mags=(w,), form=f)) for w in ((-12, -9), (-3, 3), (9, 12)) for f in ('array', 'umatrix')]
    T += [Task(units, dict(ab=off, form=f)) for off in ((0, -13), (-10, -9), (9, -12), (0, 12), (-12, 10), (10, 10)) for f in ('array', 'umatrix')]
    T += [Task(odd_sigma, dict(form=f)) for f in ('array', 'umatrix')]
    T.append(Task(shapes, weight=4))
    quick = tier == 'quick'
    for form in ('array', 'umatrix', 'matrix'):
        for kinds in (['var'], ['x', 'der'], ['num'], ['var', 'num', 'der']):
            for m, n, r in ((1, 1, 1), (2, 1, 1), (1, 2, 2)) + (((2, 2, 1),) if quick else ((2, 2, 1), (2, 2, 2), (2, 3, 2))):
                T.append(Task(linear, dict(m=m, n=n, r=r, kinds=kinds, form=form)))
    T.append(Task(linear, dict(m=2, n=2, r=2, kinds=['var', 'num', 'num', 'der'], form='array')))
    T.append(Task(linear, dict(m=2, n=3, r=1, kinds=['num', 'x', 'num'], form='array')))
    for form in ('array', 'umatrix'):
        for kinds in (['var'], ['x', 'der', 'num'], ['num', 'var']):
            T.append(Task(nonlinear, dict(m=1, n=2, kinds=kinds, form=form, f='square', loose=1)))
            T.append(Task(nonlinear, dict(m=1, n=2, kinds=kinds, form=form, f='product', loose=1)))
            if not quick:
                T.append(Task(nonlinear, dict(m=2, n=2, kinds=kinds, form=form, f='product', loose=1)))
    return T
