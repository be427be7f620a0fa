"""P20: unumpy arrays: construction, elementwise functions, arithmetic, matrices."""
from symex.runner import Task

BOUNDS = ('arrays of 1-4 elements in 1 or 2 dimensions (matrices up to 2x2 / 3x3; also 0, 3 dimensions, empty, Fortran order, strided and larger arrays), each element a variable, a derived quantity that shares it, or a plain '
          'number, with any real values (transcendental functions: |x| < 20)')
ASSUMPTIONS = ['NumPy itself (object arrays, broadcasting, vectorize) is executed, not modelled; symbolic elements live in object arrays']

UNARY = [('arccos', 'acos'), ('arccosh', 'acosh'), ('arcsin', 'asin'), ('arcsinh', 'asinh'), ('arctan', 'atan'), ('arctanh', 'atanh')] + [
    (f, f) for f in ('cos', 'cosh', 'degrees', 'erf', 'erfc', 'exp', 'expm1', 'fabs', 'gamma', 'lgamma', 'log', 'log10', 'log1p', 'radians',
                     'sin', 'sinh', 'sqrt', 'tan', 'tanh', 'ceil', 'floor', 'trunc', 'isnan', 'isinf')]
BINARY = [('arctan2', 'atan2'), ('copysign', 'copysign'), ('fmod', 'fmod'), ('hypot', 'hypot'), ('pow', 'pow'), ('ldexp', 'ldexp'), ('log', 'log')]
RANGE = {'gamma': (0.25, 8), 'lgamma': (0.25, 8), 'tan': (-1.5, 1.5), 'tanh': (-6, 6), 'erf': (-5, 5), 'erfc': (-5, 5), 'log': (0.01, 20), 'log10': (0.01, 20),
         'acosh': (1.25, 20), 'acos': (-0.75, 0.75), 'asin': (-0.75, 0.75), 'atanh': (-0.75, 0.75), 'log1p': (-0.75, 9), 'sqrt': (0.01, 99),
         'ceil': (-3, 3), 'floor': (-3, 3), 'trunc': (-3, 3)}


def attempt(fn, *a):
    try:
        return fn(*a), None
    except (ValueError, ZeroDivisionError, OverflowError) as e:
        return None, type(e)


def agree(E, got, want, what):
    """The same number, with the same dependencies."""
    if isinstance(want, E.u.UFloat):
        E.check(isinstance(got, E.u.UFloat), what + ': has an uncertainty')
        E.close(got.nominal_value, want.nominal_value, what + ': nominal value')
        d, w = got.derivatives, want.derivatives
        E.check(set(d) == set(w), what + ': variables')
        for v in w:
            E.close(d[v], w[v], what + ': derivative')
    else:
        E.check(not isinstance(got, E.u.UFloat), what + ': no uncertainty')
        E.close(got * 1.0, want * 1.0, what + ': value')


def element(E, kind, name, x0, lo=None, hi=None):
    v = E.real(name, lo=lo, hi=hi)
    if kind == 'num':
        return v
    if kind == 'var':
        return E.u.ufloat(v, E.real('s' + name, nonneg=True))
    k = E.real('k' + name)
    return E.core.wrap(lambda a: v, [lambda a: k])(x0)        # derived from x0


def elements(E, kinds, lo=None, hi=None):
    x0 = E.u.ufloat(E.real('x', lo=lo, hi=hi), E.real('sx', nonneg=True))
    out = []
    for i, k in enumerate(kinds):
        out.append(x0 if k == 'x' else element(E, k, 'e%d' % i, x0, lo, hi))
    return out


def arr_of(E, els, shape):
    a = E.np.empty(len(els), dtype=object)
    for i, e in enumerate(els):
        a[i] = e
    return a.reshape(shape)


def unary(E):
    uname, mname = E.p['f']
    lo, hi = RANGE.get(mname, (-20, 20))
    els = elements(E, E.p['kinds'], lo, hi)
    a = arr_of(E, els, E.p['shape'])
    f = getattr(E.umath, mname)
    want = [f(e) for e in els]
    got = getattr(E.unumpy, uname)(a)
    E.check(got.shape == a.shape, 'shape')
    for i, (g, w) in enumerate(zip(got.flat, want)):
        agree(E, g, w, '%s, element %d' % (uname, i))
    E.check(all(p is q for p, q in zip(a.flat, els)), 'argument left alone')


def domain(E):
    """Outside the domain, the exception is that of umath."""
    uname, mname = E.p['f']
    els = elements(E, ['var', 'num'])
    f = getattr(E.umath, mname)
    r = [attempt(f, e) for e in els]
    exc = [x for _, x in r if x is not None]
    got, gexc = attempt(getattr(E.unumpy, uname), arr_of(E, els, (2,)))
    E.check(gexc is (exc[0] if exc else None), 'exceptions of umath')


def binary(E):
    uname, mname = E.p['f']
    lo, hi = {'pow': (0.5, 4), 'hypot': (0.5, 9), 'fmod': (0.5, 3), 'atan2': (0.5, 9), 'log': (2.0, 9)}.get(mname, (0.5, 9))
    els = elements(E, E.p['kinds'], lo, hi)
    a = arr_of(E, els, (len(els),))
    f = getattr(E.umath, mname)
    if mname == 'ldexp':
        b = 3
    elif E.flag('array'):
        b = arr_of(E, [element(E, 'var', 'b%d' % i, None, lo, hi) for i in range(len(els))], a.shape)
    else:
        b = element(E, E.choice('bk', ['var', 'num']), 'b', None, lo, hi)
    bs = list(b) if hasattr(b, 'shape') and b.shape else [b] * len(els)
    got = getattr(E.unumpy, uname)(a, b)
    for i, e in enumerate(els):
        agree(E, got[i], f(e, bs[i]), '%s, element %d' % (uname, i))


def layouts(E):
    """Any number of dimensions, any memory layout, no element, many elements."""
    els = elements(E, ['var', 'num', 'der', 'x', 'num', 'var', 'num', 'var'])
    base = arr_of(E, els, (8,))
    form = E.choice('form', ['3d', '4d', '0d', 'slice', 'reversed', 'fortran', 'transposed', 'broadcast', 'fancy', 'readonly', 'big', 'empty', 'empty2'])
    a = {'3d': lambda: base.reshape(2, 2, 2), '4d': lambda: base[:4].reshape(1, 2, 1, 2), '0d': lambda: base[5:6].reshape(()),
         'slice': lambda: base[::3], 'reversed': lambda: base.reshape(4, 2)[::-1, ::-1], 'fortran': lambda: E.np.asfortranarray(base.reshape(2, 4)),
         'transposed': lambda: base.reshape(2, 4).T, 'broadcast': lambda: E.np.broadcast_to(base[:3], (2, 3)), 'fancy': lambda: base[[5, 0, 0, 3]],
         'readonly': lambda: base.copy(), 'big': lambda: E.np.tile(base, 150), 'empty': lambda: base[:0], 'empty2': lambda: base.reshape(2, 4)[:, :0]}[form]()
    if form == 'readonly':
        a.flags.writeable = False
    pairs = list(zip(E.np.ndindex(a.shape), a.ravel()))
    N, S = E.unumpy.nominal_values(a), E.unumpy.std_devs(a)
    E.check(N.shape == a.shape and S.shape == a.shape, 'shapes')
    seen = {}
    for i, e in pairs:
        if id(e) in seen and form == 'big':
            E.check(N[i] is N[seen[id(e)]] or bool(N[i] == N[seen[id(e)]]), 'nominal value')
            E.check(S[i] is S[seen[id(e)]] or bool(S[i] == S[seen[id(e)]]), 'sigma')
            continue
        seen[id(e)] = i
        E.close(N[i], E.u.nominal_value(e), 'nominal value')
        E.close(S[i], E.u.std_dev(e), 'sigma')
    if form.startswith('empty'):
        E.check(E.unumpy.sin(a).shape == a.shape and E.unumpy.uarray(N, S).shape == a.shape, 'empty results')
        return
    c = E.u.ufloat(E.real('c'), 1.0)
    for name in ('degrees', 'fabs'):
        got = getattr(E.unumpy, name)(a)
        E.check(E.np.shape(got) == a.shape, 'shape')
        for i, e in pairs[:9]:
            agree(E, got[i] if a.shape else (got.item() if hasattr(got, 'item') else got), getattr(E.umath, name)(e), name)
    got = a * c
    E.check(E.np.shape(got) == a.shape, 'shape')
    for i, e in pairs[:9]:
        agree(E, got[i] if a.shape else got, e * c, 'product')
    # building
    V = E.unumpy.uarray(N, S)
    E.check(E.np.shape(V) == a.shape, 'shape')
    for k, (i, e) in enumerate(pairs[:9]):
        v = V[i] if a.shape else (V.item() if hasattr(V, 'item') else V)
        E.check(isinstance(v, E.core.Variable), 'variable')
        E.close(v.nominal_value, E.u.nominal_value(e), 'nominal value')
        E.close(v.std_dev, E.u.std_dev(e), 'sigma')
    if a.shape:
        E.check(len(set(map(id, V.ravel()))) == a.size, 'independent variables')


def number_types(E):
    """Nominal values and sigmas of all types of numbers."""
    t = E.choice('t', ['i8', 'i4', 'u1', 'f4', 'f8', 'bool', 'object'])
    x, s = E.np.array([3, 0, 1, 1]).astype(t), E.np.array([1, 2, 0, 1]).astype(t)
    if E.flag('mixed'):
        s = E.np.array([0.25, 2.0, 0.0, 1.5])
    for a in (E.unumpy.uarray(x, s), E.unumpy.uarray((x, s)), E.unumpy.uarray(list(x), list(s)), E.unumpy.umatrix(x, s).A1):
        for i in range(4):
            E.close(a[i].nominal_value, float(x[i]), 'nominal value')
            E.close(a[i].std_dev, float(s[i]), 'sigma')
            E.check(isinstance(a[i].nominal_value, float) and isinstance(a[i].std_dev, float), 'floats')
        k = E.real('k')
        agree(E, (a * k)[0], a[0] * k, 'product')
    N, S = E.unumpy.nominal_values(x), E.unumpy.std_devs(x)
    for i in range(4):
        E.close(N[i], float(x[i]), 'nominal value')
        E.close(S[i], 0.0, 'sigma')


def nonfinite(E):
    """isnan() and isinf() look at nominal values."""
    els = []
    for i in range(2):
        v = E.real('v%d' % i, nan=True, inf=True, ninf=True)
        els.append(E.u.ufloat(v, E.real('s%d' % i, nonneg=True, nan=True)) if E.flag('u%d' % i) else v)
    a = arr_of(E, els, (2, 1))
    n, f = E.unumpy.isnan(a), E.unumpy.isinf(a)
    for i, e in enumerate(els):
        v = E.u.nominal_value(e)
        E.check(bool(n[i, 0]) == (v != v), 'isnan')
        E.check(bool(f[i, 0]) == (isinstance(v, float) and v in (E.inf, -E.inf)), 'isinf')
    if not E.sym:
        E.check(n.dtype == bool and f.dtype == bool, 'boolean results')


def build(E):
    """uarray(), umatrix(), nominal_values(), std_devs()."""
    shape = E.p['shape']
    n = 1
    for k in shape:
        n *= k
    xs = [E.real('x%d' % i) for i in range(n)]
    ss = [E.real('s%d' % i, nonneg=True) for i in range(n)]
    A = lambda v: E.array(v).reshape(shape)
    form = E.choice('form', ['array', 'list', 'legacy', 'matrix'] if len(shape) == 2 else ['array', 'list', 'tuple', 'legacy'])
    if form == 'legacy':
        a = E.unumpy.uarray((A(xs), A(ss)))
    elif form == 'matrix':
        a = E.unumpy.umatrix(A(xs), A(ss))
        E.check(isinstance(a, E.unumpy.matrix), 'umatrix() gives a unumpy.matrix')
    elif form == 'tuple':
        a = E.unumpy.uarray(tuple(xs), tuple(ss))
    else:
        a = E.unumpy.uarray(A(xs), A(ss)) if form == 'array' else E.unumpy.uarray(A(xs).tolist(), A(ss).tolist())
    E.check(a.shape == tuple(shape), 'shape')
    flat = [a.flat[i] if form != 'matrix' else a[divmod(i, shape[1])] for i in range(n)]
    for i, u in enumerate(flat):
        E.check(isinstance(u, E.core.Variable), 'variables')
        E.close(u.nominal_value, xs[i], 'nominal value')
        E.close(u.std_dev, ss[i], 'sigma')
        E.check(all(v is not u for v in flat[:i]), 'independent variables')
    N, S = E.unumpy.nominal_values(a), E.unumpy.std_devs(a)
    E.check(N.shape == a.shape and S.shape == a.shape, 'shapes')
    if form == 'matrix':
        for M in (N, S, a.nominal_values, a.std_devs):
            E.check(isinstance(M, E.np.matrix) and not isinstance(M, E.unumpy.matrix), 'plain matrix')
        for M in (a.nominal_values - N, a.std_devs - S):
            for i in range(n):
                E.close(M[divmod(i, shape[1])], 0.0, 'attribute')
    elif not E.sym:
        E.check(type(N) is E.np.ndarray and N.dtype == float and S.dtype == float, 'float arrays')
    for i in range(n):
        k = divmod(i, shape[1]) if len(shape) == 2 else i
        E.close(N[k], xs[i], 'nominal_values')
        E.close(S[k], ss[i], 'std_devs')
    # live
    flat[0].std_dev = E.real('new', nonneg=True)
    E.close(E.unumpy.std_devs(a).flat[0] if form != 'matrix' else a.std_devs[0, 0], flat[0].std_dev, 'std_devs after a change')


def broadcast(E):
    """A single number for several elements, and equal elements: still independent variables."""
    x, s = E.real('x'), E.real('s', nonneg=True)
    form = E.choice('form', ['sigma', 'value', 'equal', 'column', 'zeros', 'ints', 'scalars', 'again'])
    A = E.array
    if form == 'sigma':
        a, xs, ss = E.unumpy.uarray(A([x, 1.0, x]), s), [x, 1.0, x], [s] * 3
    elif form == 'value':
        a, xs, ss = E.unumpy.uarray(x, A([s, s])), [x, x], [s, s]
    elif form == 'equal':
        a, xs, ss = E.unumpy.uarray([x, x, x], [s, s, s]), [x] * 3, [s] * 3
    elif form == 'column':
        a, xs, ss = E.unumpy.uarray(A([x, 2.0]).reshape(2, 1), A([s, 0.5])), [x, x, 2.0, 2.0], [s, 0.5] * 2
    elif form == 'zeros':
        a, xs, ss = E.unumpy.uarray([x, x], [0.0, 0.0]), [x, x], [0.0, 0.0]
    elif form == 'ints':
        a, xs, ss = E.unumpy.uarray([3, 3], [1, 1]), [3, 3], [1, 1]
    elif form == 'scalars':
        a, xs, ss = E.np.array([E.unumpy.uarray(x, s), E.unumpy.uarray(x, s)]), [x, x], [s, s]
        a = E.np.array([u.item() if hasattr(u, 'item') else u for u in a])
    else:
        v, w = A([x, x]), A([s, s])
        a, xs, ss = E.np.concatenate([E.unumpy.uarray(v, w), E.unumpy.uarray(v, w)]), [x] * 4, [s] * 4
    us = list(a.flat)
    E.check(len(us) == len(xs), 'number of elements')
    for u, n, w in zip(us, xs, ss):
        E.close(u.nominal_value, n, 'nominal value')
        E.close(u.std_dev, w, 'sigma')
    C = E.u.covariance_matrix(us)
    for i in range(len(us)):
        for j in range(i):
            E.close(C[i][j], 0.0, 'not correlated')
    if form != 'scalars':
        us[0].std_dev = E.real('new', nonneg=True)
        for u, w in zip(us[1:], ss[1:]):
            E.close(u.std_dev, w, 'other elements keep their sigma')


def mixed(E):
    """Accessors on arrays (and array-likes) mixing numbers with and without uncertainty."""
    els = elements(E, ['var', 'num', 'der', 'x'])
    n, s = E.u.nominal_value, E.u.std_dev
    for a in (arr_of(E, els, (4,)), arr_of(E, els, (2, 2)), els, arr_of(E, els, (2, 2)).view(E.np.matrix)):
        N, S = E.unumpy.nominal_values(a), E.unumpy.std_devs(a)
        for i, e in enumerate(els):
            k = divmod(i, 2) if len(N.shape) == 2 else i
            E.close(N[k], n(e), 'nominal value')
            E.close(S[k], s(e), 'sigma')
    E.check(els[1] is els[1] and not isinstance(els[1], E.u.UFloat), 'arguments left alone')


def negative(E):
    """A negative sigma is refused."""
    s = E.real('s', lo=-9, hi=9)
    bad = s < 0
    try:
        E.unumpy.uarray([1.0, 2.0], [0.5, s])
    except E.core.NegativeStdDev:
        E.check(bad, 'raises')
        return
    E.check(E.NOT(bad), 'accepted')


def arithmetic(E):
    """Array operations are those of the elements."""
    els = elements(E, E.p['kinds'])
    n = len(els)
    a = arr_of(E, els, (n,))
    op = E.p['op']
    c = E.real('c', nonzero=True)
    other = E.choice('other', ['const', 'ufloat', 'array', 'floats'])
    b = {'const': c, 'ufloat': E.u.ufloat(c, E.real('sc', nonneg=True)), 'floats': E.array([c] * n),
         'array': arr_of(E, [element(E, 'var', 'b%d' % i, None) for i in range(n)], (n,))}[other]
    bs = list(b) if hasattr(b, 'shape') and b.shape else [b] * n
    fn = {'+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': lambda p, q: p * q, '/': lambda p, q: p / q}[op]
    swap = E.flag('swap')
    div = bs if not swap else els
    if op == '/':
        for d in div:
            E.assume(E.NOT(E.u.nominal_value(d) == 0))
    got = fn(b, a) if swap else fn(a, b)
    for i in range(n):
        agree(E, got[i], fn(bs[i], els[i]) if swap else fn(els[i], bs[i]), 'element %d of a %s b' % (i, op))


def reductions(E):
    els = elements(E, E.p['kinds'])
    n = len(els)
    a = arr_of(E, els, (n,))
    t = els[0]
    for e in els[1:]:
        t = t + e
    agree(E, a.sum(), t, 'sum')
    agree(E, a.mean(), t / n, 'mean')
    agree(E, E.np.dot(a, E.np.arange(1.0, n + 1)), sum((els[i] * (i + 1.0) for i in range(1, n)), els[0] * 1.0), 'dot')
    p = els[0]
    for e in els[1:]:
        p = p * e
    agree(E, a.prod(), p, 'product')
    agree(E, (-a)[0], -els[0], 'opposite')
    agree(E, (a ** 2)[n - 1], els[-1] ** 2, 'square')
    agree(E, a.cumsum()[n - 1], t, 'cumulative sum')
    c = E.real('c')
    m = a > c
    E.check(bool(m[0]) == bool(els[0] > c), 'comparison')
    E.check(bool((a == els[0])[0]), 'equality')


def matrices(E):
    """Products of matrices and scalars."""
    k = E.p['k']
    M = E.unumpy.umatrix([[E.real('m%d%d' % (i, j)) for j in range(k)] for i in range(k)],
                         [[E.real('s%d%d' % (i, j), nonneg=True) for j in range(k)] for i in range(k)])
    if E.p['other'] == 'umatrix':
        N = E.unumpy.umatrix([[E.real('n%d%d' % (i, j)) for j in range(k)] for i in range(k)],
                             [[E.real('t%d%d' % (i, j), nonneg=True) for j in range(k)] for i in range(k)])
    elif E.p['other'] == 'same':
        N = M
    else:
        N = E.np.matrix([[E.real('n%d%d' % (i, j)) for j in range(k)] for i in range(k)])
    for A, B in ((M, N), (N, M)):
        P = A * B
        E.check(isinstance(P, E.np.matrix), 'matrix')
        for i in range(k):
            for j in range(k):
                w = A[i, 0] * B[0, j]
                for l in range(1, k):
                    w = w + A[i, l] * B[l, j]
                agree(E, P[i, j], w, 'product')
    for c in (E.real('c'), E.u.ufloat(E.real('d'), E.real('sd', nonneg=True)), 3):
        L, R = c * M, M * c
        E.check(L.shape == M.shape and R.shape == M.shape, 'shape')
        agree(E, L[0, k - 1], c * M[0, k - 1], 'scalar times matrix')
        agree(E, R[k - 1, 0], M[k - 1, 0] * c, 'matrix times scalar')
    c = E.u.ufloat(E.real('div', nonzero=True), 1)
    agree(E, (M / c)[0, 0], M[0, 0] / c, 'quotient')
    v = E.array([[E.real('v%d' % i)] for i in range(k)])
    r = M * v
    w = M[0, 0] * v[0][0]
    for l in range(1, k):
        w = w + M[0, l] * v[l][0]
    agree(E, r[0, 0], w, 'matrix times column')
    row = v.T.tolist() if not E.sym else v.T
    q = E.np.asarray(row) * M
    w = v[0][0] * M[0, 0]
    for l in range(1, k):
        w = w + v[l][0] * M[l, 0]
    agree(E, q[0, 0], w, 'row times matrix')
    T = M.T
    E.check(isinstance(T, E.unumpy.matrix) and T[0, k - 1] is M[k - 1, 0], 'transpose')
    agree(E, (M + N)[0, 0], M[0, 0] + N[0, 0], 'sum')
    agree(E, (M - N)[0, 0], M[0, 0] - N[0, 0], 'difference')


def rectangular(E):
    """Products with matrices and arrays of any shape, including a single element."""
    m, n = E.p['shape']
    M = E.unumpy.umatrix([[E.real('m%d%d' % (i, j)) for j in range(n)] for i in range(m)],
                         [[E.real('s%d%d' % (i, j), nonneg=True) for j in range(n)] for i in range(m)])

    def other(p, q, what):
        a = E.array([[E.real('v%s%d%d%d%d' % (what, p, q, i, j)) for j in range(q)] for i in range(p)])
        if what == 'uncert':
            a = a * E.u.ufloat(1, 0.5)
        return a.view(E.np.matrix) if what == 'matrix' else a
    # A list is a row
    row = [E.real('r0'), E.real('r1')]
    if n == 1:
        P = M * row
        E.check(P.shape == (m, 2) and isinstance(P, E.np.matrix), 'product with a list')
        agree(E, P[m - 1, 1], M[m - 1, 0] * row[1], 'product with a list')
    if m == 2:
        P = row * M
        E.check(isinstance(P, E.np.matrix) and P.size == n, 'product of a list')
        agree(E, P[0, n - 1], row[0] * M[0, n - 1] + row[1] * M[1, n - 1], 'product of a list')
    for what in ('array', 'matrix', 'uncert'):
        for p in (1, 2):
            for A, B in ((other(p, m, what), M), (M, other(n, p, what))):
                P = A * B
                r, c = A.shape[0], B.shape[1]
                E.check(P.shape == (r, c), 'shape of the product')
                E.check(isinstance(P, E.np.matrix), 'matrix')
                for i in range(r):
                    for j in range(c):
                        w = A[i, 0] * B[0, j]
                        for l in range(1, A.shape[1]):
                            w = w + A[i, l] * B[l, j]
                        agree(E, P[i, j], w, 'product')


def tasks(tier):
    T = []
    quick = tier == 'quick'
    for i, f in enumerate(UNARY):
        T.append(Task(unary, dict(f=f, kinds=['var', 'num'], shape=(2,)), kwin=(-6, 6)))
        T.append(Task(unary, dict(f=f, kinds=['num', 'x', 'der'], shape=(3, 1) if i % 2 else (1, 3)), kwin=(-6, 6)))
        if not quick:
            T.append(Task(unary, dict(f=f, kinds=['x', 'der', 'num', 'var'], shape=(2, 2)), kwin=(-6, 6)))
        T.append(Task(unary, dict(f=f, kinds=['num'], shape=(1,)), kwin=(-6, 6)))
    for f in (('arccos', 'acos'), ('sqrt', 'sqrt'), ('log', 'log'), ('arctanh', 'atanh'), ('arccosh', 'acosh')):
        T.append(Task(domain, dict(f=f)))
    for f in BINARY:
        T.append(Task(binary, dict(f=f, kinds=['var', 'num'])))
        T.append(Task(binary, dict(f=f, kinds=['x', 'der'])))
    T.append(Task(nonfinite))
    for shape in ((1,), (3,), (2, 2), (1, 3), (2, 1)):
        T.append(Task(build, dict(shape=shape)))
    T += [Task(layouts, weight=4), Task(number_types), Task(mixed), Task(negative), Task(broadcast)]
    for op in '+-*/':
        T.append(Task(arithmetic, dict(op=op, kinds=['var', 'num'])))
        T.append(Task(arithmetic, dict(op=op, kinds=['x', 'der'])))
    T += [Task(rectangular, dict(shape=s)) for s in ((1, 1), (1, 2), (2, 1), (2, 2))]
    T.append(Task(reductions, dict(kinds=['var', 'num', 'var'])))
    T.append(Task(reductions, dict(kinds=['x', 'der'])))
    for k in (1, 2) if quick else (1, 2, 3):
        for o in ('umatrix', 'floats', 'same'):
            T.append(Task(matrices, dict(k=k, other=o)))
    return T
