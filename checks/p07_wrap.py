"""P07: wrap(): any call style, provided or numerical derivatives, pass-through."""
import itertools
from fractions import Fraction
import numpy
from symex.runner import Task

BOUNDS = ('functions of 2-3 parameters, quadratic with arbitrary real coefficients; every split of the arguments between '
          'positional and keyword, every subset of uncertain arguments (each a variable, shared or derived), every '
          'subset of analytic derivatives given by position or by name, two successive calls with different styles; up to 40 arguments with derivatives in any iterable')
ASSUMPTIONS = ['numerical derivatives: |x| <= 100, tolerance 1e-4 (central differences are exact on quadratics over the reals)',
               'rounding is outside the model']


def poly(E, n):
    """value(x...), [d_i(x...)] of an arbitrary quadratic form"""
    c0 = E.real('c0', lo=-100, hi=100)
    lin = [E.real('l%d' % i, lo=-100, hi=100) for i in range(n)]
    quad = {(i, j): E.real('q%d%d' % (i, j), lo=-100, hi=100) for i in range(n) for j in range(i, n)}

    def value(xs):
        r = c0
        for i in range(n):
            r = r + lin[i] * xs[i]
        for (i, j), q in quad.items():
            r = r + q * xs[i] * xs[j]
        return r

    def deriv(xs, k):
        r = lin[k]
        for (i, j), q in quad.items():
            if i == k:
                r = r + q * xs[j]
            if j == k:
                r = r + q * xs[i]
        return r
    return value, deriv


def make(E, kind, n, value, deriv, log):
    """A Python function of the requested kind, and derivative functions with the same signature."""
    names = 'xyz'[:n]
    if kind == 'def2':
        def f(x, y):
            log.append((x, y))
            return value([x, y])
        ds = [lambda x, y: deriv([x, y], 0), lambda x, y: deriv([x, y], 1)]
    elif kind == 'def3':
        def f(x, y, z):
            log.append((x, y, z))
            return value([x, y, z])
        ds = [lambda x, y, z, k=k: deriv([x, y, z], k) for k in range(3)]
    elif kind == 'default':
        def f(x, y, z=2.0):
            log.append((x, y, z))
            return value([x, y, z])
        ds = [lambda x, y, z=2.0, k=k: deriv([x, y, z], k) for k in range(3)]
    elif kind == 'star':
        def f(*args):
            log.append(args)
            return value(list(args))
        ds = [lambda *args, k=k: deriv(list(args), k) for k in range(n)]
    elif kind == 'kwonly':
        def f(x, *, y):
            log.append((x, y))
            return value([x, y])
        ds = [lambda x, *, y: deriv([x, y], 0), lambda x, *, y: deriv([x, y], 1)]
    elif kind == 'kwargs':
        def f(**kw):
            log.append((kw['x'], kw['y']))
            return value([kw['x'], kw['y']])
        ds = [lambda **kw: deriv([kw['x'], kw['y']], 0), lambda **kw: deriv([kw['x'], kw['y']], 1)]
    elif kind == 'method':
        class K(object):
            def f(self, x, y):
                log.append((x, y))
                return value([x, y])
        f = K().f
        ds = [lambda x, y: deriv([x, y], 0), lambda x, y: deriv([x, y], 1)]
    return f, ds, names


def styles(kind, n):
    if kind == 'star':
        return [n]
    if kind == 'kwargs':
        return [0]
    if kind == 'kwonly':
        return [1, 0]
    return list(range(n + 1))


def call(E):
    kind, n = E.p['kind'], E.p['n']
    value, deriv = poly(E, n)
    log = []
    f, ds, names = make(E, kind, n, value, deriv, log)
    # which derivatives are analytic, and how they are given
    given = E.choice('given', E.p['given'])
    args, kwargs = [], {}
    # The derivatives that are given are recognizable (and must be used, in all call styles)
    extra = [0.0] * n
    for k in range(n):
        if given[k:k + 1] == 'p' or given[k:k + 1] == 'k' and kind in ('kwonly', 'kwargs'):
            extra[k] = E.real('extra%d' % k, lo=-100, hi=100)

            def marked(*a, d=ds[k], e=extra[k], **kw):
                return d(*a, **kw) + e
            # (d and e are not arguments of the wrapped functions)
            ds[k] = marked
    true_deriv = deriv

    def deriv(xs, k):
        return true_deriv(xs, k) + extra[k]
    for k in range(n):
        if k < len(given) and given[k] == 'p':
            args.append(ds[k])
        elif k < len(given) and given[k] == 'n':
            args.append(None)
        elif k < len(given) and given[k] == 'k':
            kwargs[names[k]] = ds[k]
        elif k < len(given) and given[k] == 'K':
            kwargs[names[k]] = None
    if E.p.get('iter'):
        args = iter(args)
    g = E.core.wrap(f, args, kwargs)
    xs = [E.real('x%d' % i, lo=-100, hi=100) for i in range(n)]
    numeric = any(c != 'p' and c != 'k' for c in given) or len(given) < n
    tol = 1e-4 if numeric else 1e-6
    for rep in range(E.p.get('calls', 1)):
        us, row = [], []
        mask = E.choice('mask%d' % rep, [m for m in itertools.product([0, 1], repeat=n)])
        for i in range(n):
            us.append(E.u.ufloat(xs[i], E.real('s%d_%d' % (i, rep), pos=True)) if mask[i] else xs[i])
        if E.p.get('shared') and mask[0] and mask[1]:
            t = E.u.ufloat(E.real('t'), 1)

            def two(v):
                return v
            us[0] = t * 2 + xs[0] - 2 * t.nominal_value
            us[1] = t * 3 + xs[1] - 3 * t.nominal_value
        npos = E.choice('npos%d' % rep, styles(kind, n))
        kw = {names[i]: us[i] for i in range(npos, n)}
        kw_before = dict(kw)
        del log[:]
        r = g(*us[:npos], **kw)
        E.check(all(kw[k] is kw_before[k] for k in kw), 'caller keyword dictionary untouched')
        v = value(xs)
        if not any(mask):
            E.check(not isinstance(r, E.u.UFloat), 'plain arguments give the plain result')
            E.close(r, v, 'plain result')
            E.check(len(log) == 1, 'plain call evaluates f once')
            continue
        E.close(r.nominal_value, v, 'nominal value is f(nominal values)')
        E.check(all(not isinstance(a, E.u.UFloat) for c in log for a in c), 'f only ever receives plain numbers')
        if E.p.get('shared') and mask[0] and mask[1]:
            E.close(E.get_deriv(r, t), 2 * deriv(xs, 0) + 3 * deriv(xs, 1), 'shared variable', rel=tol)
        else:
            for i in range(n):
                if mask[i]:
                    E.close(E.get_deriv(r, us[i]), deriv(xs, i), 'derivative wrt argument %d (%s)' % (i, 'pos' if i < npos else 'kw'), rel=tol)
        E.check(len(r.derivatives) == (n - 1 if E.p.get('shared') and mask[0] and mask[1] else sum(mask))
                or n == 3, 'one derivative per uncertain argument')


def not_a_number(E):
    """A wrapped function whose result is no number gives NotImplemented, not a bogus number."""
    x = E.u.ufloat(E.real('x'), 1)
    res = E.choice('res', ['abc', None, (1, 2), [1.0]])

    def f(v):
        return res
    g = E.core.wrap(f)
    E.check(g(x) is NotImplemented, 'non-numeric result with an uncertain argument')
    r = g(1.0)
    E.check(r is res, 'plain argument: plain result')


def result_types(E):
    """Results of any type of real number."""
    x = E.u.ufloat(E.real('x'), 1)
    k = E.real('k')
    n = E.choice('res', [3, 2.5, True, Fraction(7, 2), numpy.float32(1.5), numpy.float64(1.5), numpy.int64(4), 10**30])

    def f(v):
        return n
    r = E.core.wrap(f, [lambda v: k])(x)
    E.check(isinstance(r, E.u.UFloat), 'number with uncertainty')
    E.close(r.nominal_value, float(n), 'nominal value')
    E.check(type(r.nominal_value) is float or E.sym, 'nominal value is a float')
    E.close(E.get_deriv(r, x), k, 'derivative')
    k2 = E.choice('der', [2, Fraction(1, 4), numpy.float32(0.5), numpy.int64(3)])
    r = E.core.wrap(f, [lambda v: k2])(x) * 2 + x
    E.close(E.get_deriv(r, x), 2 * float(k2) + 1, 'derivatives of any type of number')


def errors(E):
    """Exceptions of f propagate; the name and documentation are carried over."""
    class Oops(Exception):
        pass

    def f(x, y=1):
        "the doc"
        raise Oops()
    g = E.core.wrap(f, [lambda x, y=1: 1.0])
    x = E.u.ufloat(E.real('x'), 1)
    E.raises(Oops, lambda: g(x), 'exception of f')
    E.raises(Oops, lambda: g(2.0), 'exception of f')
    E.check('the doc' in g.__doc__, 'documentation')
    E.raises(TypeError, lambda: E.core.wrap(lambda a: a)(x, x), 'wrong arity')


def several(E):
    """Wrapped functions with the same parameter names do not influence one another, whichever is wrapped and called first."""
    kind = E.choice('kind', ['kwargs', 'def', 'star'])
    given = E.choice('given', ['', 'a', 'b', 'ab'])
    gs, ks = [], []
    for i in range(2):
        k = E.real('k%d' % i, lo=-100, hi=100)
        f = {'kwargs': lambda k: lambda **kw: k * kw['x'], 'def': lambda k: lambda x: k * x, 'star': lambda k: lambda *a: k * a[0]}[kind](k)
        d = (lambda k: lambda *a, **kw: k)(k)
        if 'ab'[i] not in given:
            g = E.core.wrap(f)
        elif kind == 'kwargs':
            g = E.core.wrap(f, derivatives_kwargs={'x': d})
        else:
            g = E.core.wrap(f, [d])
        gs.append(g)
        ks.append(k)
    v = E.real('v', lo=-100, hi=100)
    x = E.u.ufloat(v, 1)
    order = E.choice('order', [(0, 1), (1, 0), (0, 1, 0), (1, 1, 0)])
    for i in order:
        r = gs[i](x=x) if kind == 'kwargs' or kind == 'def' and E.flag('kw%d' % i) else gs[i](x)
        E.close(r.nominal_value, ks[i] * v, 'nominal value')
        E.close(E.get_deriv(r, x), ks[i], 'derivative of the function that is called', rel=1e-4)


def composed(E):
    """Wrapping a function that is itself wrapped, and wrapped results as arguments."""
    value, deriv = poly(E, 2)

    def f(x, y):
        return value([x, y])
    g = E.core.wrap(f, [lambda x, y: deriv([x, y], 0), lambda x, y: deriv([x, y], 1)])
    a, b = E.real('a', lo=-100, hi=100), E.real('b', lo=-100, hi=100)
    ua, ub = E.u.ufloat(a, 1), E.u.ufloat(b, 1)
    inner = g(ua, y=ub)
    r = g(inner, ua)
    vi = value([a, b])
    d0, d1 = deriv([vi, a], 0), deriv([vi, a], 1)
    E.close(r.nominal_value, value([vi, a]), 'composition value')
    E.close(E.get_deriv(r, ua), d0 * deriv([a, b], 0) + d1, 'composition derivative a')
    E.close(E.get_deriv(r, ub), d0 * deriv([a, b], 1), 'composition derivative b')


def many(E):
    """Many arguments, in any order, with derivatives from lists, tuples, and finite or infinite generators; many calls."""
    n = E.choice('n', [4, 6, 13, 40])
    ks = [(i * i % 7 - 2.5) for i in range(n)]
    k = ks[-1] = E.real('k', lo=-100, hi=100)

    def f(*a):
        t = 0.0
        for c, v in zip(ks, a):
            t = t + c * v
        return t
    ds = [(lambda *a, c=c: c) for c in ks]
    given = E.choice('given', ['list', 'tuple', 'holes', 'short', 'gen', 'endless', 'none'])
    if given == 'holes':
        ds = [None if i % 3 == 0 else d for i, d in enumerate(ds)]
    elif given == 'short':
        ds = ds[:n // 2]
    elif given == 'endless':
        ds = ds + [None]
        base = ds

        def gen():
            i = 0
            while True:
                yield base[min(i, n)]
                i += 1
        ds = gen()
    elif given == 'gen':
        ds = (d for d in ds)
    elif given == 'tuple':
        ds = tuple(ds)
    g = E.core.wrap(f, ds) if given != 'none' else E.core.wrap(f)
    x = E.real('x', lo=-100, hi=100)
    x0, x1 = E.u.ufloat(x, 1), E.u.ufloat(2.0, 1)
    orders = [[n - 1], [0, n - 1], [n - 1, 1], [2], [], list(range(n)), [1]]
    first = E.choice('first', list(range(len(orders))))
    for pos in (orders[first:] + orders[:first])[:4 if n > 6 else 7]:
        us = [(x0 if i % 2 else x1) if i in pos else (x if i % 2 else 2.0) for i in range(n)]
        r = g(*us)
        v = f(*[x if i % 2 else 2.0 for i in range(n)])
        if not pos:
            E.check(not isinstance(r, E.u.UFloat), 'plain result')
            E.close(r, v, 'plain result')
            continue
        E.close(r.nominal_value, v, 'nominal value')
        for u, par in ((x0, 1), (x1, 0)):
            want = 0.0
            for i in pos:
                if i % 2 == par:
                    want = want + ks[i]
            E.close(E.get_deriv(r, u), want, 'derivative', rel=1e-4)


def named(E):
    """Functions with more named parameters: keywords in any order, with defaults, after positional ones."""
    ks = [E.real('k0', lo=-100, hi=100), 2.0, -3.0, E.real('k3', lo=-100, hi=100), 0.5, 7.0]

    def total(*v):
        t = 0.0
        for c, w in zip(ks, v):
            t = t + c * w
        return t

    def f(a, b, c, d=4.0, e=5.0, g=6.0):
        return total(a, b, c, d, e, g)

    def h(a, b, c, d=4.0, *rest, e=5.0, **more):
        return total(a, b, c, d, e, more.get('g', 6.0))
    fn = E.choice('fn', [f, h])
    names = 'abcdeg'
    given = E.choice('given', ['', 'p', 'pppp', 'k', 'mix'])
    der = [(lambda slope: lambda *args, **kw: slope)(slope) for slope in ks]
    if given == 'k':
        w = E.core.wrap(fn, [], dict(zip('eg', der[4:]))) if fn is h else E.core.wrap(fn, der[:2])
    elif given == 'mix':
        w = E.core.wrap(fn, [None, der[1], None, der[3]], {'g': der[5]} if fn is h else {})
    else:
        w = E.core.wrap(fn, der[:len(given)])
    xs = [1.0, -2.0, E.real('x', lo=-100, hi=100), 3.0, 0.0, 9.0]
    us = [E.u.ufloat(x, 1) for x in xs]
    for npos, order in ((0, 'gedcba'), (1, 'cbd'), (2, 'gc'), (3, ''), (3, 'eg'), (4, 'e'), (2, 'dgec')):
        for every in (1, 2):
            pick = lambda i: us[i] if (i + npos) % every == 0 else xs[i]
            kw = {o: pick(names.index(o)) for o in order}
            used = list(range(npos)) + [names.index(o) for o in order]
            r = w(*[pick(i) for i in range(npos)], **kw)
            vals = [xs[i] if i in used else (0, 0, 0, 4.0, 5.0, 6.0)[i] for i in range(6)]
            if not any(pick(i) is us[i] for i in used):
                E.close(r, total(*vals), 'plain result')
                continue
            E.close(r.nominal_value, total(*vals), 'nominal value')
            for i in range(6):
                E.close(E.get_deriv(r, us[i]), ks[i] if i in used and pick(i) is us[i] else 0.0, 'derivative wrt ' + names[i], rel=1e-4)


def tasks(tier):
    T = []
    G2 = ['pp', 'pn', 'np', '', 'p', 'nk', 'kk', 'Kp'.replace('K', 'n'), 'nK']
    T.append(Task(call, {'kind': 'def2', 'n': 2, 'given': G2}, weight=4))
    T.append(Task(call, {'kind': 'def2', 'n': 2, 'given': ['pp', 'np'], 'iter': 1}))
    T.append(Task(call, {'kind': 'def2', 'n': 2, 'given': ['pp', 'pn', ''], 'calls': 2}, weight=5))
    T.append(Task(call, {'kind': 'def2', 'n': 2, 'given': ['pp', 'pn'], 'shared': 1}))
    T.append(Task(call, {'kind': 'method', 'n': 2, 'given': ['pp', 'np', 'pn', '']}))
    T.append(Task(call, {'kind': 'kwonly', 'n': 2, 'given': ['pk', '', 'p', 'nk', 'pK']}))
    T.append(Task(call, {'kind': 'kwargs', 'n': 2, 'given': ['kk', '', 'Kk', 'kK']}))
    T.append(Task(call, {'kind': 'star', 'n': 2, 'given': ['pp', 'np', 'pn', '', 'p']}))
    T.append(Task(call, {'kind': 'star', 'n': 3, 'given': ['ppp', 'pnp', 'p'], 'calls': 2}, weight=6))
    T.append(Task(call, {'kind': 'def3', 'n': 3, 'given': ['ppp']}, weight=3))
    T.append(Task(call, {'kind': 'def3', 'n': 3, 'given': ['npn', 'nnp']}, weight=3))
    T.append(Task(call, {'kind': 'default', 'n': 3, 'given': ['ppp', 'p']}, weight=3))
    T += [Task(many, weight=3), Task(named, weight=3), Task(not_a_number), Task(errors), Task(composed), Task(several), Task(result_types)]
    return T
