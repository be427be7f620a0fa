"""P02: standard deviation = quadrature of the error components, live and non negative."""
from symex.runner import Task

BOUNDS = ('1-4 independent variables, each used through up to two paths with arbitrary real coefficients; '
          'each sigma: any non-negative real, exactly 0, NaN or infinite; each derivative finite or NaN; '
          'sigmas and slopes of 1e-305 to 1e305; one reassignment of any sigma after derivation, before or after a first query')
ASSUMPTIONS = ['floating-point rounding is outside the model (real arithmetic); overflow and underflow are modelled in the `extreme` tasks only (magnitudes up to 1e308, no subnormal intermediate results)']


def lincomb(E, coefs, vs, value):
    def f(*a):
        return value
    ders = [(lambda *a, c=c: c) for c in coefs]
    return E.core.wrap(f, ders)(*vs)


def quad(E):
    n = E.p['n']
    vs = [E.u.ufloat(E.real('x%d' % i), E.real('s%d' % i, nonneg=True)) for i in range(n)]
    ss = [v.std_dev for v in vs]
    cs = [E.real('c%d' % i) for i in range(n)]
    u = lincomb(E, cs, vs, E.real('f'))
    if E.p.get('twice'):
        # the same variable reaches the result through two routes: coefficients add up first
        ds = [E.real('d%d' % i) for i in range(n)]
        w = lincomb(E, ds, vs, E.real('g'))
        u = u + w
        cs = [c + d for c, d in zip(cs, ds)]
    s = u.std_dev
    tot = 0.0
    comp = u.error_components()
    for i in range(n):
        c = comp[vs[i]] if vs[i] in comp else 0.0
        E.check(c >= 0, 'error component is non negative')
        E.close(c * c, cs[i] * cs[i] * ss[i] * ss[i], 'error component of variable %d' % i)
        tot = tot + cs[i] * cs[i] * ss[i] * ss[i]
    E.check(s >= 0, 'std_dev is non negative')
    E.close(s * s, tot, 'std_dev is the quadrature of the components')
    E.close(u.s, s, 's alias')
    E.close(E.u.std_dev(u), s, 'std_dev()')
    E.close(u.std_dev(), s, 'obsolete call syntax')
    for i in range(n):
        E.close(vs[i].std_dev, ss[i], 'the variable keeps its own sigma')


def live(E):
    n = 2
    vs = [E.u.ufloat(E.real('x%d' % i), E.real('s%d' % i, nonneg=True)) for i in range(n)]
    cs = [E.real('c%d' % i) for i in range(n)]
    u = lincomb(E, cs, vs, E.real('f'))
    w = u * 2 + vs[0]
    if E.flag('query_first'):
        u.std_dev, w.std_dev, u.error_components()
    k = E.choice('which', [0, 1])
    new = E.real('new', nonneg=True)
    how = E.choice('how', ['attr', 'method'])
    if how == 'attr':
        vs[k].std_dev = new
    else:
        vs[k].set_std_dev(new)
    ss = [new if i == k else E_s for i, E_s in enumerate([v.std_dev for v in vs])]
    E.close(vs[k].std_dev, new, 'assignment is visible')
    E.close(u.std_dev * u.std_dev, sum(c * c * s * s for c, s in zip(cs, ss)), 'derived value follows the variable')
    c2 = [2 * cs[0] + 1, 2 * cs[1]]
    E.close(w.std_dev * w.std_dev, sum(c * c * s * s for c, s in zip(c2, ss)), 'second derived value follows')
    E.close(u.nominal_value, E.real('f'), 'nominal value unchanged')
    E.close(E.get_deriv(u, vs[k]), cs[k], 'derivatives unchanged')


def special(E):
    """NaN derivatives count only where the variable is uncertain; NaN/inf sigmas propagate."""
    sx = E.real('sx', nonneg=True, nan=True, inf=True)
    x = E.u.ufloat(E.real('x'), sx)
    y = E.u.ufloat(E.real('y'), E.real('sy', pos=True))
    dx = E.real('dx', nan=True)
    dy = E.real('dy', nonzero=True)
    u = lincomb(E, [dx, dy], [x, y], E.real('f'))
    s = u.std_dev
    comp = u.error_components()
    if sx == 0:
        E.close(comp.get(x, 0.0), 0.0, 'exact input contributes nothing')
        E.close(s * s, (dy * y.std_dev) * (dy * y.std_dev), 'only the uncertain input counts')
    elif dx != dx or sx != sx:
        E.close(s, E.nan, 'undefined contribution makes the uncertainty NaN')
    elif sx == E.inf:
        E.close(s, E.nan if dx == 0 else E.inf, 'infinite sigma')
    else:
        E.close(s * s, (dx * sx) * (dx * sx) + (dy * y.std_dev) * (dy * y.std_dev), 'finite case')
    E.close(comp[y] * comp[y], dy * dy * y.std_dev * y.std_dev, 'component of y')


def special_one(E):
    """The same for a function of one variable, through one or two nested calls."""
    sx = E.real('sx', nonneg=True, nan=True, inf=True)
    x = E.u.ufloat(E.real('x'), sx)
    dx = E.real('dx', nan=True)
    u = lincomb(E, [dx], [x], E.real('f'))
    how = E.choice('how', ['call', 'nested', 'product', 'sum'])
    if how == 'nested':
        u = lincomb(E, [1.0], [u], E.real('g'))
    elif how == 'product':
        u = u * 1.0
    elif how == 'sum':
        u = u + 1
    s = u.std_dev
    comp = u.error_components()
    E.check(len(comp) == 1, 'one component')
    if sx == 0:
        E.close(comp[x], 0.0, 'exact input contributes nothing')
        E.close(s, 0.0, 'function of an exact variable is exact')
    elif dx != dx or sx != sx:
        E.close(s, E.nan, 'undefined')
    elif sx == E.inf:
        E.close(s, E.nan if dx == 0 else E.inf, 'infinite sigma')
    else:
        E.close(s * s, dx * dx * sx * sx, 'finite case')
        E.check(s >= 0, 'std_dev is non negative')


def wide(E):
    """Many variables."""
    n, s = E.p['n'], E.real('s', nonneg=True)
    vs = [E.u.ufloat(1.0, s) for i in range(n)]
    t = vs[-1].std_dev = E.real('t', nonneg=True)
    u = sum((i % 3 - 1.5) * v for i, v in enumerate(vs))
    cs = [i % 3 - 1.5 for i in range(n)]
    comp = u.error_components()
    for v, c in zip(vs, cs):
        E.close(comp[v], abs(c) * v.std_dev, 'error component')
    E.close(u.std_dev * u.std_dev, sum([c * c for c in cs[:-1]]) * s * s + cs[-1] ** 2 * t * t, 'quadrature of %d components' % n)


def constant(E):
    """A result without variables has a null uncertainty."""
    x = E.u.ufloat(E.real('x'), 0)
    E.close(x.std_dev, 0.0, 'exact variable')
    k = E.real('k')
    y = x * k + 1
    E.close(y.std_dev, 0.0, 'function of exact variables')
    E.close(E.u.std_dev(k), 0.0, 'plain number')
    E.close(E.u.nominal_value(k), k, 'plain number value')
    E.close(E.core.to_affine_scalar(k).std_dev, 0.0, 'constant number with uncertainty')


def extreme(E):
    """Components that are very large or very small (with the overflow and underflow of floats)."""
    ss, cs, vs = [], [], []
    for i, (a, b) in enumerate(E.p['mags']):
        ss.append(E.real('s%d' % i, lo=10.0 ** a, hi=9 * 10.0 ** a))
        cs.append(E.real('c%d' % i, lo=10.0 ** b, hi=9 * 10.0 ** b))
        if E.flag('neg%d' % i):
            cs[i] = -cs[i]
        vs.append(E.u.ufloat(1.0, ss[i]))
    u = lincomb(E, cs, vs, E.real('f'))
    if E.p.get('added'):
        u = sum([lincomb(E, [c], [v], 1.0) for c, v in zip(cs, vs)], E.u.ufloat(1.0, 0.0))
    s = u.std_dev
    comp = u.error_components()
    for v, c, sv in zip(vs, cs, ss):
        E.near(comp[v], E.exact(lambda c, s: abs(c) * s, c, sv), 'error component')

    def same(s, *cs):
        n = len(cs) // 2
        tot = sum([c * c * t * t for c, t in zip(cs[:n], cs[n:])])
        return E.sure(s * s == tot) or E.AND(s * s * 100000 <= tot * 100001, s * s * 100000 >= tot * 99999)
    E.check(E.isfinite(s), 'std_dev is finite')
    E.check(E.exact(same, s, *cs + ss), 'std_dev is the quadrature of the components')


def tasks(tier):
    big = tier == 'thorough'
    T = [Task(quad, {'n': n}) for n in ([1, 2, 3] + ([4, 5] if big else []))]
    T += [Task(quad, {'n': n, 'twice': 1}) for n in ([1, 2] + ([3] if big else []))]
    T += [Task(live), Task(special), Task(special_one), Task(constant), Task(wide, {'n': 100})] + ([Task(wide, {'n': 400})] if big else [])
    for mags in (((200, 0),), ((-200, 0),), ((0, 200),), ((100, 100),), ((-120, -120),), ((305, 0),), ((-305, 3),), ((300, -280),),
                 ((200, 0), (200, 0)), ((-200, 0), (-200, 0)), ((155, 0), (0, 154)), ((200, -100), (0, 0)), ((-290, 90), (0, -200)),
                 ((-162, 0), (-163, 0), (-162, 0)), ((153, 1), (0, 153), (153, 0))):
        for added in ((0, 1) if big else (len(mags) % 2,)):
            T.append(Task(extreme, {'mags': mags, 'added': added}, ieee=True))
    return T
