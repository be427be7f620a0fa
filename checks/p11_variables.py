"""P11: variables: validity of sigma, rejected updates, immutability, tags."""
import decimal
import fractions
import numpy
from symex.runner import Task

BOUNDS = ('all real nominal values and sigmas (also NaN, +-inf, ints); histories of up to 3 assignments of arbitrary values, '
          'accepted or rejected, mixed with queries; longer histories with several derived values; other number types')
ASSUMPTIONS = ['rounding is outside the model']


def sigma(E, name):
    k = E.choice(name + '.t', ['real', 'int'])
    if k == 'int':
        return E.int(name + 'i', -3, 3)
    return E.real(name, nan=True, inf=True, ninf=True)


def history(E):
    x0 = E.real('x')
    s = E.real('s0', nonneg=True)
    tag = E.choice('tag', [None, 'T', 5])
    x = E.u.ufloat(x0, s, tag) if tag is not None else E.u.ufloat(x0, s)
    other = E.u.ufloat(E.real('o'), E.real('so', nonneg=True))
    so = other.std_dev
    y = 2 * x + other
    cur = s
    for i in range(E.p['n']):
        new = sigma(E, 's%d' % (i + 1))
        bad = new < 0
        try:
            if E.p.get('setter'):
                x.set_std_dev(new)
            else:
                x.std_dev = new
            ok = True
        except E.core.NegativeStdDev:
            ok = False
        E.check(E.iff(bad, not ok), 'negative sigmas are rejected, others are accepted')
        if ok:
            cur = new
        E.close(x.std_dev, cur, 'sigma is the last accepted value')
        E.close(x.s, cur, 'same through .s')
        E.check(not (x.std_dev < 0), 'sigma is never negative')
        if E.p.get('query'):
            y.std_dev
    E.close(x.nominal_value, x0, 'nominal value never changes')
    E.check(x.tag == tag, 'tag never changes')
    E.close(other.std_dev, so, 'other variables are not affected')
    if not (cur == E.inf or cur != cur):
        E.close(y.std_dev * y.std_dev, 4 * cur * cur + so * so, 'derived value sees the last accepted sigma')
        E.close(E.get_deriv(x, x), 1.0, 'derivative wrt itself')


def long_history(E):
    """Longer histories, with queries of several derived values at any time."""
    x = E.u.ufloat(E.real('x'), E.real('s0', nonneg=True))
    y = E.u.ufloat(E.real('y'), 1.0)
    k, v = E.real('k'), E.real('v')
    lin = E.core.wrap(lambda p, q: v, [lambda p, q: k, lambda p, q: 1.0])
    derived = [lin(x, y), x + x, None, None]
    rows = [(k, 1.0), (2.0, 0.0), (2 * k, 1.0), (3.0, 0.0)]
    cur, other = x.std_dev, 1.0
    for i in range(E.p['n']):
        act = E.choice('act%d' % i, ['set', 'bad', 'other', 'query', 'back']) if i else E.p['first']
        if act == 'set':
            cur = x.std_dev = E.real('s%d' % (i + 1), nonneg=True)
        elif act == 'bad':
            E.raises(E.core.NegativeStdDev, lambda: setattr(x, 'std_dev', E.choice('neg', [-1, -1e-300, -E.inf])), 'negative sigma')
        elif act == 'other':
            other = y.std_dev = 2.0 + i
        elif act == 'back':
            x.std_dev = cur
        if i == 1:
            derived[2] = derived[0] + k * x
        if i == 2:
            derived[3] = derived[1] + x
        for j, (d, (a, b)) in enumerate(zip(derived, rows)):
            if d is not None and (act == 'query' or i == E.p['n'] - 1):
                E.close(d.std_dev ** 2, a * a * cur * cur + b * b * other * other, 'derived value %d' % j)
                if j < 2:
                    c = d.error_components()
                    E.close(c.get(x, 0.0) ** 2, a * a * cur * cur, 'component')
        E.close(x.std_dev, cur, 'sigma')
    E.close(y.std_dev, other, 'sigma of the other variable')


def number_types(E):
    """Values and sigmas of all types of numbers."""
    P = [True, 3, -2, 10 ** 20, 0, fractions.Fraction(3, 4), numpy.float64(2.5), numpy.float32(0.5), numpy.int64(-7), numpy.uint8(200), decimal.Decimal('1.5'), 2.5]
    v = E.choice('v', P)
    s = E.choice('s', [p for p in P])
    if s < 0:
        E.raises(E.core.NegativeStdDev, lambda: E.u.ufloat(v, s), 'negative sigma')
        return
    x = E.u.ufloat(v, s)
    k = E.real('k')
    E.close(x.nominal_value, float(v), 'nominal value')
    E.close(x.std_dev, float(s), 'sigma')
    E.check(isinstance(x.nominal_value, float) and isinstance(x.std_dev, float), 'floats')
    y = k * x
    E.close(y.nominal_value, k * float(v), 'product')
    E.close(y.std_dev, abs(k) * float(s), 'sigma of a product')
    x.std_dev = E.real('t', nonneg=True)
    x.std_dev = s
    E.close(y.std_dev, abs(k) * float(s), 'sigma of a product')
    E.check(isinstance(x.std_dev, float), 'float')


def independent(E):
    """Each call makes a new variable, whatever the arguments."""
    v, s = E.choice('v', [0, 1.0, E.real('x')]), E.choice('s', [0, 1.0, E.real('s', nonneg=True)])
    tag = E.choice('tag', [None, '', 'same', 0])
    xs = [E.u.ufloat(v, s, tag) for i in range(4)] + [E.u.ufloat(v, std_dev=s, tag=tag), E.u.ufloat(nominal_value=v, std_dev=s, tag=tag), E.core.Variable(v, s, tag=tag)]
    E.check(len(set(map(id, xs))) == len(xs), 'new objects')
    E.check(len(set(xs)) == len(xs), 'different keys')
    for i, x in enumerate(xs):
        E.check(x.tag == tag and (tag is not None or x.tag is None), 'tag')
        E.close(E.get_deriv(x - xs[i - 1], x), 1.0, 'independent')
    M = E.u.covariance_matrix(xs[:3])
    E.close(M[0][1], 0.0, 'not correlated')
    xs[0].std_dev = E.real('new', nonneg=True)
    E.close(xs[1].std_dev, s * 1.0, 'sigma of another')


def construct(E):
    v = E.real('x', nan=True, inf=True, ninf=True)
    s = sigma(E, 's')
    maker = E.choice('maker', ['ufloat', 'Variable'])
    fn = E.u.ufloat if maker == 'ufloat' else E.core.Variable
    if s < 0:
        E.raises(E.core.NegativeStdDev, lambda: fn(v, s), 'negative sigma')
        return
    x = fn(v, s)
    E.close(x.nominal_value, v, 'nominal value')
    E.close(x.n, v, '.n')
    E.close(x.std_dev, s * 1.0, 'sigma')
    E.check(x.tag is None, 'no tag')
    E.check(len(x.derivatives) == 1 and x.derivatives[x] == 1, 'depends on itself only')
    t = fn(v, s, 'tg')
    E.check(t.tag == 'tg', 'tag')
    E.check(isinstance(x, E.u.UFloat), 'is a UFloat')


def readonly(E):
    x = E.u.ufloat(E.real('x'), E.real('s', nonneg=True))
    y = x * 2
    new = E.real('new')
    for o in (x, y):
        n0 = o.nominal_value
        for attr in ('nominal_value', 'n'):
            E.raises(AttributeError, lambda: setattr(o, attr, new), attr + ' cannot be assigned')
        E.close(o.nominal_value, n0, 'unchanged')
    E.raises(AttributeError, lambda: setattr(y, 'std_dev', abs(new)), 'sigma of a derived value cannot be assigned')
    E.raises(AttributeError, lambda: setattr(y, 's', abs(new)), 's of a derived value cannot be assigned')
    E.close(y.std_dev * y.std_dev, 4 * x.std_dev * x.std_dev, 'unchanged')


def coercion(E):
    """No implicit loss of uncertainty."""
    x = E.u.ufloat(E.real('x'), E.real('s', nonneg=True))
    o = E.choice('o', [x, x * 2 + 1])
    for f in (float, int, complex):
        E.raises(TypeError, lambda: f(o), '%s() of a number with uncertainty' % f.__name__)
    E.raises(TypeError, lambda: E.m.sin(o) if E.sym else __import__('math').sin(o), 'math function')
    E.raises((TypeError, ValueError, AttributeError), lambda: E.u.ufloat(o, 1), 'nested uncertainty is refused')


def access(E):
    """nominal_value()/std_dev() work alike on numbers with and without uncertainty."""
    x = E.u.ufloat(E.real('x'), E.real('s', nonneg=True))
    y = x * E.real('k') + 1
    for o in (x, y):
        E.close(E.u.nominal_value(o), o.nominal_value, 'nominal_value(u)')
        E.close(E.u.std_dev(o), o.std_dev, 'std_dev(u)')
        E.close(o.n, o.nominal_value, '.n')
        E.close(o.s, o.std_dev, '.s')
    f = E.real('f', nan=True, inf=True)
    E.close(E.u.nominal_value(f), f, 'nominal_value(float)')
    E.close(E.u.std_dev(f), 0.0, 'std_dev(float)')
    i = E.int('i', -3, 3)
    E.check(E.u.nominal_value(i) is i, 'nominal_value(int)')
    E.close(E.u.std_dev(i) * 1.0, 0.0, 'std_dev(int)')


def score(E):
    """std_score: signed distance in units of sigma, ValueError for a null sigma."""
    x = E.u.ufloat(E.real('x'), E.real('s', nonneg=True))
    k = E.real('k')
    o = E.choice('o', ['x', 'y'])
    u = x if o == 'x' else E.core.wrap(lambda p: E.real('w'), [lambda p: k])(x)
    v = E.real('v')
    if u.std_dev == 0:
        E.raises(ValueError, lambda: u.std_score(v), 'null sigma')
    else:
        E.close(u.std_score(v) * u.std_dev, v - u.nominal_value, 'std_score')


def tasks(tier):
    n = 2 if tier == 'quick' else 3
    T = [Task(history, {'n': n}, weight=3), Task(history, {'n': n, 'query': 1}, weight=3),
         Task(history, {'n': n, 'setter': 1}, weight=3)]
    T += [Task(long_history, {'n': 4 if tier == 'quick' else 5, 'first': f}, weight=5) for f in ('set', 'bad', 'query')]
    T += [Task(number_types), Task(independent)]
    T += [Task(construct), Task(readonly), Task(coercion), Task(access), Task(score)]
    return T
