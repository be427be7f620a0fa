"""P05: umath functions of several arguments and with structured results."""
import math
import numpy
from fractions import Fraction
from symex.runner import Task
from checks.p04_umath import attempt, arg, rel, TINY

BOUNDS = ('all real arguments, each one uncertain (variable) or a plain float, including the same variable twice; fmod quotients in '
          '[-4,4], modf |x|<5, frexp/ldexp binary exponents in [-3,4], ldexp also with 8 exponents in -2000..1020, fsum up to 4 (quick) / 8 terms, and up to 120 terms in any iterable; int, bool and NumPy arguments')
ASSUMPTIONS = ['rounding and signed zeros are outside the model (real arithmetic); overflow and underflow are modelled in the `extreme` tasks only (magnitudes up to 1e308, no subnormal intermediate results)',
               'log and atan2 are modelled by congruence, sign and range']


def derivs2(E, name, a, b, y):
    """(dy/da, dy/db), None: singular (NaN expected)"""
    m = E.m
    if name == 'atan2':        # atan2(y=a, x=b)
        h = a * a + b * b
        if h == 0:
            return None, None
        return b / h, -a / h
    if name == 'hypot':
        if y == 0:
            return None, None
        return a / y, b / y
    if name == 'copysign':
        s = 1.0 if b >= 0 else -1.0
        return (s if a >= 0 else -s), 0.0
    if name == 'log':          # log(a, base b)
        return 1 / a / m.log(b), -m.log(a) / (m.log(b) * m.log(b)) / b
    raise ValueError(name)


def two(E):
    name = E.p['f']
    kinds = E.p['kinds'].split(',')
    fn = getattr(E.umath, name)
    ops = []
    for i, k in enumerate(kinds):
        n = 'ab'[i]
        if k == 'float':
            v = E.real(n)
            ops.append((v, v, None, 0.0))
        elif k == 'same':
            ops.append(ops[0])
        else:
            ops.append(arg(E, n, k))
    (u, a, va, ka), (w, b, vb, kb) = ops
    if name == 'copysign':
        E.assume(E.NOT(b == 0))
        E.assume(E.NOT(a == 0))
    exp, exc = attempt(getattr(E.m, name), a, b)
    got, gexc = attempt(fn, u, w)
    E.check((exc is None) == (gexc is None), name + ': same domain as math.' + name)
    if exc is not None:
        E.check(gexc is exc, name + ': same exception')
        return
    E.close(got.nominal_value, exp, name + ': nominal value')
    da, db = derivs2(E, name, a, b, exp)
    if kinds[1] == 'same':
        if da is None:
            E.close(E.get_deriv(got, va), E.nan, name + ': singular')
        else:
            E.close(E.get_deriv(got, va), da + db, name + ': derivative, same variable twice')
        return
    for v, d, k, w in ((va, da, ka, 'first'), (vb, db, kb, 'second')):
        if v is not None:
            g = E.get_deriv(got, v)
            if d is None:
                E.close(g, E.nan, name + ': NaN derivative at a singular point')
            else:
                E.close(g, d * k, '%s: derivative wrt %s argument' % (name, w))


def small(E, err, x, a, b):
    """err is the absolute error on a derivative, times a*a+b*b; the underflow of floats is allowed for."""
    if E.sure(err == 0):
        return True
    t = abs(x) / 10 ** 9 + TINY * (a * a + b * b)
    return E.AND(err <= t, err >= -t)


def extreme(E):
    """Very large and very small arguments (with the overflow and underflow of floats)."""
    name = E.p['f']
    a = E.real('a', lo=10.0 ** E.p['off'], hi=9 * 10.0 ** E.p['off'])
    b = 3 * 10.0 ** E.p['off2']
    if E.p.get('both'):
        b = E.real('b', lo=10.0 ** E.p['off2'], hi=9 * 10.0 ** E.p['off2'])
    if E.flag('nega'):
        a = -a
    if E.flag('negb'):
        b = -b
    u, w = E.u.ufloat(a, 1.0), E.u.ufloat(b, 1.0)
    got = getattr(E.umath, name)(u, w)
    if name == 'atan2':
        for v, x, s in ((u, b, 1), (w, a, -1)):
            d = E.get_deriv(got, v)
            E.check(E.isfinite(d), 'finite derivative')
            E.check(E.exact(lambda d, x, a, b: small(E, s * d * (a * a + b * b) - x, x, a, b), d, x, a, b), 'atan2: derivative')
    else:
        h = got.nominal_value
        E.check(E.isfinite(h), 'finite value')
        E.check(E.exact(lambda h, a, b: E.AND(h > 0, rel(E, h * h, a * a + b * b)), h, a, b), 'hypot: value')
        for v, x in ((u, a), (w, b)):
            d = E.get_deriv(got, v)
            E.check(E.isfinite(d), 'finite derivative')
            E.near(d, E.exact(lambda x, h: x / h, x, h), 'derivative')


def fmod(E):
    kinds = E.p['kinds'].split(',')
    u, a, va, ka = arg(E, 'a', 'var') if kinds[0] != 'float' else (E.real('a'),) * 2 + (None, 0)
    w, b, vb, kb = arg(E, 'b', 'var') if kinds[1] != 'float' else (E.real('b'),) * 2 + (None, 0)
    E.assume(E.OR(b == 0, E.AND(b > 0.01, b < 100), E.AND(b < -0.01, b > -100)))
    E.assume(E.OR(b == 0, E.AND(b > 0, a <= 4 * b, a >= -4 * b), E.AND(b < 0, a >= 4 * b, a <= -4 * b)))
    exp, exc = attempt(E.m.fmod, a, b)
    got, gexc = attempt(E.umath.fmod, u, w)
    E.check((exc is None) == (gexc is None), 'fmod: same domain')
    if exc is not None:
        return
    E.close(got.nominal_value, exp, 'fmod: nominal value')
    r = exp / b
    # away from the jumps
    E.assume(E.OR(E.AND(r > 0.001, r < 0.999), E.AND(r < -0.001, r > -0.999)))
    q = E.m.trunc(a / b)
    if va is not None:
        E.close(E.get_deriv(got, va), 1.0, 'fmod: derivative wrt x', rel=1e-4)
    if vb is not None:
        E.close(E.get_deriv(got, vb), -q * 1.0, 'fmod: derivative wrt y', rel=1e-4)


def log1arg(E):
    """log with one argument is the natural logarithm; base may be given as a constant."""
    u, a, va, ka = arg(E, 'a', 'var')
    base = E.choice('base', [None, 10, 2, 2.5])
    args = () if base is None else (base,)
    exp, exc = attempt(E.m.log, a, *args)
    got, gexc = attempt(E.umath.log, u, *args)
    E.check((exc is None) == (gexc is None), 'log: domain')
    if exc is None:
        E.close(got.nominal_value, exp, 'log: value')
        E.close(E.get_deriv(got, va) * a * (1.0 if base is None else math.log(base)), 1.0, 'log: derivative')


def hypot3(E):
    """Functions of math that accept more arguments keep their derivatives."""
    us = [E.u.ufloat(E.real('x%d' % i, nonzero=True), 1) for i in range(3)]
    mask = E.choice('mask', [(1, 1, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)])
    if mask[2]:
        # the extra slopes are finite differences of a square root: fixed coordinates
        us = [E.u.ufloat(v, 1) for v in E.choice('pt', [(2.0, 3.0, 6.0), (-1.0, 2.0, -2.0)])]
    xs = [u.nominal_value for u in us]
    args = [u if m else x for u, m, x in zip(us, mask, xs)]
    got = E.umath.hypot(*args)
    h = E.m.hypot(*xs)
    E.close(got.nominal_value, h, 'hypot(x,y,z): value')
    for i in range(3):
        if mask[i]:
            E.close(E.get_deriv(got, us[i]), xs[i] / h, 'hypot(x,y,z): derivative %d' % i, rel=1e-4)


def modf(E):
    u, x, var, k = arg(E, 'x', E.p['kind'], lo=-5, hi=5)
    fr, it = E.umath.modf(u)
    efr, eit = E.m.modf(x)
    E.close(fr.nominal_value, efr, 'modf: fractional part')
    E.check(not isinstance(it, E.u.UFloat), 'modf: the integral part is a plain float')
    E.close(it, eit, 'modf: integral part')
    E.close(E.get_deriv(fr, var), k, 'modf: derivative of the fractional part is 1')
    f2, i2 = E.umath.modf(x)
    E.check(not isinstance(f2, E.u.UFloat), 'modf of a float has no uncertainty')
    E.close(f2, efr, 'modf(float)')
    E.close(i2, eit, 'modf(float)')


def ldexp(E):
    u, x, var, k = arg(E, 'x', E.p['kind'])
    i = E.intval('i', -3, 4)
    got = E.umath.ldexp(u, i)
    E.close(got.nominal_value, E.m.ldexp(x, i), 'ldexp: value')
    E.close(E.get_deriv(got, var), k * 2.0 ** i, 'ldexp: derivative 2**i')
    p = E.umath.ldexp(x, i)
    E.check(not isinstance(p, E.u.UFloat), 'ldexp(float) has no uncertainty')
    E.close(p, x * 2.0 ** i, 'ldexp(float)')


def ldexp_far(E):
    u, x, var, k = arg(E, 'x', 'var')
    i = E.choice('i', [-2000, -1080, -1070, -500, -60, 60, 900, 1020])
    E.assume(E.AND(x < 9, x > -9))
    got = E.umath.ldexp(u, i)
    w = Fraction(2) ** i
    E.close(got.nominal_value, x * w if E.sym else float(Fraction(x) * w), 'ldexp: value')
    E.close(E.get_deriv(got, var), w if E.sym else float(w), 'ldexp: derivative 2**i')


def frexp(E):
    u, x, var, k = arg(E, 'x', E.p['kind'])
    m, e = E.umath.frexp(u)
    em, ee = E.m.frexp(x)
    E.close(m.nominal_value, em, 'frexp: mantissa')
    E.check(not isinstance(e, E.u.UFloat), 'frexp: the exponent is a plain integer')
    E.close(e * 1.0, ee * 1.0, 'frexp: exponent')
    if E.NOT(x == 0):
        E.close(E.get_deriv(m, var), k * 2.0 ** (-ee), 'frexp: derivative of the mantissa is 2**-e')
        E.close((m * 2.0 ** ee - u).std_dev, 0.0, 'frexp: mantissa * 2**e is the number itself')
    pm, pe = E.umath.frexp(x)
    E.check(not isinstance(pm, E.u.UFloat), 'frexp(float) has no uncertainty')
    E.close(pm, em, 'frexp(float)')


def fsum(E):
    n = E.p['n']
    xs = [E.u.ufloat(E.real('x%d' % i), E.real('s%d' % i, pos=True)) for i in range(n)]
    terms, tot = [], 0.0
    cnt = [0.0] * n
    for i in range(n):
        k = E.choice('k%d' % i, ['var', 'float', 'dup'])
        if k == 'var':
            terms.append(xs[i]); cnt[i] += 1; tot = tot + xs[i].nominal_value
        elif k == 'float':
            terms.append(xs[i].nominal_value); tot = tot + xs[i].nominal_value
        else:
            terms.append(xs[0]); cnt[0] += 1; tot = tot + xs[0].nominal_value
    r = E.umath.fsum(terms)
    if not any(cnt):
        E.check(not isinstance(r, E.u.UFloat), 'fsum of floats is a float')
        E.close(r, tot, 'fsum of floats')
        return
    E.close(r.nominal_value, tot, 'fsum: value')
    for i in range(n):
        E.close(E.get_deriv(r, xs[i]), cnt[i], 'fsum: derivative of term %d' % i)


def fsum_long(E):
    """Many terms, in any kind of iterable; repeated variables, constants of several types, derived terms."""
    n = E.choice('n', [0, 2, 9, 33, 120])
    x, y = [E.u.ufloat(E.real(c), E.real('s' + c, pos=True)) for c in 'xy']
    k = E.real('k')
    z = E.core.wrap(lambda a: a, [lambda a: k])(x)
    pool = [(x, 1, 0), (y, 0, 1), (z, k, 0), (3, 0, 0), (numpy.float64(2.5), 0, 0), (True, 0, 0)]
    items = [pool[(i * i + i // 6) % 6] for i in range(n)]
    terms = [i[0] for i in items]
    make = E.choice('make', [list, tuple, iter, lambda t: (v for v in t), lambda t: numpy.array(t, dtype=object)])
    r = E.umath.fsum(make(terms))
    tot = sum([E.u.nominal_value(t) for t in terms], 0.0)
    if n == 0:
        E.check(not isinstance(r, E.u.UFloat) and r == 0, 'empty sum')
        return
    E.close(r.nominal_value, tot, 'fsum: value')
    E.close(E.get_deriv(r, x), sum(i[1] for i in items), 'fsum: derivative')
    E.close(E.get_deriv(r, y), sum(i[2] for i in items), 'fsum: derivative')
    E.close(r.std_dev ** 2, (sum(i[1] for i in items) * x.std_dev) ** 2 + (sum(i[2] for i in items) * y.std_dev) ** 2, 'fsum: sigma')


CONSTS = [True, 2, 3, -2, numpy.float64(2.5), numpy.int64(3), numpy.float32(0.5), 10 ** 16]


def types(E):
    """Constants of all types as the other argument."""
    name = E.p['f']
    c = E.choice('c', CONSTS)
    first = E.flag('first')
    x = E.real('x', lo=0.1, hi=1000)
    E.assume(E.NOT(x == 1))
    u = E.u.ufloat(x, 1)
    if E.flag('plain'):
        u = x
    uncert = u is not x
    a, b = (float(c), x) if first else (x, float(c))
    exp, exc = attempt(getattr(E.m, name), a, b)
    got, gexc = attempt(getattr(E.umath, name), *((c, u) if first else (u, c)))
    E.check(exc is gexc, name + ': same exception')
    if exc is None:
        E.check(isinstance(got, E.u.UFloat) == uncert, 'uncertain exactly when an argument is')
        E.close(E.u.nominal_value(got), exp, name + ': value')
        if uncert:
            d = derivs2(E, name, a, b, exp)[1 if first else 0]
            E.close(E.get_deriv(got, u), d, name + ': derivative')
            E.check(all(v is u for v in got.derivatives), 'no other variable')


def factorial(E):
    n = E.intval('n', 0, 6)
    E.close(E.umath.factorial(n) * 1.0, math.factorial(n) * 1.0, 'factorial')


def tasks(tier):
    T = []
    for f in ('atan2', 'hypot', 'copysign', 'log'):
        for k in ('var,var', 'var,float', 'float,var', 'derived,derived', 'var,same'):
            T.append(Task(two, {'f': f, 'kinds': k}))
    for f in ('atan2', 'hypot'):
        for a, b in ((100, 100), (155, 155), (200, 200), (300, 300), (-100, -100), (-155, -155), (-163, -163), (-200, -200), (-290, -290),
                     (-200, 200), (0, 200), (200, 0), (0, -200), (-200, 0), (140, 155)):
            T.append(Task(extreme, {'f': f, 'off': a, 'off2': b}, ieee=True))
            if a == b and (tier != 'quick' or abs(a) == 200):
                T.append(Task(extreme, {'f': f, 'off': a, 'off2': b, 'both': 1}, ieee=True))
    for k in ('var,var', 'var,float', 'float,var'):
        T.append(Task(fmod, {'kinds': k}, kwin=(-5, 5), weight=5))
    T += [Task(log1arg), Task(hypot3), Task(factorial)]
    for k in ('var', 'derived'):
        T += [Task(modf, {'kind': k}, kwin=(-6, 6)), Task(ldexp, {'kind': k}), Task(frexp, {'kind': k})]
    T.append(Task(ldexp_far))
    T.append(Task(fsum_long))
    T += [Task(types, {'f': f}) for f in ('atan2', 'hypot', 'copysign', 'log')]
    T += [Task(fsum, {'n': n}) for n in ((1, 3, 4) if tier == 'quick' else (1, 3, 4, 5))]
    return T
