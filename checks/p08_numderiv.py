"""P08: numerical derivatives: accurate on smooth functions, local, side-effect free."""
from symex.runner import Task

BOUNDS = ('functions of 1-3 arguments: arbitrary quadratics (all real coefficients), cubics with |coefficients| <= 10, '
          '|x|,|y| in {0} or [1e-3, 1e4]; a/x and a*x**3 with |x| in 1e-12..1e-3 and 1e3..1e12, and around 1e-80, 1e-17 and 1e65; positional and keyword differentiation variable')
ASSUMPTIONS = ['rounding is outside the model: over the reals a central difference is exact on quadratics and within '
               'h^2 on cubics (step relative to |x|)']


def pt(E, name):
    v = E.real(name, lo=-10000, hi=10000)
    E.assume(E.OR(v == 0, v >= 0.001, v <= -0.001))
    return v


def near(E, g, e, x, msg, slack=1.0):
    E.close(g, e, msg, rel=1e-4, scale=1.0)


def quadratic(E):
    x, y = pt(E, 'x'), pt(E, 'y')
    a, b, c, d = [E.real(n, lo=-10, hi=10) for n in 'abcd']
    calls = []

    def f(x, y):
        calls.append((x, y))
        return a + b * x + c * x * x + d * x * y
    which = E.choice('which', [0, 1, 'x', 'y'])
    style = E.choice('style', ['pos', 'kw', 'mix'])
    pd = E.core.partial_derivative(f, which) if E.flag('direct') or isinstance(which, str) \
        else E.core.NumericalDerivatives(f)[which]
    if style == 'pos':
        args, kw = [x, y], {}
    elif style == 'kw':
        args, kw = [], {'x': x, 'y': y}
    else:
        args, kw = [x], {'y': y}
    # the differentiation variable must be given in the matching style
    if isinstance(which, int) and which >= len(args) or isinstance(which, str) and which not in kw:
        return E.check(True, '')
    args0, kw0 = list(args), dict(kw)
    r = pd(*args, **kw)
    first = which in (0, 'x')
    exp = b + 2 * c * x + d * y if first else d * x
    near(E, r, exp, x, 'derivative of a quadratic')
    E.check(len(args) == len(args0) and all(p is q for p, q in zip(args, args0)), 'arguments untouched')
    E.check(all(kw[k] is kw0[k] for k in kw0), 'keyword arguments untouched')
    E.check(len(calls) >= 2, 'the function is sampled')
    # only the chosen argument moves, and by a small amount
    for (cx, cy) in calls:
        m, f0 = (cx, cy) if first else (cy, cx)
        v, w = (x, y) if first else (y, x)
        E.close(f0, w, 'the other argument does not move')
        E.check(E.AND(m - v <= 1e-4 * E_max(E, abs(v), 1.0), v - m <= 1e-4 * E_max(E, abs(v), 1.0)),
                'sampled close to the point')
    # the object can be reused: same answer
    near(E, pd(*args, **kw), exp, x, 'second evaluation')


def E_max(E, a, b):
    return a + b


def cubic(E):
    x = pt(E, 'x')
    E.assume(E.AND(x <= 100, x >= -100))
    a, b, c = [E.real(n, lo=-10, hi=10) for n in 'abc']

    def f(t):
        return a * t + b * t * t + c * t * t * t
    r = E.core.partial_derivative(f, 0)(x)
    e = a + 2 * b * x + 3 * c * x * x
    E.check(E.AND(r - e <= 1e-4, e - r <= 1e-4), 'derivative of a cubic is accurate')


def scales(E):
    """Functions that vary on the scale of their argument, for tiny and for large arguments."""
    lo, hi = E.p['win']
    x = E.real('x', lo=10.0 ** lo, hi=10.0 ** hi)
    if E.flag('neg'):
        x = -x
    a = E.real('a', lo=1, hi=10)
    pts = []

    def f(t):
        pts.append(t)
        return a / t if E.p['f'] == 'inverse' else a * t * t * t
    kw = E.flag('kw')
    r = E.core.partial_derivative(f, 't')(t=x) if kw else E.core.partial_derivative(f, 0)(x)
    if E.p['f'] == 'inverse':
        E.close(r * x * x, -a, 'derivative of a/x', rel=1e-4, scale=0)
    else:
        E.close(r, 3 * a * x * x, 'derivative of a*x**3', rel=1e-4, scale=0)
    m = abs(x)
    for t in pts:
        E.check(abs(t - x) <= 1e-3 * m, 'sampled close to the point')
        E.check(E.OR(t == x, abs(t - x) >= 1e-12 * m), 'the shift is not lost in rounding')


def linear_in_f(E):
    """Numerical derivatives are linear in f and zero for constants."""
    x = pt(E, 'x')
    k = E.real('k', lo=-10, hi=10)
    pd = E.core.partial_derivative
    E.close(pd(lambda t: k, 0)(x), 0.0, 'constant function')
    E.close(pd(lambda t: k * t, 0)(x), k, 'linear function', rel=1e-5)


def through_wrap(E):
    """wrap() without derivatives: uncertain results with the numerical slope."""
    x, y = pt(E, 'x'), pt(E, 'y')
    a, b = E.real('a', lo=-10, hi=10), E.real('b', lo=-10, hi=10)

    def f(u, v):
        return a * u * u + b * u * v
    ux, uy = E.u.ufloat(x, E.real('sx', pos=True)), E.u.ufloat(y, E.real('sy', pos=True))
    r = E.core.wrap(f)(ux, uy)
    E.close(r.nominal_value, a * x * x + b * x * y, 'nominal value is f(x,y), not a shifted value')
    E.close(E.get_deriv(r, ux), 2 * a * x + b * y, 'slope in x', rel=1e-4)
    E.close(E.get_deriv(r, uy), b * x, 'slope in y', rel=1e-4)
    E.close(ux.nominal_value, x, 'argument unchanged')


def tasks(tier):
    return [Task(scales, dict(win=w, mags=(w,), f=f)) for w in ([-12, -6], [-6, -3], [3, 8], [8, 12], [-80, -75], [-20, -14], [60, 70]) for f in ('inverse', 'cubic')] + [
        Task(quadratic), Task(cubic), Task(linear_in_f), Task(through_wrap)]
