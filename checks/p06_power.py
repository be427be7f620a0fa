"""P06: powers: value, both partial derivatives in every sign/zero/integrality case."""
import numpy
from symex.runner import Task

BOUNDS = ('all real bases and exponents (symbolic, incl. zero and negative bases; for negative bases every integer '
          'exponent), through ** (both sides), pow() and umath.pow; plus every concrete exponent in a fixed list')
ASSUMPTIONS = ['x**y for non-numeral y is an uninterpreted positive function of (x,y) with the laws P(x,0)=1, P(x,1)=x, '
               'P(x,y+n)=P(x,y) x^n, monotonicity around 1; rounding is outside the model; overflow and underflow are modelled in the `extreme` tasks only (magnitudes up to 1e308, no subnormal intermediate results)']

EXPS = [0, 1, 2, 3, 4, -1, -2, -3, 0.5, 1.5, -0.5, 2.5, -1.5, 0.0, 1.0, 2.0, -1.0,
        True, False, 7, -6, 4.5, -3.5, numpy.float64(2), numpy.float64(0.5), numpy.float64(-1.5), numpy.float32(3), numpy.int64(2)]


def build(E, name, uncertain):
    v = E.real(name)
    if not uncertain:
        return v, v, None, 0.0
    x = E.u.ufloat(v, E.real('s' + name, pos=True))
    return x, v, x, 1.0


def attempt(fn, *a):
    try:
        return fn(*a), None
    except (ValueError, ZeroDivisionError) as e:
        return None, type(e)


def spec(E, a, b):
    """(dx, dy) of a**b, NaN where the derivative does not exist."""
    nan = E.nan
    if a > 0:
        p = a ** b
        return b * p / a, E.m.log(a) * p
    if a == 0:
        # value defined: b >= 0
        if b == 0:
            return 0.0, nan
        if b % 1 == 0:
            return (1.0 if b == 1 else 0.0), 0.0
        return nan, 0.0
    # negative base: integer exponent
    if b == 0:
        return 0.0, nan
    return b * a ** (b - 1), nan


def run(E, fn, u, w, a, b, va, vb, viamath):
    try:
        exp = a ** b
        exc = None
        if isinstance(exp, complex):
            exp, exc = None, ValueError
    except ZeroDivisionError:
        exp, exc = None, ValueError if viamath else ZeroDivisionError
    got, gexc = attempt(fn, u, w)
    E.check((exc is None) == (gexc is None), 'pow raises exactly when there is no real value')
    if exc is not None:
        E.check(gexc is exc, 'pow: exception type %s' % exc.__name__)
        return
    E.close(got.nominal_value, exp, 'pow: nominal value')
    dx, dy = spec(E, a, b)
    if va is not None and va is vb:
        t = dx + dy
        E.close(E.get_deriv(got, va), t, 'x**x derivative')
        return
    if va is not None:
        E.close(E.get_deriv(got, va), dx, 'pow: derivative wrt the base')
    if vb is not None:
        E.close(E.get_deriv(got, vb), dy, 'pow: derivative wrt the exponent')


FN = {'op': lambda E: (lambda x, y: x ** y), 'pow': lambda E: pow, 'umath': lambda E: E.umath.pow}


def symbolic(E):
    k = E.p['kinds'].split(',')
    u, a, va, _ = build(E, 'a', k[0] == 'var')
    w, b, vb, _ = (u, a, va, 0) if k[1] == 'same' else build(E, 'b', k[1] == 'var')
    E.assume(E.AND(a < 20, a > -20, b < 8, b > -8))
    E.assume(E.OR(a == 0, a > 0.05, a < -0.05))
    if E.p.get('negint'):
        E.assume(a < 0)
        E.assume(b % 1 == 0)
        if not E.sym:
            pass
    run(E, FN[E.p['via']](E), u, w, a, b, va, vb, E.p['via'] == 'umath')


def concrete_exp(E):
    """x**n for the documented kinds of exponents, exact polynomial derivative."""
    n = E.choice('n', EXPS)
    u, a, va, _ = build(E, 'a', True)
    if E.p.get('exp_uncertain'):
        w = E.u.ufloat(n, E.real('sn', pos=True))
        vb = w
    else:
        w, vb = n, None
    run(E, FN[E.p["via"]](E), u, w, a, float(n), va, vb, E.p['via'] == 'umath')


def concrete_base(E):
    """n**x"""
    n = E.choice('n', [2, 10, 0.5, 1, 0, 0.0, -1, 3.0, True, False, numpy.float64(2.5), numpy.float64(0), numpy.int64(3), numpy.float32(0.5)])
    w, b, vb, _ = build(E, 'b', True)
    E.assume(E.AND(b < 8, b > -8))
    run(E, FN[E.p['via']](E), n, w, float(n), b, None, vb, E.p['via'] == 'umath')


def extreme(E):
    """Very large and very small bases (with the overflow and underflow of floats)."""
    n = E.choice('n', [1, 2, 3, -1, -2, 0, 2.0, -1.0])
    x = E.real('x', lo=10.0 ** E.p['off'], hi=9 * 10.0 ** E.p['off'])
    if E.flag('neg'):
        x = -x
    u = E.u.ufloat(x, 1.0)
    try:
        want, exc = x ** n, None
    except OverflowError as e:
        want, exc = None, OverflowError
    try:
        got, gexc = u ** n, None
    except OverflowError as e:
        got, gexc = None, OverflowError
    E.check(exc is gexc, 'overflow like that of floats')
    if exc is None:
        E.near(got.nominal_value, E.exact(lambda x: x ** int(n), x), 'nominal value')
        if n:
            E.near(E.get_deriv(got, u), E.exact(lambda x: int(n) * x ** (int(n) - 1), x), 'derivative')
        else:
            E.check(E.get_deriv(got, u) == 0.0, 'derivative of x**0')


def tasks(tier):
    T = []
    for via in ('op', 'pow', 'umath'):
        for k in ('var,var', 'var,float', 'float,var', 'var,same'):
            T.append(Task(symbolic, {'kinds': k, 'via': via}))
        T.append(Task(concrete_exp, {'via': via}))
        T.append(Task(concrete_exp, {'via': via, 'exp_uncertain': 1}))
        T.append(Task(concrete_base, {'via': via}))
    T += [Task(extreme, {'off': a}, ieee=True) for a in (99, 120, 160, 300, -99, -120, -170, -300)]
    return T
