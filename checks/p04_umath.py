"""P04: umath functions of one variable: value, true derivative, NaN at singular points, constants."""
import math
import numpy
from fractions import Fraction
from symex.runner import Task

BOUNDS = ('every real argument in the domain (and outside it: same exception as math); argument = variable or '
          'derived quantity with arbitrary slope; floor-like functions: |x| < 5; gamma/lgamma: an arbitrary '
          'quadratic near x stands for the function')
ASSUMPTIONS = ['libm functions are modelled by their algebraic laws (sin^2+cos^2=1, cosh^2-sinh^2=1, exp=cosh+sinh, '
               'inverse functions by range and sign, log by sign and congruence); rounding and signed zeros '
               'are outside the model; overflow and underflow are modelled in the `extreme` tasks only (magnitudes up to 1e308, no subnormal intermediate results)']

# function -> how the derivative d at x is characterised; NaN where None is returned
def sq(x): return x * x


def law(E, name, x, d, y):
    """Assert that d is the derivative of `name` at x (y: the value)."""
    m = E.m
    nanp = lambda: E.close(d, E.nan, name + ': no derivative at a singular point')
    if name in ('acos', 'asin'):
        if E_or(E, x == 1, x == -1):
            return nanp()
        E.close(d * d * (1 - x * x), 1.0, name + ': d^2 (1-x^2) = 1')
        E.check(d < 0 if name == 'acos' else d > 0, name + ': sign of the derivative')
    elif name == 'acosh':
        if x == 1:
            return nanp()
        E.close(d * d * (x * x - 1), 1.0, 'acosh: d^2 (x^2-1) = 1')
        E.check(d > 0, 'acosh: sign')
    elif name == 'asinh':
        E.close(d * d * (1 + x * x), 1.0, 'asinh: d^2 (1+x^2) = 1')
        E.check(d > 0, 'asinh: sign')
    elif name == 'atan':
        E.close(d * (1 + x * x), 1.0, 'atan: d (1+x^2) = 1')
    elif name == 'atanh':
        E.close(d * (1 - x * x), 1.0, 'atanh: d (1-x^2) = 1')
    elif name == 'cos':
        E.close(d, -m.sin(x), 'cos\' = -sin')
    elif name == 'sin':
        E.close(d, m.cos(x), 'sin\' = cos')
    elif name == 'tan':
        E.close(d * sq(m.cos(x)), 1.0, 'tan\' cos^2 = 1')
    elif name == 'cosh':
        E.close(d, m.sinh(x), 'cosh\' = sinh')
    elif name == 'sinh':
        E.close(d, m.cosh(x), 'sinh\' = cosh')
    elif name == 'tanh':
        E.close(d * sq(m.cosh(x)), 1.0, 'tanh\' cosh^2 = 1')
    elif name in ('exp', 'expm1'):
        E.close(d, m.exp(x), name + '\' = exp')
    elif name == 'log':
        E.close(d * x, 1.0, 'log\' = 1/x')
    elif name == 'log10':
        E.close(d * x * math.log(10), 1.0, 'log10\' = 1/(x ln 10)')
    elif name == 'log2':
        E.close(d * x * math.log(2), 1.0, 'log2\' = 1/(x ln 2)')
    elif name == 'log1p':
        E.close(d * (1 + x), 1.0, 'log1p\' = 1/(1+x)')
    elif name == 'sqrt':
        if x == 0:
            return nanp()
        E.close(2 * d * y, 1.0, 'sqrt\' = 1/(2 sqrt)')
    elif name == 'degrees':
        E.close(d, 180 / math.pi, 'degrees')
    elif name == 'radians':
        E.close(d, math.pi / 180, 'radians')
    elif name == 'fabs':
        if x > 0:
            E.close(d, 1.0, 'fabs')
        elif x < 0:
            E.close(d, -1.0, 'fabs')
    elif name in ('erf', 'erfc'):
        e = m.exp(-(x * x))
        s = 1 if name == 'erf' else -1
        E.close(d, s * 2 / math.sqrt(math.pi) * e, name + '\'')
    elif name in ('gamma', 'lgamma'):
        E.close(d, E.smooth_d(name, x), name + '\' (numerical)', rel=1e-4)
    else:
        E.fail('no law for ' + name)


def E_or(E, a, b):
    return bool(E.OR(a, b))


ANALYTIC = ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atanh', 'cos', 'cosh', 'degrees', 'erf', 'erfc', 'exp',
            'expm1', 'fabs', 'gamma', 'lgamma', 'log', 'log10', 'log1p', 'radians', 'sin', 'sinh', 'sqrt', 'tan',
            'tanh']
LOCAL = ['ceil', 'floor', 'isinf', 'isnan', 'trunc']


def attempt(fn, *a):
    try:
        return fn(*a), None
    except (ValueError, ZeroDivisionError, OverflowError) as e:
        return None, type(e)


def arg(E, name, kind, **kw):
    x = E.u.ufloat(E.real(name, **kw), E.real('s' + name, pos=True))
    if kind == 'var':
        return x, x.nominal_value, x, 1.0
    k, v = E.real('k' + name), E.real('f' + name, **kw)

    def f(a):
        return v
    return E.core.wrap(f, [lambda a: k])(x), v, x, k


RANGE = {'gamma': (0.25, 8), 'lgamma': (0.25, 8), 'tan': (-50, 50), 'cosh': (-20, 20), 'sinh': (-20, 20),
         'tanh': (-6, 6), 'exp': (-20, 20), 'expm1': (-20, 20), 'erf': (-5, 5), 'erfc': (-5, 5)}


def unary(E):
    name = E.p['f']
    fn = getattr(E.umath, name)
    lo, hi = E.p.get('win') or RANGE.get(name, (None, None))
    u, x, var, k = arg(E, 'x', E.p['kind'], lo=lo, hi=hi)
    exp, exc = attempt(getattr(E.m, name), x)
    got, gexc = attempt(fn, u)
    E.check((exc is None) == (gexc is None), name + ': same domain as math.' + name)
    if exc is not None:
        E.check(gexc is exc, name + ': same exception')
        return
    E.check(isinstance(got, E.u.UFloat), name + ': result has an uncertainty')
    E.close(got.nominal_value, exp, name + ': nominal value is math.%s(x)' % name)
    E.check(all(w is var for w in got.derivatives), name + ': only depends on x')
    d = E.get_deriv(got, var)
    if E.p['kind'] == 'derived':
        # chain rule: slope of the argument times the derivative
        base = E.u.ufloat(x, 1)
        d0 = E.get_deriv(fn(base), base)
        if d0 != d0:
            E.close(d, E.nan, name + ': NaN derivative propagates')
        else:
            E.close(d, d0 * k, name + ': chain rule')
    else:
        law(E, name, x, d, exp)
    # derivative evaluated at the argument, which is left alone
    E.close(u.nominal_value, x, 'argument unchanged')


def extreme(E):
    """Very large and very small arguments (with the overflow and underflow of floats)."""
    name, a = E.p['f'], E.p.get('off')
    lo, hi = (10.0 ** a, 9 * 10.0 ** a) if a is not None else E.p['win']
    x = E.real('x', lo=lo, hi=hi)
    if E.p.get('neg'):
        x = -x
    u = E.u.ufloat(x, 1.0)
    exp, exc = attempt(getattr(E.m, name), x)
    got, gexc = attempt(getattr(E.umath, name), u)
    E.check(exc is gexc, name + ': same exception')
    if exc is not None:
        return
    d = E.get_deriv(got, u)
    E.check(E.isfinite(d), name + ': finite derivative')
    if name in LIBM:
        w = LIBM[name](E.m, x)
        E.check(E.exact(lambda a, b: E.OR(rel(E, a, b), rel(E, -a, -b)), d, w), name + ': derivative')
    if name in EXACT:
        test = E.exact(lambda x, d: EXACT[name](E, x, d), x, d)
        E.check(test, name + ': derivative')


def rel(E, a, b):
    return E.AND(a * 10 ** 9 <= b * (10 ** 9 + 1), a * 10 ** 9 >= b * (10 ** 9 - 1))


LIBM = {'exp': lambda m, x: m.exp(x), 'expm1': lambda m, x: m.exp(x), 'sinh': lambda m, x: m.cosh(x),
        'cosh': lambda m, x: m.sinh(x), 'erf': lambda m, x: 2 / math.sqrt(math.pi) * m.exp(-x * x),
        'erfc': lambda m, x: -2 / math.sqrt(math.pi) * m.exp(-x * x)}
TINY = Fraction(10) ** -300
EXACT = {
    'acosh': lambda E, x, d: E.AND(d > 0, rel(E, d * d * (x * x - 1), 1)),
    'asinh': lambda E, x, d: E.AND(d > 0, rel(E, d * d * (x * x + 1), 1)),
    'atan': lambda E, x, d: E.OR(rel(E, d * (x * x + 1), 1), E.AND(d >= 0, d < TINY, x * x > 1 / TINY)),
    'atanh': lambda E, x, d: rel(E, d * (1 - x * x), 1),
    'asin': lambda E, x, d: E.AND(d > 0, rel(E, d * d * (1 - x * x), 1)),
    'acos': lambda E, x, d: E.AND(d < 0, rel(E, d * d * (1 - x * x), 1)),
    'log': lambda E, x, d: rel(E, d * x, 1),
    'log10': lambda E, x, d: rel(E, d * x * Fraction(math.log(10)), 1),
    'log1p': lambda E, x, d: rel(E, d * (1 + x), 1),
    'sqrt': lambda E, x, d: E.AND(d > 0, rel(E, 4 * d * d * x, 1)),
    'tanh': lambda E, x, d: E.AND(d >= 0, d <= 1),
    'cosh': lambda E, x, d: d > 0 if x > 0 else d < 0,
    'sinh': lambda E, x, d: d > 0,
    'degrees': lambda E, x, d: rel(E, d, Fraction(180 / math.pi)),
    'radians': lambda E, x, d: rel(E, d, Fraction(math.pi / 180)),
    'fabs': lambda E, x, d: rel(E, d, 1) if x > 0 else rel(E, -d, 1),
}


def plain(E):
    """Plain numbers in, exactly the math function out."""
    name = E.p['f']
    lo, hi = RANGE.get(name, (None, None))
    x = E.real('x', lo=lo, hi=hi)
    if name in LOCAL:
        E.assume(E.AND(x > -5, x < 5))
    exp, exc = attempt(getattr(E.m, name), x)
    got, gexc = attempt(getattr(E.umath, name), x)
    E.check((exc is None) == (gexc is None), name + ': same domain')
    if exc is None:
        E.check(not isinstance(got, E.u.UFloat), name + ': no uncertainty without uncertain arguments')
        E.close(got, exp, name + ': plain value')


def local(E):
    """Locally constant functions return plain math results."""
    name = E.p['f']
    u, x, var, k = arg(E, 'x', E.p['kind'], lo=-5, hi=5)
    exp = getattr(E.m, name)(x)
    got = getattr(E.umath, name)(u)
    E.check(not isinstance(got, E.u.UFloat), name + ': plain result')
    E.close(got * 1.0, exp * 1.0, name + ': value')
    if not E.sym:
        E.check(type(got) is type(exp), name + ': type')


POINTS = [True, False, 0, 1, -1, 2, 5, 10, numpy.float64(0.5), numpy.float64(-2.5), numpy.float32(0.25), numpy.int64(3), numpy.uint8(7)]


def types(E):
    """Arguments (and nominal values) of all types."""
    name = E.p['f']
    c = E.choice('c', [c for c in POINTS if name != 'trunc' or isinstance(c, (int, float))])
    exp, exc = attempt(getattr(E.m, name), float(c))
    got, gexc = attempt(getattr(E.umath, name), c)
    E.check(exc is gexc, name + ': same exception')
    s = E.real('s', pos=True)
    u = E.u.ufloat(c, s)
    v = E.u.ufloat(float(c), s)
    w = E.real('k') * E.u.ufloat(0, s) + c
    for t in (u, v, w):
        gu, eu = attempt(getattr(E.umath, name), t)
        E.check(exc is eu, name + ': same exception')
        if exc is None:
            E.close(E.u.nominal_value(gu) * 1.0, exp * 1.0, name + ': nominal value')
            if name not in LOCAL + ['gamma', 'lgamma'] and t is not w:
                d = E.get_deriv(gu, t)
                E.check(not isinstance(d, bool), 'a number')
                if not d != d:
                    law(E, name, float(c), d, float(exp))
    if exc is None:
        E.check(not isinstance(got, E.u.UFloat), name + ': plain result')
        E.close(got * 1.0, exp * 1.0, name + ': value')


def nonfinite(E):
    """Non-finite nominal values follow math's conventions."""
    name = E.p['f']
    v = E.choice('v', [math.nan, math.inf, -math.inf])
    u = E.u.ufloat(v, E.real('s', pos=True))
    exp, exc = attempt(getattr(E.m, name), v)
    got, gexc = attempt(getattr(E.umath, name), u)
    E.check((exc is None) == (gexc is None), name + ': same domain for non-finite values')
    if exc is None:
        g = got.nominal_value if isinstance(got, E.u.UFloat) else got
        E.close(g * 1.0, exp * 1.0, name + ': non-finite value')


def tasks(tier):
    T = []
    for f in ANALYTIC:
        T.append(Task(unary, {'f': f, 'kind': 'var'}))
        T.append(Task(unary, {'f': f, 'kind': 'derived'}))
        T.append(Task(plain, {'f': f}))
        T.append(Task(nonfinite, {'f': f}))
    for f in ('acosh', 'asinh', 'atan', 'log', 'log10', 'log1p', 'sqrt', 'erf', 'erfc', 'degrees', 'radians', 'fabs'):
        for a in (3, 100, 155, 200, 300):
            for neg in ((0, 1) if f in ('asinh', 'atan', 'erf', 'erfc', 'tanh', 'degrees', 'fabs') else (0,)):
                T.append(Task(extreme, {'f': f, 'off': a, 'neg': neg}, ieee=True))
    for f in ('acos', 'asin', 'atanh', 'asinh', 'atan', 'log', 'log10', 'log1p', 'sqrt', 'erf', 'erfc', 'degrees', 'radians', 'fabs'):
        for a in (-100, -150, -165, -200, -300):
            for neg in ((0, 1) if not f.startswith('log') and f != 'sqrt' else (0,)):
                T.append(Task(extreme, {'f': f, 'off': a, 'neg': neg}, ieee=True))
    for f in ('exp', 'expm1', 'sinh', 'cosh'):
        for w in ((-300, -20), (20, 300)):
            T.append(Task(unary, {'f': f, 'kind': 'var', 'win': w}))
    for a in (3, 200, -200):
        T.append(Task(extreme, {'f': 'tanh', 'off': a}, ieee=True))
    for f in ('tanh', 'sinh', 'cosh', 'exp', 'expm1', 'erf', 'erfc'):
        for w in ((22, 300), (365, 700), (800, 9000)):
            for neg in (0, 1):
                T.append(Task(extreme, {'f': f, 'win': w, 'neg': neg}, ieee=True))
    for f in ('erf', 'erfc'):
        for neg in (0, 1):
            T.append(Task(extreme, {'f': f, 'win': (5, 22), 'neg': neg}, ieee=True))
    for f in LOCAL:
        T.append(Task(local, {'f': f, 'kind': 'var'}, kwin=(-6, 6)))
        T.append(Task(local, {'f': f, 'kind': 'derived'}, kwin=(-6, 6)))
        T.append(Task(plain, {'f': f}, kwin=(-6, 6)))
        T.append(Task(nonfinite, {'f': f}))
    for f in ANALYTIC + LOCAL:
        T.append(Task(types, {'f': f}))
    return T
