"""P03: arithmetic operators: values, derivatives, exceptions, operand types."""
from symex.runner import Task

BOUNDS = ('all finite real operands (UFloat variable or derived, float, int in [-3,3]) on either side; '
          '// and %: quotient in [-4,4]; a UFloat operand may be the same variable on both sides; infinite and NaN nominal values for + - * / and unary operators; '
          'constants: also bool, integers beyond 2**53 and 1e300, NumPy scalars and 0-d arrays, on both sides')
ASSUMPTIONS = ['floating-point rounding and signed zeros are outside the model (real arithmetic); overflow and underflow are modelled in the `extreme` tasks only (magnitudes up to 1e308, no subnormal intermediate results)']

import decimal
import numpy
import operator
BIN = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'truediv': operator.truediv,
       'floordiv': operator.floordiv, 'mod': operator.mod}
IBIN = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul, 'truediv': operator.itruediv,
        'floordiv': operator.ifloordiv, 'mod': operator.imod}


def operand(E, name, kind):
    """(object given to the operator, plain value, (variable, derivative) list)"""
    if kind == 'float':
        v = E.real(name)
        return v, v, []
    if kind == 'int':
        v = E.int(name, -3, 3)
        return v, v, []
    x = E.u.ufloat(E.real(name), E.real('s' + name, pos=True))
    if kind == 'var':
        return x, x.nominal_value, [(x, 1.0)]
    k = E.real('k' + name)
    value = E.real('f' + name)

    def f(a):
        return value
    u = E.core.wrap(f, [lambda a: k])(x)
    return u, value, [(x, k)]


def attempt(fn, *a):
    try:
        return fn(*a), None
    except ArithmeticError as e:
        return None, type(e)


def binary(E):
    op = E.p['op']
    kinds = E.p['kinds'].split(',')
    inplace = E.p.get('inplace', 0)
    l, lv, ld = operand(E, 'a', kinds[0])
    if kinds[1] == 'same':
        r, rv, rd = l, lv, ld
    else:
        r, rv, rd = operand(E, 'b', kinds[1])
    if op in ('floordiv', 'mod'):
        E.assume(E.OR(rv == 0, E.AND(rv > 0, lv <= 4 * rv, lv >= -4 * rv), E.AND(rv < 0, lv >= 4 * rv, lv <= -4 * rv)))
    fl = lv if kinds[0] != 'int' else lv * 1.0
    exp, exc = attempt(BIN[op], fl, rv)
    got, gexc = attempt((IBIN if inplace else BIN)[op], l, r)
    E.check((exc is None) == (gexc is None), '%s raises exactly when the float operation does' % op)
    if exc is not None:
        E.check(gexc is exc, 'same exception type')
        return
    E.check(isinstance(got, E.u.UFloat), 'result is a number with uncertainty')
    E.close(got.nominal_value, exp, '%s: nominal value' % op)
    a, b = lv, rv
    if op in ('add', 'sub', 'mul', 'truediv'):
        d = {'add': lambda: (1.0, 1.0), 'sub': lambda: (1.0, -1.0), 'mul': lambda: (b, a),
             'truediv': lambda: (1.0 / b, -(exp / b))}[op]()
        tol = 1e-6
    elif op == 'floordiv':
        d, tol = (0.0, 0.0), 1e-6
    else:
        # away from the jumps; the slope in b comes from finite differences
        q = fl // rv
        f = exp / rv
        E.assume(E.AND(f > 0.001, f < 0.999))
        E.assume(E.AND(rv < 1000, rv > -1000, E.OR(rv > 0.001, rv < -0.001)))
        d, tol = (1.0, -q), 1e-5
    tot = {}
    for (v, c) in ld:
        tot[v] = tot.get(v, 0.0) + d[0] * c
    for (v, c) in rd:
        tot[v] = tot.get(v, 0.0) + d[1] * c
    for v, c in tot.items():
        E.close(E.get_deriv(got, v), c, '%s: derivative' % op, rel=tol)
    E.check(all(any(w is v for v in tot) for w in got.derivatives), 'no foreign variable')
    # operands are left alone
    for u, val, ds in ((l, lv, ld), (r, rv, rd)):
        if ds:
            E.close(u.nominal_value, val, 'operand nominal value unchanged')
            E.close(E.get_deriv(u, ds[0][0]), ds[0][1], 'operand derivative unchanged')


def extreme(E):
    """Very large and very small operands (with the overflow and underflow of floats)."""
    op = E.p['op']
    a, b = E.p['off'], E.p['off2']
    x = E.u.ufloat(E.real('x', lo=10.0 ** a, hi=9 * 10.0 ** a), 1.0)
    y = E.real('y', lo=10.0 ** b, hi=9 * 10.0 ** b)
    if E.flag('neg'):
        y = -y
    yv = y
    if E.p['un']:
        y = E.u.ufloat(y, 1.0)
    if E.p['rev']:
        l, r, lv, rv = y, x, yv, x.nominal_value
    else:
        l, r, lv, rv = x, y, x.nominal_value, yv
    want, exc = attempt(BIN[op], lv, rv)
    got, gexc = attempt(BIN[op], l, r)
    E.check(exc is gexc, 'raises what the operation on floats does')
    if exc is not None:
        return
    E.check(isinstance(got, E.u.UFloat), 'result is a number with uncertainty')
    n = got.nominal_value
    if E.isfinite(n) and E.isfinite(want):
        E.near(n, E.exact(BIN[op], lv, rv), 'nominal value')
    else:
        E.check(not (E.isfinite(n) or E.isfinite(want)) and n == want, 'infinite nominal value')
    d = {'add': lambda l, r: (1, 1), 'sub': lambda l, r: (1, -1), 'mul': lambda l, r: (r, l),
         'truediv': lambda l, r: (1 / r, -l / r / r)}[op]
    dl, dr = E.exact(d, lv, rv)
    for v, t in ((l, dl), (r, dr)):
        if isinstance(v, E.u.UFloat):
            E.near(E.get_deriv(got, v), t, 'derivative')


def unary(E):
    import math
    op = E.p['op']
    u, v, ds = operand(E, 'a', E.p['kind'])
    if op == 'neg':
        r, e, d = -u, -v, -1.0
    elif op == 'pos':
        r, e, d = +u, v, 1.0
    elif op == 'abs':
        r = abs(u)
        if v >= 0:
            e, d = v, 1.0
        else:
            e, d = -v, -1.0
    else:
        E.assume(E.AND(v > -4, v < 4))
        r = u.__trunc__()
        e, d = E.m.trunc(v), 0.0
    E.close(r.nominal_value, e, op + ': nominal value')
    for (x, c) in ds:
        E.close(E.get_deriv(r, x), d * c, op + ': derivative')
    E.close(u.nominal_value, v, 'operand unchanged')


def nonfinite(E):
    """Infinite and NaN nominal values: values of Python, derivatives of the operation."""
    vals = [E.inf, -E.inf, E.nan]
    a = E.choice('a', vals)
    x = E.u.ufloat(a, E.real('sa', pos=True))
    op = E.choice('op', ['neg', 'pos', 'abs', 'add', 'sub', 'mul', 'truediv'])
    if op in ('neg', 'pos', 'abs'):
        f = getattr(operator, op)
        r = f(x)
        E.close(r.nominal_value, f(a), op + ': nominal value')
        if a == a:
            E.close(E.get_deriv(r, x), {'neg': -1.0, 'pos': 1.0, 'abs': 1.0 if a > 0 else -1.0}[op], op + ': derivative')
        return
    kind = E.choice('kind', ['var', 'float', 'inf'])
    b = E.choice('b', vals) if kind == 'inf' else E.real('b', nonzero=True)
    y = E.u.ufloat(b, 1) if kind == 'var' else b
    for l, r, lv, rv in ((x, y, a, b), (y, x, b, a)):
        want, got = BIN[op](lv, rv), BIN[op](l, r)
        E.close(got.nominal_value, want, op + ': nominal value')
        d = {'add': lambda: (1.0, 1.0), 'sub': lambda: (1.0, -1.0), 'mul': lambda: (rv, lv),
             'truediv': lambda: (1 / rv, -lv / rv / rv)}[op]()
        for v, e in zip((l, r), d):
            if isinstance(v, E.u.UFloat):
                E.close(E.get_deriv(got, v), e, op + ': derivative')


CONSTS = [True, False, 10 ** 20, -10 ** 20, 10 ** 16, 0, 0.0, 1, 1.0, -1, 2,
          numpy.float64(2.5), numpy.float64(0), numpy.float32(0.1), numpy.int64(-3), numpy.int64(4 * 10 ** 18), numpy.uint8(200), numpy.int8(-100)]


def constants(E):
    """Constants of every type of real number, on both sides."""
    op = E.p['op']
    c = E.choice('c', CONSTS)
    fc = float(c)
    x, xv, _ = operand(E, 'a', 'var')
    u, uv, ud = operand(E, 'b', 'derived') if op not in ('floordiv', 'mod') else (x, xv, [(x, 1.0)])
    left = E.flag('left')
    if op in ('floordiv', 'mod'):
        m = max(abs(fc), 1)
        if left:
            E.assume(E.OR(xv == 0, xv >= m / 4, xv <= -m / 4))
        else:
            E.assume(E.AND(xv <= 4 * m, xv >= -4 * m))
    for o, ov, od in ((x, xv, [(x, 1.0)]), (u, uv, ud)):
        l, r, lv, rv = (c, o, fc, ov) if left else (o, c, ov, fc)
        exp, exc = attempt(BIN[op], lv, rv)
        got, gexc = attempt(BIN[op], l, r)
        E.check(exc is gexc, '%s raises exactly when the float operation does' % op)
        if exc is not None:
            continue
        E.check(isinstance(got, E.u.UFloat), 'result is a number with uncertainty')
        E.close(got.nominal_value, exp, '%s: nominal value' % op)
        if op == 'floordiv':
            d = 0.0
        elif op == 'mod':
            f = exp / rv
            if not E.AND(f > 0.001, f < 0.999):
                continue
            d = -(lv // rv) if left else 1.0
        else:
            d = {'add': lambda: 1.0, 'sub': lambda: -1.0 if left else 1.0, 'mul': lambda: fc,
                 'truediv': lambda: -fc / ov / ov if left else 1 / fc}[op]()
        E.close(E.get_deriv(got, od[0][0]), d * od[0][1], '%s: derivative' % op, rel=1e-5)
        E.check(len(got.derivatives) <= 1 and all(w is od[0][0] for w in got.derivatives), 'no foreign variable')


def foreign(E):
    """Operands that are not numbers give TypeError, never a number."""
    u, v, ds = operand(E, 'a', 'var')
    o = E.choice('o', [None, 'abc', [1.0], {}, (1,), object(), 1j, decimal.Decimal('0.5')])
    op = E.choice('op', sorted(BIN) + ['pow'])
    f = BIN.get(op, operator.pow)
    if E.flag('left'):
        if op == 'mod' and isinstance(o, str):
            return
        E.raises(TypeError, lambda: f(o, u), 'foreign left operand')
    else:
        E.raises(TypeError, lambda: f(u, o), 'foreign right operand')


class Other:
    """A class that handles numbers with uncertainties itself."""


def _other(name, reflected):
    def f(self, o):
        return (name, reflected, o)
    return f


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
    setattr(Other, '__%s__' % _n, _other(_n, False))
    setattr(Other, '__r%s__' % _n, _other(_n, True))


def reflected(E):
    """Other classes get a chance to handle the operation."""
    u, v, ds = operand(E, 'a', E.choice('k', ['var', 'derived']))
    op = E.choice('op', sorted(BIN) + ['pow'])
    o = Other()
    f = BIN.get(op, operator.pow)
    for left in (0, 1):
        r = f(o, u) if left else f(u, o)
        E.check(isinstance(r, tuple) and r[0] == op and r[1] == (not left) and r[2] is u, 'operation of the other class')


def algebra(E):
    """Identities that need exact correlations."""
    x, xv, _ = operand(E, 'a', 'var')
    y, yv, _ = operand(E, 'b', 'derived')
    k = E.real('k', nonzero=True)
    ids = [
        (lambda: (x + y) - y, lambda: x), (lambda: (x + y) - x, lambda: y),
        (lambda: x - y, lambda: -(y - x)), (lambda: x * k / k, lambda: x),
        (lambda: (x + y) * (x - y), lambda: x * x - y * y),
        (lambda: (x + y) * k, lambda: x * k + k * y),
        (lambda: x + x, lambda: 2 * x), (lambda: x - x, lambda: 0 * x),
        (lambda: x * x, lambda: x ** 2), (lambda: (x * y) * x, lambda: x * (y * x)),
    ]
    a, b = E.choice('id', ids)
    a, b = a(), b()
    E.close(a.nominal_value, b.nominal_value, 'identity: value')
    E.close((a - b).std_dev, 0.0, 'identity: same random variable')
    E.check(a == b, 'identity: equal')


def tasks(tier):
    T = []
    KK = ['var,var', 'derived,derived', 'var,float', 'float,var', 'var,int', 'int,var', 'var,same']
    for op in BIN:
        for k in KK:
            o = {}
            if op in ('mod', 'floordiv'):
                o = dict(kwin=(-5, 5), weight=4)
            T.append(Task(binary, {'op': op, 'kinds': k}, **o))
        T.append(Task(binary, {'op': op, 'kinds': 'var,derived', 'inplace': 1},
                      **(dict(kwin=(-5, 5)) if op in ('mod', 'floordiv') else {})))
    for op in ('neg', 'pos', 'abs', 'trunc'):
        for k in ('var', 'derived'):
            T.append(Task(unary, {'op': op, 'kind': k}, kwin=(-6, 6)))
    for op in BIN:
        T.append(Task(constants, {'op': op}, weight=3, **(dict(kwin=(-6, 6)) if op in ('mod', 'floordiv') else {})))
    T += [Task(foreign), Task(nonfinite), Task(reflected), Task(algebra)]
    for op in ('add', 'sub', 'mul', 'truediv'):
        for i, (a, b) in enumerate(((0, 200), (0, -200), (200, 200), (-200, -200), (200, -200), (-200, 200), (300, 0), (-300, 0), (155, 155),
                                    (-163, -163))):
            for rev in (0, 1):
                un = (i + rev) % 2
                T.append(Task(extreme, {'op': op, 'off': a, 'off2': b, 'rev': rev, 'un': un}, ieee=True))
                if tier != 'quick':
                    T.append(Task(extreme, {'op': op, 'off': a, 'off2': b, 'rev': rev, 'un': 1 - un}, ieee=True))
    return T
