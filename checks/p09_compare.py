"""P09: comparisons and truth value."""
from symex.runner import Task
import numpy
import operator

BOUNDS = ('all finite real nominal values and sigmas >= 0; operands: variable, linear function of one or two shared variables with '
          'arbitrary coefficients, float, int; NaN operands; histories: comparing before/after another query; other number types (bool, int, NumPy); lists, sets and dictionaries')
ASSUMPTIONS = ['rounding, overflow and underflow of variances are outside the model (real arithmetic)']
OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}


def operand(E, name, kind, x, y):
    """(object, nominal, (dx, dy))"""
    if kind == 'x':
        return x, x.nominal_value, (1.0, 0.0)
    if kind == 'y':
        return y, y.nominal_value, (0.0, 1.0)
    if kind == 'float':
        v = E.real(name)
        return v, v, (0.0, 0.0)
    if kind == 'int':
        v = E.int(name, -3, 3)
        return v, v, (0.0, 0.0)
    a, b, v = E.real(name + 'a'), E.real(name + 'b'), E.real(name + 'v')

    def f(p, q):
        return v
    return E.core.wrap(f, [lambda p, q: a, lambda p, q: b])(x, y), v, (a, b)


def relation(E):
    x = E.u.ufloat(E.real('x'), E.real('sx', nonneg=True))
    y = E.u.ufloat(E.real('y'), E.real('sy', nonneg=True))
    kl, kr = E.p['kinds'].split(',')
    l, ln, ld = operand(E, 'l', kl, x, y)
    r, rn, rd = operand(E, 'r', kr, x, y)
    same = E.AND(ln == rn, E.OR(x.std_dev == 0, ld[0] == rd[0]), E.OR(y.std_dev == 0, ld[1] == rd[1]))
    lt, gt = ln < rn, ln > rn
    exp = {'<': lt, '>': gt, '==': same, '!=': E.NOT(same), '<=': E.OR(lt, same), '>=': E.OR(gt, same)}
    for op in sorted(OPS):
        got = OPS[op](l, r)
        E.check(E.iff(got, exp[op]), '%s between %s and %s' % (op, kl, kr))
    # coherence between the operators, whatever the definition
    lt_, le_, gt_, ge_, eq_, ne_ = [bool(OPS[o](l, r)) for o in ('<', '<=', '>', '>=', '==', '!=')]
    E.check(eq_ != ne_, '== and != are opposites')
    E.check(le_ == (lt_ or eq_) and ge_ == (gt_ or eq_), '<= is < or ==')
    E.check(not (lt_ and gt_) and not (lt_ and eq_), 'exclusive')
    E.check(bool(r < l) == gt_ and bool(r > l) == lt_ and bool(r == l) == eq_ and bool(r >= l) == le_
            and bool(r <= l) == ge_ and bool(r != l) == ne_, 'mirrored operands')
    E.close(E.u.nominal_value(l) * 1.0, ln * 1.0, 'operand untouched')


def truth(E):
    x = E.u.ufloat(E.real('x'), E.real('sx', nonneg=True))
    y = E.u.ufloat(E.real('y'), E.real('sy', nonneg=True))
    l, ln, ld = operand(E, 'l', E.p['kind'], x, y)
    zero = E.AND(ln == 0, E.OR(x.std_dev == 0, ld[0] == 0), E.OR(y.std_dev == 0, ld[1] == 0))
    E.check(E.iff(bool(l), E.NOT(zero)), 'bool(x) is x != 0')


def nan(E):
    x = E.u.ufloat(E.nan, E.real('sx', nonneg=True))
    o = E.choice('o', ['float', 'self', 'var'])
    other = {'float': E.real('f'), 'self': x, 'var': E.u.ufloat(E.real('y'), E.real('sy', nonneg=True))}[o]
    for a, b in ((x, other), (other, x)):
        E.check(not (a == b) and not (a < b) and not (a > b) and not (a <= b) and not (a >= b) and (a != b),
                'NaN is unordered and different from everything')


def nan_sigma(E):
    """An unknown uncertainty is not a null one: never equal to another variable or to a number."""
    x = E.u.ufloat(E.real('x'), E.nan)
    o = E.choice('o', ['float', 'var'])
    other = {'float': E.real('f'), 'var': E.u.ufloat(E.real('y'), E.real('sy', nonneg=True))}[o]
    E.check(not (x == other) and x != other, 'not equal')
    E.check(E.iff(x > other, x.nominal_value > E.u.nominal_value(other)), 'order on nominal values')


def self_equal(E):
    x = E.u.ufloat(E.real('x'), E.real('sx', nonneg=True))
    a, v = E.real('a'), E.real('v')

    def f(p):
        return v
    u = E.core.wrap(f, [lambda p: a])(x)
    for z in (x, u):
        E.check(z == z and z <= z and z >= z and not z != z and not z < z and not z > z, 'reflexive')
    w = E.core.wrap(f, [lambda p: a])(x)
    E.check(w == u and u == w, 'equal functions of the same variable are equal')
    E.check((x + 0) == x and (x * 1.0) == x, 'neutral operations')


def mixed_types(E):
    x = E.u.ufloat(E.real('x'), E.real('sx', nonneg=True))
    o = E.choice('o', ['abc', None, [], object(), 1j, 2 - 1j])
    if E.flag('derived'):
        x = 2 * x + 1
    E.check((x == o) is False, 'never equal to a non-number')
    E.check((x != o) is True, 'always different from a non-number')
    E.check((o == x) is False and (o != x) is True, 'on both sides')
    for op in ('<', '<=', '>', '>='):
        E.raises(TypeError, lambda: OPS[op](x, o), 'ordering with a non-number')


def types(E):
    """Numbers of all types on the other side; comparisons of values without uncertainty."""
    c = E.choice('c', [True, False, 0, 0.0, 10 ** 20, -3, numpy.float64(2.5), numpy.float32(0.5), numpy.int64(-7), numpy.uint8(200), numpy.float64('inf')])
    f = float(c)
    x = E.u.ufloat(E.real('x'), E.real('sx', nonneg=True))
    k, v = E.real('k'), E.real('v')
    lin = E.core.wrap(lambda p: v, [lambda p: k])(x)
    const = E.core.to_affine_scalar(E.real('w'))
    for u, exact in ((x, x.std_dev == 0), (lin, E.OR(k == 0, x.std_dev == 0)), (const, True)):
        n = u.nominal_value
        same = E.AND(n == f, exact)
        exp = {'<': n < f, '>': n > f, '==': same, '!=': E.NOT(same), '<=': E.OR(n < f, same), '>=': E.OR(n > f, same)}
        mirror = {'<': '>', '>': '<', '==': '==', '!=': '!=', '<=': '>=', '>=': '<='}
        for op in sorted(OPS):
            E.check(E.iff(OPS[op](u, c), exp[op]), '%s %r' % (op, c))
            E.check(E.iff(OPS[mirror[op]](c, u), exp[op]), 'mirrored %s %r' % (op, c))


def containers(E):
    """Membership, sorting, extrema."""
    x = E.u.ufloat(E.real('x'), E.real('sx', pos=True))
    y = E.u.ufloat(E.real('y'), E.real('sy', pos=True))
    E.check(x in [y, x] and x not in [y] and [x, y].index(x) == 0 and [y, y, x].count(x) == 1, 'membership')
    E.check((x + y) - y in [y, x], 'membership')
    xs = [x, y, 2 * x, x - y]
    # (ties: in any order)
    s = sorted(xs)
    for a, b in zip(s, s[1:]):
        E.check(a.nominal_value <= b.nominal_value, 'sorted')
    m, w = max(xs), min(xs)
    for a in xs:
        E.check(m.nominal_value >= a.nominal_value and w.nominal_value <= a.nominal_value, 'extrema')
    d = {x: 1, y: 2}
    E.check(d[x] == 1 and d[y] == 2 and len(d) == 2, 'dictionary keys')
    x.std_dev = E.real('new', pos=True)
    E.check(d[x] == 1 and x in d, 'still the same key after a change of sigma')
    E.check(len({x, y, x}) == 2, 'set')


def history(E):
    """A comparison has no effect on later results, and follows sigma changes."""
    x = E.u.ufloat(E.real('x'), E.real('sx', pos=True))
    y = E.u.ufloat(E.real('y'), E.real('sy', pos=True))
    z = x + y - y
    if E.flag('early'):
        z == x, z < y, bool(z)
    E.check(z == x, 'x + y - y is x')
    E.close(E.get_deriv(z, x), 1.0, 'derivative after comparison')
    w = E.core.wrap(lambda p: x.nominal_value, [lambda p: 1.0])(y)
    E.check(w != x, 'equal nominal values, different variables')
    x.std_dev = 0
    y.std_dev = 0
    E.check(w == x, 'both exact now, and equal')


def tasks(tier):
    T = []
    for k in ('x,y', 'x,x', 'x,lin', 'lin,lin', 'x,float', 'x,int', 'lin,float', 'y,lin'):
        T.append(Task(relation, {'kinds': k}))
    T += [Task(truth, {'kind': k}) for k in ('x', 'lin')]
    T += [Task(nan), Task(nan_sigma), Task(self_equal), Task(mixed_types), Task(types), Task(containers), Task(history)]
    return T
