"""P01: exact first-order propagation through any composition and any history."""
from symex.runner import Task

BOUNDS = ('expression DAGs: 2-3 independent variables, up to 3 (quick) / 4 (thorough) interior nodes with '
          'arbitrary real partial derivatives and every sharing pattern, every subset of interior nodes '
          'queried before use; + - * / chains of 3 operations on arbitrary reals; functions of functions (two steps, umath, wrapped and operators) in sums and products; sums of up to 400 terms')
ASSUMPTIONS = ['floating-point rounding, overflow and underflow are outside the model (real arithmetic)']


def node(E, name, value, coefs, kw=False):
    """A primitive with arbitrary local partial derivatives `coefs`."""
    ders = [(lambda *a, c=c, **k: c) for c in coefs]

    def f(*args):
        return value
    f.__name__ = name
    return E.core.wrap(f, ders)


def dag(E):
    """p: nvars, nodes"""
    nv, nn = E.p['nvars'], E.p['nodes']
    vs = [E.u.ufloat(E.real('x%d' % i), E.real('s%d' % i, pos=True)) for i in range(nv)]
    items = list(vs)
    rows = [[1.0 if i == j else 0.0 for j in range(nv)] for i in range(nv)]
    reach = [{i} for i in range(nv)]
    for k in range(nn):
        n = len(items)
        if k == nn - 1:
            # the last node always uses the previous one
            pairs = [(n - 1, j) for j in range(n)]
        else:
            pairs = [(i, j) for i in range(n) for j in range(i + 1)]
        if 'first' in E.p and k == 0:
            pairs = [pairs[E.p['first']]]
        i, j = E.choice('args%d' % k, pairs)
        c = [E.real('c%d_%d' % (k, m)) for m in range(2)]
        val = E.real('f%d' % k)
        r = node(E, 'f%d' % k, val, c)(items[i], items[j])
        E.close(r.nominal_value, val, 'nominal value of node')
        items.append(r)
        rows.append([c[0] * rows[i][m] + c[1] * rows[j][m] for m in range(nv)])
        reach.append(reach[i] | reach[j])
        if E.flag('peek%d' % k):
            verify(E, r, rows[-1], vs, 'early query')
    order = E.choice('order', [0, 1])
    idx = list(range(nv, len(items)))
    for q in (idx if order == 0 else idx[::-1]):
        verify(E, items[q], rows[q], vs, 'node %d' % (q - nv))
        E.check(all((vs[m] in items[q].derivatives) == (m in reach[q]) for m in range(nv)), 'the variables that the expression depends on are listed')
    # a second look gives the same answer, and the variables are untouched
    verify(E, items[-1], rows[-1], vs, 'second query')
    for q in range(nv):
        verify(E, items[q], rows[q], vs, 'variable')


def verify(E, r, row, vs, what):
    d = r.derivatives
    for m, v in enumerate(vs):
        E.close(E.get_deriv(r, v), row[m], '%s: derivative wrt variable %d' % (what, m))
    for k in d:
        E.check(any(k is v for v in vs), what + ': derivative with respect to a foreign variable')


def chain(E):
    """Straight-line program of 3 elementary operations over 2 variables and a constant."""
    x = E.u.ufloat(E.real('x', nonzero=True), E.real('sx', pos=True))
    y = E.u.ufloat(E.real('y', nonzero=True), E.real('sy', pos=True))
    c = E.real('c', nonzero=True)
    vals = [(x, x.nominal_value, (1.0, 0.0)), (y, y.nominal_value, (0.0, 1.0)), (c, c, (0.0, 0.0))]
    regs = list(vals)
    for k in range(E.p['n']):
        op = E.choice('op%d' % k, ['+', '-', '*', '/']) if k else E.p['op0']
        n = len(regs)
        last = n - 1 if k else E.choice('a', [0, 1])
        other = E.choice('b%d' % k, list(range(n)))
        if E.flag('swap%d' % k):
            l, r = regs[other], regs[last]
        else:
            l, r = regs[last], regs[other]
        (lu, ln, ld), (ru, rn, rd) = l, r
        if op == '+':
            u, v, d = lu + ru, ln + rn, [a + b for a, b in zip(ld, rd)]
        elif op == '-':
            u, v, d = lu - ru, ln - rn, [a - b for a, b in zip(ld, rd)]
        elif op == '*':
            u, v, d = lu * ru, ln * rn, [a * rn + b * ln for a, b in zip(ld, rd)]
        else:
            E.assume(E.NOT(rn == 0))
            u, v = lu / ru, ln / rn
            d = [a / rn - b * ln / (rn * rn) for a, b in zip(ld, rd)]
        regs.append((u, v, d))
    u, v, d = regs[-1]
    if not isinstance(u, E.u.UFloat):
        E.close(u, v, 'constant result')
        E.check(all(not isinstance(q, E.u.UFloat) for q in (u,)), '')
        return
    E.close(u.nominal_value, v, 'nominal value is that of the float computation')
    E.close(E.get_deriv(u, x), d[0], 'derivative wrt x')
    E.close(E.get_deriv(u, y), d[1], 'derivative wrt y')


def many(E):
    """Accumulations of n variables: every variable contributes once, with its coefficient."""
    n = E.p['n']
    vs = [E.u.ufloat(E.real('x%d' % i), E.real('s%d' % i, pos=n > 5, nonneg=n <= 5))
          for i in range(n)]
    cs = [E.real('c%d' % i) for i in range(n)]
    acc = 0
    exp = [0.0] * n
    for rep in range(E.p.get('reps', 1)):
        for i in range(n):
            acc = acc + cs[i] * vs[i]
            exp[i] = exp[i] + cs[i]
            if E.p.get('peek') and i % E.p['peek'] == 0:
                acc.derivatives
    for i in range(n):
        E.close(E.get_deriv(acc, vs[i]), exp[i], 'coefficient of variable %d' % i)
    # everything cancels against itself
    z = acc - acc
    E.close(z.std_dev, 0.0, 'x - x has no uncertainty')
    E.close(z.nominal_value, 0.0, 'x - x is zero')


def deep(E):
    """Very long dependency chains: no recursion limit, no lost term."""
    x = E.u.ufloat(E.real('x'), E.real('s', pos=True))
    c = E.real('c')
    y = x
    n = E.p['n']
    for i in range(n):
        y = y + c if i % 2 else c + y
        if E.p.get('dbl') and i % (n // 5 + 1) == 0:
            y = y + y
    k = 1
    for i in range(n):
        if E.p.get('dbl') and i % (n // 5 + 1) == 0:
            k *= 2
    E.close(E.get_deriv(y, x), float(k), 'derivative through a chain of %d operations' % n)


def distinct(E):
    """Equal-looking variables are independent; aliases are the same variable."""
    v, s = E.real('v'), E.real('s', pos=True)
    tag = E.choice('tag', [None, 't'])
    a, b = E.u.ufloat(v, s, tag), E.u.ufloat(v, s, tag)
    alias = a
    d1, d2 = a - b, a - alias
    E.close(E.get_deriv(d1, a), 1.0, 'a in a-b')
    E.close(E.get_deriv(d1, b), -1.0, 'b in a-b')
    E.close(d2.std_dev, 0.0, 'a-a')
    E.close(d1.std_dev * d1.std_dev, 2 * s * s, 'independent variables add in quadrature')
    E.check(len({a, b, alias}) == 2, 'two variables are two dictionary keys')


def lookup(E):
    """Looking for unrelated variables leaves the list of variables as it is."""
    x, y, z = [E.u.ufloat(E.real(n), E.real('s' + n, nonneg=True)) for n in 'xyz']
    k = E.real('k')
    u = E.choice('u', [lambda: x, lambda: k * x, lambda: x * 2 + 1.0, lambda: x - k * y, lambda: -x + x * y, lambda: E.core.wrap(lambda a: k)(x),
                       lambda: E.core.to_affine_scalar(k), lambda: sum([x, y] * 5)])()
    before = list(u.derivatives)
    E.check(z not in u.derivatives and u.derivatives.get(z, 0) == 0, 'unrelated variable')
    E.raises(KeyError, lambda: u.derivatives[z], 'derivative with respect to an unrelated variable')
    u.error_components()
    E.u.covariance_matrix([u, z, y])
    after = list(u.derivatives)
    E.check(len(before) == len(after) and all(a is b for a, b in zip(before, after)), 'same list of variables')
    E.check(z not in (u + x).derivatives and z in (u + z).derivatives and z not in u.derivatives, 'same list of variables')


UNARY = ['sin', 'exp', 'atan', 'sinh', 'neg', 'square', 'inverse', 'wrap', 'abs', 'dup']


def apply(E, f, u, n):
    """(result, value, local derivative)"""
    m = E.m
    if f in ('sin', 'exp', 'atan', 'sinh'):
        d = {'sin': m.cos, 'exp': m.exp, 'sinh': m.cosh, 'atan': lambda t: 1 / (1 + t * t)}[f](n)
        return getattr(E.umath, f)(u), getattr(m, f)(n), d
    if f == 'neg':
        return -u, -n, -1.0
    if f == 'square':
        return u ** 2, n * n, 2 * n
    if f == 'inverse':
        E.assume(E.NOT(n == 0))
        if E.p.get('all'):
            E.assume(n * n > 0.01)
        return 1 / u, 1 / n, -1 / (n * n)
    if f == 'abs':
        E.assume(E.NOT(n == 0))
        return abs(u), abs(n), 1.0 if n > 0 else -1.0
    if f == 'dup':
        return u + u, n + n, 2.0
    v, k = E.real('w%d' % E.p['i']), E.real('k%d' % E.p['i'])
    E.p['i'] += 1
    return E.core.wrap(lambda t: v, [lambda t: k])(u), v, k


def mixed(E):
    """Functions of functions, combined with sums and products of shared variables."""
    E.p['i'] = 0
    # small enough for exp(cosh(x) * y) to be a float
    x, y = [E.u.ufloat(E.real(n, lo=-2, hi=2), E.real('s' + n, pos=True)) for n in 'xy']
    a, na, da = apply(E, E.p['f'], x, x.nominal_value)
    if E.flag('peek'):
        a.derivatives
    how = E.choice('how', ['plain', 'plus', 'times'])
    d = [da, 0.0]
    if how == 'plus':
        b, nb, d = a + y, na + y.nominal_value, [da, 1.0]
    elif how == 'times':
        b, nb, d = y * a, na * y.nominal_value, [da * y.nominal_value, na]
    else:
        b, nb = a, na
    c, nc, dc = apply(E, E.choice('g', UNARY if E.p['all'] else ['wrap', 'square', 'neg', 'dup']), b, nb)
    r = x + c
    E.close(r.nominal_value, x.nominal_value + nc, 'value')
    E.close(E.get_deriv(r, x), 1.0 + dc * d[0], 'derivative wrt x')
    E.close(E.get_deriv(r, y), dc * d[1], 'derivative wrt y')
    E.close(E.get_deriv(a, x), da, 'derivative of the first step')
    E.close(E.get_deriv(c, x), dc * d[0], 'derivative of the last step')
    E.check((y in r.derivatives) == (how != 'plain') and x in r.derivatives, 'variables')


def tasks(tier):
    T = []
    big = tier == 'thorough'
    for f in range(3):
        T.append(Task(dag, {'nvars': 2, 'nodes': 3, 'first': f}, witnesses=150, weight=5))
    T.append(Task(dag, {'nvars': 3, 'nodes': 2}, witnesses=100))
    if big:
        for f in range(3):
            T.append(Task(dag, {'nvars': 2, 'nodes': 4, 'first': f}, witnesses=300, weight=9))
        for f in range(6):
            T.append(Task(dag, {'nvars': 3, 'nodes': 3, 'first': f}, witnesses=300, weight=9))
    for op in '+-*/':
        T.append(Task(chain, {'n': 2, 'op0': op}, witnesses=100, weight=3))
        if big:
            T.append(Task(chain, {'n': 3, 'op0': op}, witnesses=300, weight=8))
    T += [Task(many, {'n': n, 'reps': r, 'peek': p})
          for n, r, p in [(1, 3, 1), (5, 2, 2), (40, 1, 0), (150, 1, 7), (400, 1, 0)]]
    T += [Task(deep, {'n': n, 'dbl': d}) for n, d in [(3000, 0), (1200, 1)]]
    T += [Task(mixed, {'f': f, 'all': True}, weight=3) for f in UNARY]
    T += [Task(distinct), Task(lookup)]
    return T
