"""P23: obsolete forms give what the current ones give, with a warning."""
import warnings
from symex.runner import Task

BOUNDS = 'all real nominal values and sigmas (sigmas also NaN and infinite, negative: rejected); arrays of up to 2x2 elements'
ASSUMPTIONS = ['the place in the code that warnings point to is not checked']


class Warned:
    """Number of obsolescence warnings."""

    def __enter__(self):
        self.cm = warnings.catch_warnings(record=True)
        self.log = self.cm.__enter__()
        warnings.simplefilter('always')
        return self

    def __exit__(self, *a):
        return self.cm.__exit__(*a)

    @property
    def n(self):
        return sum('bsolete' in str(w.message) for w in self.log)


def scalar(E):
    v, s = E.real('v', nan=True, inf=True), E.real('s', nan=True, inf=True)
    form = E.choice('form', ['tuple', 'tuple+tag', 'tuple+tag=', 'new', 'keywords', 'tag', 'Variable'])
    u = E.u.ufloat
    t = E.choice('T', ['T', '', 0]) if form not in ('tuple', 'new', 'keywords') else 'T'
    tag = None if form in ('tuple', 'new', 'keywords') else t
    call = {'tuple': lambda: u((v, s)), 'tuple+tag': lambda: u((v, s), t), 'tuple+tag=': lambda: u((v, s), tag=t), 'new': lambda: u(v, s),
            'keywords': lambda: u(nominal_value=v, std_dev=s), 'tag': lambda: u(v, s, t), 'Variable': lambda: E.core.Variable(v, s, tag=t)}[form]
    with Warned() as w:
        if s < 0:
            E.raises(E.core.NegativeStdDev, call, 'negative sigma')
            return
        x = call()
    E.check((w.n > 0) == form.startswith('tuple'), 'warning for obsolete forms only')
    E.check(isinstance(x, E.core.Variable), 'variable')
    E.close(x.nominal_value, v, 'nominal value')
    E.close(x.std_dev, s, 'sigma')
    E.check(x.tag == tag, 'tag')
    E.check(len(x.derivatives) == 1 and x.derivatives[x] == 1, 'independent variable')
    with Warned() as w:
        y = call()
    E.check((w.n > 0) == form.startswith('tuple'), 'warning for obsolete forms only, each time')
    E.check(not (x == y) or s == 0, 'each call gives another variable')


def string(E):
    """ufloat('...') is ufloat_fromstr('...')."""
    text = E.choice('text', ['1.25(3)', ' -1.25+/-0.5 ', '(3+/-0.1)e10', '4', 'nan+/-1', '2.5(1.)e-3', u'3.1±0.2', 'x', '1,2(3)', ''])
    how = E.choice('how', ['pos', 'kw', 'none'])
    t = E.choice('T', ['T', ''] + [0] * (how == 'kw')) if how != 'none' else None
    u = E.u.ufloat
    call = {'pos': lambda: u(text, t), 'kw': lambda: u(text, tag=t), 'none': lambda: u(text)}[how]
    with Warned() as w:
        try:
            new = E.u.ufloat_fromstr(text, t)
        except ValueError:
            E.raises(ValueError, call, 'invalid text')
            return
        E.check(w.n == 0, 'no warning for the current form')
        for times in (1, 2):
            x = call()
            E.check(w.n == times, 'warning each time')
    E.close(x.nominal_value, new.nominal_value, 'nominal value')
    E.close(x.std_dev, new.std_dev, 'sigma')
    E.check(x.tag == t, 'tag')
    E.check(isinstance(x, E.core.Variable), 'variable')


def called_std_dev(E):
    """x.std_dev() is x.std_dev, for variables and derived quantities."""
    x = E.u.ufloat(E.real('x'), E.real('s', nonneg=True))
    k = E.real('k')
    y = E.choice('o', ['x', 'y'])
    y = x if y == 'x' else E.core.wrap(lambda a: 1.0, [lambda a: k])(x)
    with Warned() as w:
        plain = y.std_dev
        E.check(w.n == 0, 'no warning for attributes')
        for times in (1, 2):
            r = y.std_dev()
            E.check(w.n == times, 'warning each time')
    E.close(r, plain, 'called std_dev')
    E.close(r * r, x.std_dev * x.std_dev * (1.0 if y is x else k * k), 'called std_dev')


def setter(E):
    x = E.u.ufloat(E.real('x'), E.real('s', nonneg=True))
    y = 3 * x
    if E.flag('before'):
        y.std_dev
    new = E.real('new', nan=True)
    old = x.std_dev
    with Warned() as w:
        if new < 0:
            E.raises(E.core.NegativeStdDev, lambda: x.set_std_dev(new), 'negative')
            E.close(x.std_dev, old, 'unchanged')
            return
        for times in (1, 2):
            x.set_std_dev(new)
            E.check(w.n == times, 'warning each time')
    E.close(x.std_dev, new, 'new sigma')
    E.close(y.std_dev, 3 * new, 'derived quantity')


def arrays(E):
    m, n = E.p['shape']
    xs = [[E.real('x%d%d' % (i, j)) for j in range(n)] for i in range(m)]
    ss = [[E.real('s%d%d' % (i, j), lo=-1) for j in range(n)] for i in range(m)]
    name = E.choice('fn', ['uarray', 'umatrix'])
    f = getattr(E.unumpy, name)
    old = E.flag('old')
    A = E.array if E.flag('arrays') else lambda v: v
    bad = E.OR(*[t < 0 for r in ss for t in r])
    with Warned() as w:
        call = (lambda: f((A(xs), A(ss)))) if old else (lambda: f(A(xs), A(ss)))
        if bad:
            E.raises(E.core.NegativeStdDev, call, 'negative sigma')
            return
        call()
        E.check((w.n > 0) == old, 'warning for obsolete forms only')
        once = w.n
        a = call()
        E.check(w.n == 2 * once, 'warning for obsolete forms only')
    E.check(a.shape == (m, n), 'shape')
    E.check(isinstance(a, E.unumpy.matrix) == (name == 'umatrix'), 'type')
    for i in range(m):
        for j in range(n):
            E.check(isinstance(a[i, j], E.core.Variable), 'variable')
            E.close(a[i, j].nominal_value, xs[i][j], 'nominal value')
            E.close(a[i, j].std_dev, ss[i][j], 'sigma')
    if name == 'umatrix':
        with Warned() as w:
            S = a.std_devs
            E.check(w.n == 0, 'no warning for attributes')
            S()
            once = w.n
            R = S()
            E.check(once > 0 and w.n == 2 * once, 'warning each time')
        for i in range(m):
            for j in range(n):
                E.close(S[i, j], ss[i][j], 'std_devs')
                E.close(R[i, j], ss[i][j], 'called std_devs')


def tasks(tier):
    T = [Task(scalar), Task(string), Task(called_std_dev), Task(setter)]
    for s in ((1, 1), (1, 2), (2, 1)) + (() if tier == 'quick' else ((2, 2), (1, 3))):
        T.append(Task(arrays, dict(shape=s)))
    return T
