"""P19: texts made by the package are read back into the same number."""
from symex.runner import Task
from checks import fmtlib
from checks.p14_faithful import far_tasks, number, within

BOUNDS = ('nominal value: 0 or any real of magnitude 1e-4..1e5 (1e-8..1e8 thorough), either sign; sigma: any real in 1e-4..1e4 (1e-8..1e7), 0, '
          'both 10**k times numbers in 1e-2..1e2, k in -303, -100, 99, 305 (some specifications), '
          'NaN or infinity; non-finite nominal values; the listed specifications; for repr: numbers with at most 4 significant digits of magnitude 1e-9..1e19, and the pairs of 17 listed numbers that need up to 17 digits')
ASSUMPTIONS = ['real arithmetic: the value that is read is compared with a tolerance of 0.51 units of the last digit',
               'repr() and float() of a float are inverses of each other']


def both(E, t, x, s, opts):
    """The text t of x+/-s is read as what it displays."""
    v = E.u.ufloat_fromstr(t)
    r = fmtlib.read(t.strip(), opts)
    if isinstance(x, float) and (x != x or x in (E.inf, -E.inf)):
        E.check(v.nominal_value != v.nominal_value if x != x else v.nominal_value == x, 'nominal value')
    else:
        k = 10.0 ** (r.ne or 0)
        n = fmtlib.text_value(E, r.n)
        E.close(v.nominal_value, n * k, 'nominal value', scale=1e-30 * 10.0 ** E.p.get('off', 0))
        if not E.p.get('loose'):
            E.check(within(E, v.nominal_value, x, 0.51 * k * 10.0 ** -fmtlib.decimals(r.n)), 'nominal value, to the last digit')
    if isinstance(s, float) and (s != s or s == E.inf):
        E.check(v.std_dev != v.std_dev if s != s else v.std_dev == s, 'uncertainty')
    elif isinstance(s, float) and s == 0:
        E.check(v.std_dev == 0, 'zero uncertainty')
    else:
        k = 10.0 ** (r.ee or 0)
        p = fmtlib.decimals(r.e)
        if r.short and not fmtlib.point(r.e):
            p = fmtlib.decimals(r.n)
            e = fmtlib.text_value(E, r.e) * 10.0 ** -p
        else:
            e = fmtlib.text_value(E, r.e)
        E.close(v.std_dev, e * k, 'uncertainty', scale=1e-30 * 10.0 ** E.p.get('off', 0))
        tol = 0.51 * k * 10.0 ** -p
        if '.' not in E.p['spec']:
            tol = tol + s * 0.051      # (PDG rounding of 950...999)
        if not E.p.get('loose'):
            E.check(within(E, v.std_dev, s, tol), 'uncertainty, to the last digit')


def finite(E):
    spec, opts = E.p['spec'], E.p['opts']
    lo, hi, slo, shi = E.p['win']
    x = number(E, 'x', lo, hi)
    s = 0.0 if E.p.get('exact') else E.real('s', lo=10.0 ** slo, hi=10.0 ** shi)
    t = E.format(E.u.ufloat(x, s), spec + opts)
    both(E, t, x, s, opts)


def nonfinite(E):
    spec, opts = E.p['spec'], E.p['opts']
    nk = E.choice('nk', ['fin', 'nan', 'inf', '-inf'])
    sk = E.choice('sk', ['fin', 'zero', 'nan', 'inf'])
    E.assume(not (nk == 'fin' and sk in ('fin', 'zero')))
    x = number(E, 'x', -3, 4) if nk == 'fin' else float(nk)
    s = E.real('s', lo=0.01, hi=1000) if sk == 'fin' else 0.0 if sk == 'zero' else float(sk)
    both(E, E.format(E.u.ufloat(x, s), spec + opts), x, s, opts)


def short_decimal(E, name, zero=False):
    """m * 10**k with an integer m of at most D digits (not a multiple of 10)."""
    k = E.choice(name + 'k', E.p[name + 'exps'])
    n = E.choice(name + 'n', list(range(0 if zero else 1, E.p['digits'] + 1)))
    if n == 0:
        return 0.0
    m = E.int(name + 'r', 1, 9)         # last significant digit
    if n > 1:
        m = E.int(name + 'q', 10 ** (n - 2), 10 ** (n - 1) - 1) * 10 + m
    return m * 10.0 ** k


def representation(E):
    """repr() is read back exactly; the tag is shown around it."""
    x = short_decimal(E, 'x', True)
    if E.flag('neg'):
        x = -x
    sk = E.choice('sk', ['fin', 'zero', 'nan', 'inf'])
    s = short_decimal(E, 's') if sk == 'fin' else 0.0 if sk == 'zero' else float(sk)
    u = E.u.ufloat(x, s)
    t = E.repr(u)
    v = E.u.ufloat_fromstr(t)
    E.close(v.nominal_value, x, 'nominal value', scale=1e-30)
    if sk == 'nan':
        E.check(v.std_dev != v.std_dev, 'uncertainty')
    elif sk == 'fin':
        E.close(v.std_dev, s, 'uncertainty', scale=1e-30)
    else:
        E.check(v.std_dev == s, 'uncertainty')
    if sk == 'zero':
        E.check(t.endswith('+/-0'), 'exactly zero')
    E.check(E.repr(E.u.ufloat(x, s, 'name')) == E.join('< name = ', t, ' >'), 'tagged variable')
    if sk == 'fin':
        E.check(E.repr(u * 1) == t, 'derived quantity')


LONG = [0.1 + 0.2, 1 / 3.0, 2 / 3e10, 12345678.901234567, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 123456789012345680.0, 9007199254740993.0,
        1e22, 1e23, 9.999999999999999e22, 0.00010000000000000002, 4.35, 1e16, 123456.7, 1e-5]


def exact_repr(E):
    """All the digits of repr() survive."""
    x = LONG[E.choice('x', list(range(len(LONG))))]
    s = LONG[E.choice('s', list(range(len(LONG))))]
    if E.flag('neg'):
        x = -x
    t = E.repr(E.u.ufloat(x, s))
    v = E.u.ufloat_fromstr(t)
    E.check(v.nominal_value == x, 'nominal value, exactly')
    E.check(v.std_dev == s, 'uncertainty, exactly')
    E.check(E.repr(E.u.ufloat(x, s, 'name')) == E.join('< name = ', t, ' >'), 'tagged variable')


def nonfinite_repr(E):
    x = float(E.choice('x', ['nan', 'inf', '-inf']))
    s = [float('nan'), float('inf'), 0.0, 0.25, 3e-20, 4e25][E.choice('s', [0, 1, 2, 3, 4, 5])]
    v = E.u.ufloat_fromstr(E.repr(E.u.ufloat(x, s)))
    E.check(v.nominal_value != v.nominal_value if x != x else v.nominal_value == x, 'nominal value')
    E.check(v.std_dev != v.std_dev if s != s else v.std_dev == s, 'uncertainty')


def tasks(tier):
    T = []
    quick = tier == 'quick'
    o = dict(log10_window=(-14, 14))
    win = [-4, 5, -4, 4] if quick else [-8, 8, -8, 7]
    i = 0
    for spec in ('', '.2uf', '.1ue', '.2f', '.3e', '.3uE', 'g', '.4G', '12.2u', '+.2uf', ' .2ue', '012.1uf', '<15', '<18.2ue', '^20.2e', '.0f'):
        for opts in ('', 'S', 'P', 'p', 'SP', 'Sp', 'Pp'):
            i += 1
            if quick and opts not in ('', 'S') and i % 4:
                continue
            wide = any(c in spec for c in '<^12') and spec[0] != '.'
            T.append(Task(finite, dict(spec=spec, opts=opts, win=win if not wide or not quick else [-2, 3, -2, 3]), weight=2, **o))
            if i % 3 == 0 or not quick:
                T.append(Task(finite, dict(spec=spec, opts=opts, exact=1, loose=1, win=win), **o))
            if (i % 3 == 1 or not quick) and '012' not in spec:
                T.append(Task(nonfinite, dict(spec=spec, opts=opts, loose=1), **o))
    T += far_tasks(finite, tier, [(sp, '', {}) for sp in ('', '.1ue', '.3e', '.2', '.3u', 'G')], ('', 'S', 'P', 'SP'))
    for exps in ([-9, -6, -5], [-4, -3, -1], [0, 2, 5], [11, 12, 15]):
        for k in exps:
            T.append(Task(representation, dict(xexps=[k], sexps=exps, digits=2 if quick else 3), weight=9, **o))
    T += [Task(nonfinite_repr), Task(exact_repr)]
    return T
