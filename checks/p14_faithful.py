"""P14: formatted numbers are numerically faithful."""
from symex.runner import Task
from checks import fmtlib

BOUNDS = ('nominal value: 0 or any real of magnitude 1e-5..1e5 (1e-9..1e9 thorough), either sign; sigma: 0, NaN, infinity, or '
          'any real in 1e-5..1e5 (1e-9..1e8); for some specifications both 10**k times numbers in 1e-2..1e2, k in -303, -100, 99, 305; '
          'the listed format specifications (all types, with and without precision, u, and options P L S p %), '
          'also non-finite nominal values; at most 18 digits displayed')
ASSUMPTIONS = ['real arithmetic: the displayed value is compared with a tolerance of 0.51 units of the last digit',
               'Python\'s own float formatting is taken as correctly rounded (half even)']


def within(E, a, b, tol):
    return E.AND(a - b <= tol, b - a <= tol)


def number(E, name, lo, hi, signed=True):
    """A real with 10^lo <= |x| < 10^hi, or 0."""
    x = E.real(name, lo=-10.0 ** hi if signed else 0, hi=10.0 ** hi)
    E.assume(E.OR(x == 0, x >= 10.0 ** lo, x <= -10.0 ** lo))
    return x


def reading(E, t, opts):
    E.check(E.isstr(t), 'formatting gives a string')
    try:
        return fmtlib.read(t, opts)
    except (fmtlib.Bad, ValueError, KeyError) as x:
        E.fail('cannot read the output: %s' % x)


def faithful(E):
    spec, opts = E.p['spec'], E.p['opts']
    lo, hi, slo, shi = E.p['win']
    x = number(E, 'x', lo, hi)
    s = E.real('s', lo=10.0 ** slo, hi=10.0 ** shi)
    u = E.u.ufloat(x, s)
    t = E.format(u, spec + opts)
    r = reading(E, t, opts + ('%' if '%' in spec else ''))
    n, e, un, ue = fmtlib.values(E, r)
    E.check(un == ue or r.short and fmtlib.point(r.e), 'nominal value and uncertainty have the same precision')
    E.check(r.ne == r.ee, 'common exponent')
    E.check(within(E, n, x, 0.51 * un), 'nominal value')
    ok = within(E, e, s, 0.51 * ue)
    if '.' not in spec and fmtlib.decimals(r.n) == 0:
        # PDG rounding of 950...999 to 1000, two digits of which are significant
        ok = E.OR(ok, E.AND(e >= 99.99 * ue, e >= s, e - s <= 0.0501 * e))
    E.check(ok, 'uncertainty')
    E.check(E.format(u, spec + opts) == t, 'formatting is repeatable')
    if E.p.get('type') == 'f':
        E.check(r.ne is None, 'no exponent')
    if 'E' in spec or 'G' in spec:
        if not ('P' in opts or 'L' in opts):
            E.check(t.find('e') < 0, 'upper case')


def zero_sigma(E):
    """Exactly zero uncertainty: printed as the integer 0; the nominal value follows the float format."""
    spec, opts = E.p['spec'], E.p['opts']
    lo, hi = E.p['win']
    x = number(E, 'x', lo, hi)
    t = E.format(E.u.ufloat(x, 0), spec + opts)
    r = reading(E, t, opts + ('%' if '%' in spec else ''))
    E.check(r.e == '0', 'zero uncertainty')
    k = 10.0 ** ((r.ne or 0) - (2 if r.pct else 0))
    n = fmtlib.text_value(E, r.n)
    ty = E.p['type']
    P = E.p['prec']
    ax = x if x >= 0 else -x
    if ty == 'f':
        E.check(fmtlib.decimals(r.n) == P, 'decimals')
        E.check(within(E, n * k, x, 0.51 * k * 10.0 ** -P), 'nominal value')
        E.check(r.ne is None, 'no exponent')
    elif ty == 'e':
        E.check(fmtlib.decimals(r.n) == P, 'decimals')
        E.check(within(E, n * k, x, 0.51 * k * 10.0 ** -P), 'nominal value')
        E.check(r.ne is not None, 'exponent')
        if x == 0:
            E.check(n == 0, 'zero')
        else:
            E.check(E.OR(E.AND(n >= 1, n < 10), E.AND(n <= -1, n > -10)), 'mantissa between 1 and 10')
    else:
        # P significant digits, without trailing zeros
        E.check(within(E, n * k, x, 0.51 * ax * 10.0 ** (1 - P)), 'nominal value')
        nd = fmtlib.sigdigits(E, r.n.lstrip('-'))
        E.check(nd <= P or ty == '' and nd <= P + 1, 'significant digits')
        if ty == 'g' and fmtlib.point(r.n):
            E.check(E.NOT(r.n.endswith('0')), 'no trailing zero')


def nonfinite(E):
    """NaN and infinite parts."""
    spec, opts = E.p['spec'], E.p['opts']
    nk = E.choice('nk', ['fin', 'nan', 'inf', '-inf'])
    sk = E.choice('sk', ['fin', 'nan', 'inf'])
    E.assume(not (nk == 'fin' and sk == 'fin'))
    x = number(E, 'x', -4, 5) if nk == 'fin' else float(nk)
    s = E.real('s', lo=10.0 ** -4, hi=10.0 ** 4) if sk == 'fin' else float(sk)
    t = E.format(E.u.ufloat(x, s), spec + opts)
    up = spec[-1:].isupper()
    if 'L' in opts:
        names = {'nan': '\\mathrm{NAN}' if up else '\\mathrm{nan}', 'inf': '\\infty', '-inf': '-\\infty'}
    else:
        names = {k: k.upper() if up else k for k in ('nan', 'inf', '-inf')}
    r = reading(E, t, opts + ('%' if '%' in spec else ''))
    if nk != 'fin':
        E.check(r.n == names[nk], 'nominal value text')
    else:
        k = 10.0 ** ((r.ne or 0) - (2 if r.pct else 0))
        n = fmtlib.text_value(E, r.n)
        P = E.p['prec']
        ax = x if x >= 0 else -x
        if E.p['type'] in ('f', 'e'):
            E.check(within(E, n * k, x, 0.51 * k * 10.0 ** -P), 'nominal value')
        else:
            E.check(within(E, n * k, x, 0.51 * ax * 10.0 ** (1 - P)), 'nominal value')
    if sk != 'fin':
        E.check(r.e == names[sk], 'uncertainty text')
        if r.ee is not None:
            E.check(r.factored or r.short, 'no exponent on a special uncertainty')
    else:
        # (a nominal value that is not finite has no last digit: the uncertainty stands for itself)
        ke = 10.0 ** ((r.ee or 0) - (2 if r.pct else 0))
        e = fmtlib.text_value(E, r.e)
        # relative to what was asked: at least one significant digit, or P decimals
        P = E.p['prec']
        if E.p['type'] in ('f', 'e'):
            E.check(within(E, e * ke, s, 0.51 * ke * 10.0 ** -P), 'uncertainty')
        else:
            E.check(within(E, e * ke, s, 0.51 * s * 10.0 ** (1 - P)), 'uncertainty')


W = [-5, 5, -5, 5]
W2 = [-3, 3, -3, 3]


FAR = (-303, -100, 99, 305)


def far_tasks(harness, tier, specs, opts):
    """Very small and very large numbers (not for fixed notation, which shows hundreds of digits)."""
    T = []
    w = 2 if tier == 'quick' else 4
    for i, (spec, ty, extra) in enumerate(specs):
        for j, op in enumerate(opts):
            for k, off in enumerate(FAR):
                if tier == 'quick' and (i + 2 * j + k) % 4:
                    continue
                T.append(Task(harness, dict(spec=spec, opts=op, type=ty, win=[off - w, off + w, off - w, off + w], off=off, **extra),
                              log10_window=(-330, 330)))
    return T


def tasks(tier):
    T = []
    o = dict(log10_window=(-14, 14))
    T += far_tasks(faithful, tier, [('', '', {}), ('e', 'e', {}), ('.1u', '', {}), ('.3ue', 'e', {}), ('.2e', 'e', {}), ('.3G', 'g', {})],
                   ('', 'S', 'P', 'L'))
    for i, (spec, ty) in enumerate((('.2e', 'e'), ('.3G', 'g'), ('.2', ''), ('e', 'e'))):
        for j, (a, b) in enumerate(((0, -100), (0, -300), (100, 0), (-140, 150), (100, -190), (-200, 0))):
            if tier == 'quick' and (i + j) % 3:
                continue
            T.append(Task(faithful, dict(spec=spec, opts='S' if i % 2 else '', type=ty, win=[a - 2, a + 2, b - 2, b + 2], off=a, off2=b),
                          log10_window=(-330, 330)))
    if tier == 'quick':
        big, small = W, W2
    else:
        big, small = [-9, 9, -9, 8], W
    for spec, ty in (('', ''), ('f', 'f'), ('e', 'e'), ('.2u', ''), ('.2uf', 'f'), ('.2f', 'f'), ('.3e', 'e'), ('g', 'g')):
        T.append(Task(faithful, dict(spec=spec, opts='', type=ty, win=big), weight=3, **o))
    for spec, ty in (('.1u', ''), ('.3ue', 'e'), ('.4g', 'g'), ('.1uE', 'e'), ('.0f', 'f')):
        T.append(Task(faithful, dict(spec=spec, opts='', type=ty, win=small), weight=3, **o))
    OPTS = ('S', 'P', 'L', 'p', 'SL', 'SP', 'pP')
    for i, (spec, ty) in enumerate((('', ''), ('.1uf', 'f'), ('.2e', 'e'), ('.2u%', 'f'), ('%', 'f'), ('.1f', 'f'), ('.0f', 'f'),
                                    ('.5G', 'g'), ('.3u', ''))):
        for j, opts in enumerate(OPTS):
            if tier == 'quick' and opts != 'S' and (i + j) % 3:
                continue
            T.append(Task(faithful, dict(spec=spec, opts=opts, type=ty, win=small), weight=2, **o))
    for i, (spec, ty, P) in enumerate((('f', 'f', 6), ('.2f', 'f', 2), ('.3e', 'e', 3), ('.4g', 'g', 4), ('.1g', 'g', 1), ('g', 'g', 6),
                                       ('.2u', 'g', 2), ('.3uf', 'f', 3), ('.3', 'g', 3), ('.2%', 'f', 2), ('.0f', 'f', 0),
                                       ('.2uG', 'g', 2))):
        for j, opts in enumerate(('', 'S', 'L', 'P', 'p', 'SL', 'SP')):
            if tier == 'quick' and (i + j) % 4:
                continue
            T.append(Task(zero_sigma, dict(spec=spec, opts=opts, type=ty, prec=P, win=[-5, 6] if tier == 'quick' else [-9, 9]), **o))
    for i, (spec, ty, P) in enumerate((('.2f', 'f', 2), ('.3e', 'e', 3), ('.3g', 'g', 3), ('.2G', 'g', 2), ('.3', 'g', 3), ('.1E', 'e', 1),
                                       ('.2%', 'f', 2), ('.2u', 'g', 2))):
        for j, opts in enumerate(('', 'S', 'L', 'P', 'p', 'SL', 'SP')):
            if tier == 'quick' and (i + j) % 3:
                continue
            T.append(Task(nonfinite, dict(spec=spec, opts=opts, type=ty, prec=P), **o))
    return T
