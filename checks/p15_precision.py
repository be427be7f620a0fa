"""P15: number of digits and exponent choice."""
from symex.runner import Task
from checks import fmtlib
from checks.p14_faithful import far_tasks, number, reading, within

BOUNDS = ('nominal value: 0 or any real of magnitude 1e-5..1e5 (1e-9..1e9 thorough), either sign; sigma: any real in 1e-5..1e5 (1e-9..1e8); '
          'for some specifications, both 10**k times numbers in 1e-2..1e2, k in -303, -100, 99, 305; '
          '1-3 and 8-12 significant digits, precisions 0-5 for the float-like formats; options none, S, P, L, p, %; '
          'sigma not within 1e-5 (relative) of the rounding boundaries 355 and 950 of the PDG rule, nor the printed values exactly half way')
ASSUMPTIONS = ['real arithmetic', 'Python\'s own float formatting is taken as correctly rounded (half even)']


def decade(x, lo=-12, hi=12, off=0):
    lo, hi = lo + off, hi + off
    for k in range(lo, hi + 1):
        if x < 10.0 ** (k + 1):
            return k
    return hi


def pdg(E, s):
    """(digits, rounded-up?) by the Particle Data Group rule."""
    k = decade(s, off=E.p.get('off', 0))
    m = s / 10.0 ** (k - 2)
    for b in (355, 950):
        E.assume(E.OR(m <= b * (1 - 1e-5), m >= b * (1 + 1e-5)))
    if m < 355:
        return 2
    if m < 950:
        return 1
    return 2


def off_ties(E, r, n, e, un, ue, x, s):
    """Native runs keep away from exact rounding ties, where binary floats decide."""
    if E.sym:
        return
    for a, b, w in ((n, x, un), (e, s, ue)):
        d = a - b if a >= b else b - a
        E.assume(E.OR(d <= 0.499999 * w, d >= 0.500001 * w))


def setup(E):
    spec, opts = E.p['spec'], E.p['opts']
    lo, hi, slo, shi = E.p['win']
    x = number(E, 'x', lo, hi)
    s = E.real('s', lo=10.0 ** slo, hi=10.0 ** shi)
    return spec, opts, x, s


def sigma_text(E, r):
    """The displayed uncertainty as a decimal text, in the units of the nominal text."""
    return r.e


def digits(E):
    """Significant digits of the uncertainty: N with .Nu, the PDG rule by default."""
    spec, opts, x, s = setup(E)
    N = E.p['N'] or pdg(E, s)
    t = E.format(E.u.ufloat(x, s), spec + opts)
    r = reading(E, t, opts + ('%' if '%' in spec else ''))
    n, e, un, ue = fmtlib.values(E, r)
    off_ties(E, r, n, e, un, ue, x, s)
    p = fmtlib.decimals(r.n)
    cnt = fmtlib.sigdigits(E, r.e)
    fixed = E.p['type'] == 'f'
    if fixed and p == 0:
        E.check(cnt >= N, 'all digits of a large uncertainty in fixed notation')
    else:
        E.check(cnt == N, 'number of significant digits')
    big = x if x >= 0 else -x
    if s > big:
        big = s
    if fixed:
        E.check(r.ne is None, 'fixed notation')
        return
    k = 10.0 ** (r.ne or 0)
    nm, em = n / k, e / k            # mantissas
    mx = nm if nm >= 0 else -nm
    mx = em if em > mx else mx
    if r.ne is not None:
        E.check(E.AND(mx >= 1, mx < 10), 'mantissa of the larger between 1 and 10')
    if E.p['type'] == 'e':
        E.check(r.ne is not None, 'exponent notation')
    elif r.ne is None:
        E.check(mx * (100 if r.pct else 1) >= 0.0001, 'small numbers use an exponent')
    elif r.ne >= -4:
        E.check(e >= 10.0 ** N, 'an exponent is used when the units digit is not significant')


def floatlike(E):
    """.Nf .Ne .Ng without u: the precision applies as for floats."""
    spec, opts, x, s = setup(E)
    P = E.p['N']
    t = E.format(E.u.ufloat(x, s), spec + opts)
    r = reading(E, t, opts + ('%' if '%' in spec else ''))
    n, e, un, ue = fmtlib.values(E, r)
    off_ties(E, r, n, e, un, ue, x, s)
    p = fmtlib.decimals(r.n)
    k = 10.0 ** (r.ne or 0)
    nm = n / k
    em = e / k
    mx = nm if nm >= 0 else -nm
    mx = em if em > mx else mx
    ty = E.p['type']
    if ty == 'f':
        E.check(p == P, 'decimals')
        E.check(r.ne is None, 'fixed notation')
        return
    if ty == 'e':
        E.check(p == P, 'decimals')
        E.check(r.ne is not None, 'exponent notation')
    if r.ne is not None:
        E.check(E.AND(mx >= 1, mx < 10), 'mantissa of the larger between 1 and 10')
        if ty == 'g':
            E.check(p == max(P, 1) - 1, 'significant digits')
            E.check(r.ne < -4 or r.ne >= max(P, 1), 'exponent when needed')
    elif ty == 'g':
        d = decade(mx)
        E.check(d >= -4 and d < max(P, 1), 'no exponent')
        E.check(p == max(P, 1) - 1 - d, 'significant digits')


def errors(E):
    """Zero significant digits, or an unknown specification: ValueError."""
    u = E.u.ufloat(E.real('x'), E.real('s', pos=True))
    bad = E.choice('spec', ['.0u', '.0uf', '.0ueS', '.2n', '.2fX', '.u2', '.2Sf', '10.', '.2uS3', '{<10', '2.2.f', 'abc', '.2ff',
                            '10e5', '5,,', 'fSx', '.2us', '.2fu'])
    E.raises(ValueError, lambda: E.format(u, bad), 'format %r' % bad)


def tasks(tier):
    T = [Task(errors, log10_window=(-3, 3), kwin=(-4, 400))]
    o = dict(log10_window=(-14, 14))
    big, small = ([-5, 5, -5, 5], [-3, 3, -3, 3]) if tier == 'quick' else ([-9, 9, -9, 8], [-5, 5, -5, 5])
    T += far_tasks(digits, tier, [(sp, ty, dict(N=N)) for sp, ty, N in (('', '', 0), ('e', 'e', 0), ('.1u', '', 1), ('.2ue', 'e', 2), ('.3uG', '', 3))],
                   ('', 'P', 'L', 'p'))
    T += far_tasks(floatlike, tier, [(sp, ty, dict(N=N)) for sp, ty, N in (('.1e', 'e', 1), ('.3g', 'g', 3), ('.2', 'g', 2))], ('', 'S'))
    for i, (spec, ty, N) in enumerate((('', '', 0), ('f', 'f', 0), ('e', 'e', 0), ('g', '', 0), ('%', 'f', 0), ('.1u', '', 1), ('.2u', '', 2),
                                       ('.3u', '', 3), ('.1uf', 'f', 1), ('.2uf', 'f', 2), ('.1ue', 'e', 1), ('.2uE', 'e', 2), ('.2uG', '', 2),
                                       ('.1u%', 'f', 1))):
        w = big if spec in ('', '.1u', 'f', '.2uf') else small
        T.append(Task(digits, dict(spec=spec, opts='', type=ty, N=N, win=w), weight=3, **o))
        for j, opts in enumerate(('P', 'L', 'p', 'SP')):
            if tier == 'quick' and (i + j) % 4:
                continue
            if 'S' in opts:
                continue
            T.append(Task(digits, dict(spec=spec, opts=opts, type=ty, N=N, win=small), weight=2, **o))
    for i, (spec, ty, N) in enumerate((('.0f', 'f', 0), ('.1f', 'f', 1), ('.4f', 'f', 4), ('.0e', 'e', 0), ('.1e', 'e', 1), ('.3E', 'e', 3),
                                       ('.1g', 'g', 1), ('.0g', 'g', 0), ('.3g', 'g', 3), ('.5G', 'g', 5), ('.2', 'g', 2), ('.4', 'g', 4),
                                       ('.1%', 'f', 1))):
        for j, opts in enumerate(('', 'S', 'L', 'P')):
            if tier == 'quick' and opts and (i + j) % 3:
                continue
            if 'S' in opts and ty == 'g' and tier == 'quick' and i % 2:
                continue
            T.append(Task(floatlike, dict(spec=spec, opts=opts, type=ty, N=N, win=small), weight=2, **o))
    for spec, ty, N in (('.9u', '', 9), ('.8ue', 'e', 8), ('.10uf', 'f', 10), ('.12u', '', 12), ('.4u', '', 4), ('.5uE', 'e', 5), ('.6uf', 'f', 6), ('.7u%', 'f', 7)):
        T.append(Task(digits, dict(spec=spec, opts='', type=ty, N=N, win=[-2, 2, -2, 2] if N == 9 else [0, 1, -1, 1]), weight=2, **o))
    if tier == 'thorough':
        for spec, ty, N in (('.4u', '', 4), ('.5ue', 'e', 5), ('.6uf', 'f', 6)):
            T.append(Task(digits, dict(spec=spec, opts='', type=ty, N=N, win=big), weight=5, **o))
    return T
