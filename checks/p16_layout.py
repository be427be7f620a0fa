"""P16: layout (fill, align, sign, zeros, width, thousands) and notations (P, L, S, p, %)."""
from symex.runner import Task
from checks import fmtlib
from checks.p14_faithful import number

BOUNDS = ('nominal value: 0 or any real of magnitude 1e-4..1e6, either sign; sigma: 0 or any real in 1e-4..1e5; also both around 1e-303, 1e-100, 1e99 and 1e305; the listed '
          'combinations of fill, alignment, sign, zero padding, width (1-40, 100, 115), comma, precision, type and options')
ASSUMPTIONS = ['real arithmetic', 'Python\'s own float formatting is taken as correctly rounded (half even)']

SUPER = dict(zip('0123456789-', '⁰¹²³⁴⁵⁶⁷⁸⁹⁻'))


def group(ip):
    n = len(ip)
    if n <= 3:
        return ip
    return group(ip[:n - 3]) + ',' + ip[n - 3:]


def number_text(txt, tail, sign, zero, width, comma):
    """A decimal text with Python's sign, zero padding and thousands rules; tail follows it."""
    sg = {'+': '+', ' ': ' '}.get(sign, '')
    if txt.startswith('-'):
        sg, txt = '-', txt[1:]
    i = txt.find('.')
    ip, rest = (txt, tail) if i < 0 else (txt[:i], txt[i:] + tail)
    show = group if comma else (lambda d: d)
    if zero and width:
        while len(sg) + len(show(ip)) + len(rest) < width:
            ip = '0' + ip
    return sg + show(ip) + rest


def aligned(t, fill, align, width):
    n = width - len(t)
    if n <= 0:
        return t
    left = {'<': 0, '^': n // 2}.get(align, n)
    return fill * left + t + fill * (n - left)


def exp_text(k, opts, upper):
    if k is None:
        return ''
    if 'P' in opts:
        return '×10' + ''.join(SUPER[c] for c in str(k))
    if 'L' in opts:
        return ' \\times 10^{%d}' % k
    return ('E' if upper else 'e') + ('-' if k < 0 else '+') + '%02d' % abs(k)


def short(e, exact):
    """Uncertainty in units of the last digit, or as is when it straddles the decimal point."""
    if exact:
        return '0'
    i = e.find('.')
    if i >= 0 and not (i == 1 and e[0] == '0'):
        return e
    d = e if i < 0 else e[:i] + e[i + 1:]
    while len(d) and d[0] == '0':
        d = d[1:]
    return d if len(d) else '0.' if i < 0 else e


def expected(n, e, k, exact, upper, lay, opts, special=''):
    """The text for the mantissas n and e, exponent k, in the requested layout; special: parts ('n', 'e') that are not finite."""
    fill, align, sign, zero, width, comma = lay
    ex = exp_text(k, opts, upper)
    pct = '' if '%' not in opts else ' \\%' if 'L' in opts else '%'
    pm = '±' if 'P' in opts else ' \\pm ' if 'L' in opts else '+/-'
    lp, rp = ('\\left(', '\\right)') if 'L' in opts else ('(', ')')
    if 'S' in opts:
        end = '(' + (e if special else short(e, exact)) + ')' + ex + pct
        t = number_text(n, '', sign, zero, width - len(end) if width else 0, comma) + end
        return aligned(t, fill, align, width) if width else t
    if not width:
        t = number_text(n, '', sign, False, 0, comma) + pm + number_text(e, '', '', False, 0, comma)
        if k is not None or pct or 'p' in opts:
            t = lp + t + rp
        return t + ex + pct
    a = aligned(number_text(n, '' if 'n' in special else ex, sign, zero, width, comma), fill, align, width)
    b = aligned(number_text(e, '' if exact or 'e' in special else ex, '', zero, width, comma), fill, align, width)
    t = a + pm + b
    return lp + t + rp + pct if pct or 'p' in opts else t


def spec_of(lay, base, opts):
    fill, align, sign, zero, width, comma = lay
    return (('' if fill == ' ' else fill) + align + sign + ('0' if zero else '') + (str(width) if width else '')
            + (',' if comma else '') + base + ('' if '%' in base else '') + opts)


def values(E):
    lo, hi, slo, shi = E.p['win']
    x = number(E, 'x', lo, hi)
    if E.p.get('exact'):
        return x, 0.0
    return x, E.real('s', lo=10.0 ** slo, hi=10.0 ** shi)


def layout(E):
    base, opts = E.p['base'], E.p['opts']
    x, s = values(E)
    u = E.u.ufloat(x, s)
    t0 = E.format(u, base)
    pct = '%' if '%' in base else ''
    try:
        r = fmtlib.read(t0, pct)
    except (fmtlib.Bad, ValueError) as err:
        E.fail('cannot read the plain output: %s' % err)
    upper = base[-1:].isupper()
    exact = bool(E.p.get('exact'))
    plain = expected(r.n, r.e, r.ne, exact, upper, (' ', '', '', False, 0, False), pct)
    E.check(t0 == plain, 'plain output')
    for lay in E.p['lays']:
        t = E.format(u, spec_of(lay, base, opts))
        want = expected(r.n, r.e, r.ne, exact, upper, lay, opts + pct)
        E.check(t == want, 'layout %r' % spec_of(lay, base, opts))
        width = lay[4]
        if width and 'S' in opts:
            E.check(len(t) >= width, 'at least as wide as requested')


def nonfinite(E):
    """The same rules with NaN or infinite parts."""
    base, opts = E.p['base'], E.p['opts']
    nk = E.choice('nk', ['fin', 'nan', 'inf', '-inf'])
    sk = E.choice('sk', ['fin', 'zero', 'nan', 'inf'])
    E.assume(not (nk == 'fin' and sk in ('fin', 'zero')))
    x = number(E, 'x', -2, 5) if nk == 'fin' else float(nk)
    s = E.real('s', lo=0.01, hi=1000) if sk == 'fin' else 0.0 if sk == 'zero' else float(sk)
    u = E.u.ufloat(x, s)
    pct = '%' if '%' in base else ''
    try:
        r = fmtlib.read(E.format(u, base), pct)
    except (fmtlib.Bad, ValueError) as err:
        E.fail('cannot read the plain output: %s' % err)
    special = ('n' if nk != 'fin' else '') + ('e' if sk in ('nan', 'inf') else '')
    e = r.e
    if 'S' in opts and 'n' in special and sk == 'fin':
        # not the same text as without S, but the same in all layouts
        t = E.format(u, base + opts)
        e = t[t.find('(') + 1:t.find(')')]
    for lay in E.p['lays']:
        want = expected(r.n, e, r.ne, sk == 'zero', base[-1:].isupper(), lay, opts + pct, special)
        E.check(E.format(u, spec_of(lay, base, opts)) == want, 'layout %r' % spec_of(lay, base, opts))


def tostring(E):
    """str(), format() and the .format() method agree; % and f-strings too."""
    x, s = values(E)
    u = E.u.ufloat(x, s)
    t = E.format(u, '')
    E.check(E.str(u) == t, 'str() is the default format')
    E.check(u.format('') == t, 'format method')
    E.check(u.format('.2ue') == E.format(u, '.2ue'), 'format method with a specification')
    w = u + 0 if E.flag('derived') else E.u.ufloat(x, s, 'tag')
    E.check(E.str(w) == t, 'tags and history do not show')


D = (' ', '', '', False, 0, False)
PLAIN = [D, (' ', '', '+', False, 0, False), (' ', '', ' ', False, 0, False), (' ', '', '', False, 0, True),
         (' ', '', '-', False, 0, True)]
WIDE = [(' ', '', '', False, 1, False), (' ', '', '', False, 12, False), ('*', '<', '', False, 14, False),
        ('x', '^', '+', False, 15, False), (' ', '>', ' ', False, 11, False), (' ', '', '', True, 12, False),
        (' ', '', '+', True, 13, False), (' ', '', '', False, 16, True), (' ', '', ' ', True, 16, True),
        ('0', '>', '', False, 10, False), ('-', '<', '+', False, 13, True)]

EXTRA = [('e', '>', '', False, 18, False), ('S', '^', '+', False, 17, False), ('5', '<', ' ', False, 16, True), ('±', '>', '', False, 19, False),
         (',', '^', '', False, 13, False), ('.', '<', '-', False, 9, False), ('+', '>', '+', False, 7, False), (' ', '<', '', False, 3, False),
         (' ', '^', '', False, 25, False), ('u', '>', '', False, 40, False), (' ', '', '', True, 7, False), (' ', '', '', True, 20, True),
         (' ', '', ' ', True, 9, False), ('>', '>', '', False, 12, False), ('<', '^', ' ', False, 6, True), ('=', '<', '', False, 8, False),
         ('%', '^', '', False, 11, False), ('*', '^', '', False, 100, False), (' ', '', '+', True, 115, False)]


def order(E):
    """The order (and the repetition) of the options does not matter."""
    x, s = values(E)
    u = E.u.ufloat(x, s)
    base = E.p['base']
    for a, b in E.p['pairs']:
        E.check(E.format(u, base + a) == E.format(u, base + b), 'options %r and %r' % (a, b))


def tasks(tier):
    T = []
    o = dict(log10_window=(-14, 14))
    quick = tier == 'quick'
    i = 0
    for base in ('', '.2uf', '.1ue', '.3g', '.1f', '.2uG', '.2e', '.1%', '%'):
        for opts in ('', 'p', 'P', 'L', 'S', 'SP', 'SL', 'Pp'):
            i += 1
            if quick and opts not in ('', 'S') and i % 3:
                continue
            for j, lays in enumerate((PLAIN, WIDE)):
                if quick and base in ('.2e', '%') and (i + j) % 2:
                    continue
                win = [-2, 4, -2, 2] if quick else [-4, 6, -4, 5]
                T.append(Task(layout, dict(base=base, opts=opts, lays=lays, win=win), weight=2, **o))
            if not quick or i % 2:
                T.append(Task(layout, dict(base=base, opts=opts, lays=PLAIN[1:] + WIDE, exact=1, win=[-2, 4, 0, 0]), **o))
    T.append(Task(layout, dict(base='.2uf', opts='', lays=PLAIN[3:] + WIDE[7:9], win=[3, 7, 2, 5]), **o))
    for a, base in enumerate(('', '.2uf', '.1ue', '.3g', '.1%', '.2E')):
        for j, opts in enumerate(('', 'S', 'p', 'P', 'L', 'SL', 'SPp')):
            if quick and (2 * a + j) % 3:
                continue
            lays = [l for k, l in enumerate(EXTRA) if not quick or (a + j + k) % 2]
            T.append(Task(layout, dict(base=base, opts=opts, lays=lays, win=[-2, 4, -2, 2]), weight=3, **o))
        T.append(Task(order, dict(base=base, win=[-2, 4, -2, 2], pairs=[('LS', 'SL'), ('pP', 'Pp'), ('SPp', 'pPS'), ('SS', 'S'), ('PL', 'LP'), ('LpS', 'SpL')]), **o))
    for a, off in enumerate((-303, -100, 99, 305)):
        for j, (base, opts) in enumerate((('', 'P'), ('.2ue', ''), ('.1e', 'L'), ('.2uG', 'S'), ('.2E', 'p'), ('', 'SL'))):
            if quick and (a + j) % 3:
                continue
            T.append(Task(layout, dict(base=base, opts=opts, lays=[D] + WIDE + EXTRA[:4], win=[off - 2, off + 2, off - 2, off + 2], off=off), log10_window=(-330, 330)))
    for a, off in enumerate((5, 7, 23, 46, 58, 67, -6, -8, -35, -74, -89)):
        for base, opts in (('.1ue', 'P'), ('', 'SP'), ('.1e', 'LS'), ('.2uE', 'p'))[a % 3:][:2]:
            T.append(Task(layout, dict(base=base, opts=opts, lays=[D, WIDE[1], WIDE[5]], win=[off, off + 2, off - 1, off + 1], off=off), log10_window=(-110, 110)))
    for base in ('', '.2uf', '.3g', '.2e', '.1%', '.1E', 'F'):
        for opts in ('', 'p', 'P', 'S', 'SP'):
            i += 1
            if quick and opts and i % 3:
                continue
            lays = [l for l in PLAIN + WIDE if not (l[3] and l[5])]
            T.append(Task(nonfinite, dict(base=base, opts=opts, lays=lays), **o))
    for a, b in ((-3, -1), (0, 1), (2, 3)):
        for c, d in ((-3, 0), (1, 3)):
            T.append(Task(tostring, dict(win=[a, b, c, d]), **o))
    return T
