"""P17: documented notations are parsed into the values that they denote."""
from symex.runner import Task

BOUNDS = ('all texts of the listed shapes: 1-4 (quick) / 6 arbitrary digits in the nominal value and 1-3 / 5 in the uncertainty, either '
          'sign (also 16-31 digits, some lengths), any position of the decimal point, exponents of one or two arbitrary digits and the listed larger ones, '
          'spaces around the parts')
ASSUMPTIONS = ['float(text) is the correctly rounded value of the decimal text']

D = '0123456789'
SUP = '⁰¹²³⁴⁵⁶⁷⁸⁹'
PM = ('+/-', '±')


def intval(E, *segs):
    """Integer value of the concatenated digit segments, as a number."""
    v = 0
    for s in segs:
        for c in s:
            v = v * 10 + E.toint(c)
    return v


def decimal(E, name, shape):
    """(text, value times 10**places, places); shape like 'd.dd'; other characters are literal."""
    if shape.lower() in ('nan', 'inf'):
        return shape, float(shape), 0
    i = shape.find('.')
    ip = shape if i < 0 else shape[:i]
    fp = '' if i < 0 else shape[i + 1:]
    a = E.text(name + 'i', [D] * len(ip)) if ip else ''
    b = E.text(name + 'f', [D] * len(fp)) if fp else ''
    t = a if i < 0 else E.join(a, '.', b)
    return t, intval(E, a, b), len(fp)


def expo(E, form):
    """(text, exponent)"""
    if not form:
        return '', 0
    kind, sg, k = form
    if kind == 'x':             # pretty-print; k digits
        d = E.text('exp', [SUP if E.p.get('all') else SUP[:3]] * k) if isinstance(k, int) else ''.join(SUP[int(c)] for c in k)
        s = {'': '', '-': '⁻', '+': '⁺'}[sg]
        lit = '×10' if not E.p.get('spaced') else ' × 10'
    else:
        d = E.text('exp', ['012' if E.p.get('smallexp') else D] * k) if isinstance(k, int) else k
        s, lit = sg, kind
    v = 0
    for c in d:
        v = v * 10 + (E.toint(c) if isinstance(k, int) and kind != 'x' else SUP.index(c if isinstance(c, str) else c.concretize())
                      if kind == 'x' else int(c))
    if isinstance(k, int) and E.sym and not isinstance(v, int):
        v = v.__index__()
    return E.join(lit, s, d), -v if sg == '-' else v


def parse(E, t):
    if E.p.get('pad'):
        t = E.join('  ', t, ' ')
    u = E.u.ufloat_fromstr(t, 'name')
    E.check(u.tag == 'name', 'tag')
    E.check(isinstance(u, E.core.Variable), 'a new variable')
    return u


def value(E, v, places, k, neg=False):
    if isinstance(v, float):
        return -v if neg else v
    r = v * 10.0 ** (k - places)
    return -r if neg else r


def same(E, got, want, what):
    if isinstance(want, float) and (want != want or want in (E.inf, -E.inf)):
        E.check(got != got if want != want else got == want, what)
    else:
        E.close(got, want, what, scale=1e-280)


def short(E):
    """-1.23(4)e5: uncertainty on the last digits, or absolute with a decimal point; none: 1 on the last digit."""
    sg = E.choice('sign', ['', '-', '+'])
    n, nv, np_ = decimal(E, 'n', E.p['n'])
    ex, k = expo(E, E.p.get('exp'))
    if E.p['u'] is None:
        t = E.join(sg, n, ex)
        uv, up = 1, np_
    else:
        us, uv, up = decimal(E, 'u', E.p['u'])
        t = E.join(sg, n, '(', us, ')', ex)
        if '.' not in E.p['u']:
            up = np_            # on the last digits
    if E.p.get('whole'):
        t = E.join('(', t, ')')
    u = parse(E, t)
    same(E, u.nominal_value, value(E, nv, np_, k, sg == '-'), 'nominal value')
    same(E, u.std_dev, value(E, uv, up, k), 'uncertainty')


def plusminus(E):
    """n+/-u, each with its own exponent, possibly factored or in parentheses."""
    sg = E.choice('sign', ['', '-', '+'])
    pm = PM[E.choice('pm', [0, 1])]
    sp = E.choice('sp', ['', ' ']) if E.p.get('sp') else ''
    n, nv, np_ = decimal(E, 'n', E.p['n'])
    us, uv, up = decimal(E, 'u', E.p['u'])
    where = E.p.get('where')
    ex, k = expo(E, E.p.get('exp'))
    kn = ku = 0
    if where == 'n':
        n, kn = E.join(n, ex), k
    elif where == 'u':
        us, ku = E.join(us, ex), k
    elif where == 'both':
        n, us, kn, ku = E.join(n, ex), E.join(us, ex), k, k
    t = E.join(sg, n, sp, pm, sp, us)
    if where == 'factored':
        t = E.join('(', t, ')', ' ' if sp and E.p['exp'][0] == 'x' else '', ex)
        kn = ku = k
    elif where == 'double':
        # the exponent is factored, and the uncertainty has its own too
        t = E.join('(', t, 'e-4)', ex)
        kn, ku = k, k - 4
    elif where == 'paren':
        t = E.join('(', t, ')')
    u = parse(E, t)
    same(E, u.nominal_value, value(E, nv, np_, kn, sg == '-'), 'nominal value')
    same(E, u.std_dev, value(E, uv, up, ku), 'uncertainty')


def independent(E):
    """Two readings of the same text are independent; other entry points give the same."""
    t = E.join(E.text('a', [D]), '.', E.text('b', [D]), '(', E.text('c', [D]), ')')
    u, v = E.u.ufloat_fromstr(t), E.u.ufloat_fromstr(t)
    E.check(u is not v and u.tag is None, 'new variable')
    E.close(E.u.covariance_matrix([u, v])[0][1], 0.0, 'independent')
    w = E.u.ufloat(t)
    E.close(w.nominal_value, u.nominal_value, 'ufloat(text)')
    E.close(w.std_dev, u.std_dev, 'ufloat(text)')
    w = E.u.ufloat(t, 'tag')
    E.check(w.tag == 'tag', 'ufloat(text, tag)')
    w = E.u.ufloat((u.nominal_value, u.std_dev))
    E.close(w.std_dev, u.std_dev, 'ufloat((n, s))')


def tasks(tier):
    T = []
    quick = tier == 'quick'
    N = ['d', 'dd', 'd.', 'd.d', 'd.dd', '.dd', 'ddd.d', 'dddd'] + ([] if quick else ['dd.dddd', 'dddddd', '.ddddd'])
    U = [None, 'd', 'dd', 'd.d', '.d', 'd.', 'ddd', 'nan', 'NAN', 'inf', 'INF'] + ([] if quick else ['ddddd', 'dd.ddd'])
    EX = [None, ('e', '', 1), ('E', '-', 1), ('e', '+', 2), ('x', '', 1), ('x', '-', 1), ('e', '-', '12'), ('x', '-', '12'),
          ('e', '', '200'), ('e', '-', '200'), ('x', '+', 1)]
    i = 0
    for n in N:
        for u in U:
            i += 1
            T.append(Task(short, dict(n=n, u=u)))
            if not quick or i % 2:
                T.append(Task(short, dict(n=n, u=u, whole=1, exp=EX[i // 2 % 3], smallexp=quick, pad=i % 3 == 0)))
            for j, ex in enumerate(EX[1:]):
                if quick and (i + j) % 5:
                    continue
                T.append(Task(short, dict(n=n, u=u, exp=ex, smallexp=quick, spaced=(i + j) % 2, pad=i % 2)))
    for n in ('nan', 'NAN', 'inf', 'INF'):
        for u in ('d.d', 'nan', 'inf'):
            T.append(Task(short, dict(n=n, u=u)))
            T.append(Task(plusminus, dict(n=n, u=u, sp=1)))
    for n in N:
        for u in ('d', 'd.dd', '.d', 'd.', 'nan', 'inf'):
            i += 1
            T.append(Task(plusminus, dict(n=n, u=u, sp=1, pad=i % 2)))
            for j, (ex, w) in enumerate((e, w) for e in EX[1:] for w in ('n', 'u', 'both', 'factored', 'double', 'paren')):
                if w == 'paren' and ex is not EX[1] or w == 'double' and (ex[0] == 'x' or u in ('nan', 'inf')):
                    continue
                if u in ('nan', 'inf') and w in ('u', 'both'):
                    continue
                if quick and (i * 7 + j) % 11:
                    continue
                if w == 'paren':
                    ex = None
                T.append(Task(plusminus, dict(n=n, u=u, exp=ex, where=w, sp=(i + j) % 2, smallexp=quick, pad=j % 2,
                                              spaced=(i + j) % 3 == 0)))
    # Many digits
    for j, (n, u) in enumerate((('d' * 16, 'd'), ('d.' + 'd' * 17, 'dd'), ('d' * 12 + '.' + 'd' * 12, 'd' * 14), ('.' + 'd' * 21, 'd' * 3), ('d' * 26, 'd' * 20),
                                ('d.' + 'd' * 15, 'd.' + 'd' * 15), ('d' * 9 + '.', '.' + 'd' * 18), ('d.' + 'd' * 30, None), ('d' * 22, None), ('d.dd', 'd' * 18))):
        T.append(Task(short, dict(n=n, u=u)))
        T.append(Task(short, dict(n=n, u=u, exp=EX[1 + j % 9], smallexp=quick, whole=j % 2, pad=j % 3 == 0)))
        T.append(Task(plusminus, dict(n=n, u=u or 'd' * 17, sp=1)))
        T.append(Task(plusminus, dict(n=n, u=u or 'd.d', exp=EX[1 + j % 9], where=('n', 'u', 'both', 'factored')[j % 4], sp=j % 2, smallexp=quick)))
    # All superscript digits
    for sg in ('', '-', '+'):
        T.append(Task(short, dict(n='d.d', u='d', exp=('x', sg, 1), all=1)))
        T.append(Task(plusminus, dict(n='d.d', u='d', exp=('x', sg, 1), where='factored', sp=1, all=1)))
        T.append(Task(plusminus, dict(n='d', u='d', exp=('x', sg, 1), where='both', sp=0, all=1)))
    T.append(Task(independent))
    return T
