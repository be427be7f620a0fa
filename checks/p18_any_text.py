"""P18: any text is read as its notation says, or rejected: nothing in between."""
from symex.runner import Task
from symex.engine import PathAbort

BOUNDS = ('all texts of 0-3 (quick) / 0-5 (thorough) arbitrary characters of the alphabet 0 1 9 . + - ( ) e E / ± × ⁻ ⁺ ² n a i f space newline x, '
          'and all texts obtained by putting 1-4 such characters at any of the marked places of the listed templates')
ASSUMPTIONS = ['float() and int() of a text are those of Python (modelled, and re-run natively on a witness of every path)']

A = '019.+-()eE/±×⁻⁺²naif \nx'
NUM = '019.+-e '
SUP = '⁰¹²³⁴⁵⁶⁷⁸⁹'


class Reject(Exception):
    pass


class Unspecified(Exception):
    pass


def power(E, s):
    """Integer after an exponent marker."""
    sup = False
    s = s.strip()
    neg = False
    if not len(s):
        raise Reject('empty exponent')
    out = []
    for i, c in enumerate(s):
        if i == 0 and (c == '+' or c == '-' or c == '⁺' or c == '⁻'):
            neg = c == '-' or c == '⁻'
            continue
        for k, ch in enumerate('0123456789' + SUP):
            if c == ch:
                out.append(k % 10)
                break
        else:
            raise Reject('exponent')
    if not out:
        raise Reject('exponent')
    k = 0
    for d in out:
        k = 10 * k + d
    if neg:
        k = -k
    if k > 308:
        raise Reject('exponent out of range')
    return 10.0 ** k


def times(s):
    """Position of the pretty-print exponent marker, and of its end (-1: none)."""
    i = s.find('×')
    if i < 0:
        return -1, -1
    j = i + 1
    while j < len(s) and s[j].isspace():
        j += 1
    if s[j:j + 2] != '10':
        return -1, -1
    while i > 0 and s[i - 1].isspace():
        i -= 1
    return i, j + 2


def number(E, s):
    try:
        return E.float(s)
    except ValueError:
        pass
    i, j = times(s)
    if i < 0:
        raise Reject('not a number')
    try:
        v = E.float(s[:i])
    except ValueError:
        raise Reject('mantissa')
    return v * power(E, s[j:])


def unsigned(E, s):
    """(value, number of decimals or None without a decimal point) of a plain unsigned decimal."""
    for w in ('nan', 'NAN', 'inf', 'INF'):
        if s == w:
            return float(w), None
    digits = 0
    for i, c in enumerate(s):
        if c == '.':
            continue
        if not ('0' <= c and c <= '9'):
            raise Reject('decimal')
        digits += 1
    if not digits or s.count('.') > 1:
        raise Reject('decimal')
    i = s.find('.')
    return E.float(s), (None if i < 0 else len(s) - 1 - i)


def shorthand(E, s):
    neg = False
    if s.startswith('+') or s.startswith('-'):
        neg = s[0] == '-'
        s = s[1:]
    # Exponent
    f = 1.0
    i, j = times(s)
    if i < 0:
        i = s.find('e')
        if i < 0:
            i = s.find('E')
        j = i + 1
    if i >= 0:
        s, ex = s[:i], s[j:]
        f = power(E, ex)
    u, unit = 1.0, True
    if s.endswith(')'):
        i = s.find('(')
        if i < 0:
            raise Reject('parenthesis')
        u, dec = unsigned(E, s[i + 1:-1])
        unit = dec is None and u == u and u != E.inf
        s = s[:i]
    v, dec = unsigned(E, s)
    if unit:
        u = u * 10.0 ** -(dec or 0)
    return (-v if neg else v) * f, u * f


def reference(E, s):
    """(nominal value, sigma) that the text denotes; Reject if it denotes nothing."""
    s = s.strip()
    if s.startswith('(') and s.endswith(')'):
        s = s[1:-1]
        if s.strip() != s:
            raise Unspecified
    f = 1.0
    if s.startswith('('):
        i = s.rfind(')')
        if i < 0:
            raise Reject('unbalanced')
        rest = s[i + 1:]
        s = s[1:i]
        j, k = times(rest)
        if j == 0:
            f = power(E, rest[k:])
        elif rest.startswith('e') or rest.startswith('E'):
            f = power(E, rest[1:])
        else:
            raise Reject('text after )')
    for sym in ('+/-', '±'):
        i = s.find(sym)
        if i >= 0:
            return number(E, s[:i]) * f, number(E, s[i + len(sym):]) * f
    if s.strip() != s:
        raise Unspecified
    n, u = shorthand(E, s)
    return n * f, u * f


def agree(E, got, want, what):
    if isinstance(want, float) and (want != want or want in (E.inf, -E.inf)):
        E.check(got != got if want != want else got == want, what)
    else:
        E.close(got, want, what, scale=1e-290)


def against(E, t):
    try:
        want = reference(E, t)
        if t.strip().find('\n') >= 0:
            want = ()
    except Reject:
        want = None
    except Unspecified:
        want = ()
    try:
        u = E.u.ufloat_fromstr(t)
    except ValueError as x:
        E.check(want is None or want == (), 'rejected: %s' % x)
        return
    except E.core.NegativeStdDev:
        E.check(want == () or want is not None and want[1] < 0, 'negative uncertainty')
        return
    if want == ():
        return
    E.check(want is not None, 'accepted')
    agree(E, u.nominal_value, want[0], 'nominal value')
    agree(E, u.std_dev, want[1], 'uncertainty')


def free(E):
    """Any text."""
    against(E, E.text('t', [A] * E.p['n']) if E.p['n'] else '')


def template(E):
    """Holes (~: any character; #: a character of a number) in a text."""
    parts = []
    for i, c in enumerate(E.p['t']):
        parts.append(E.text('c%d' % i, [A]) if c == '~' else E.text('c%d' % i, [NUM]) if c == '#' else
                     E.text('c%d' % i, ['0239']) if c == '@' else E.text('c%d' % i, [SUP[0] + SUP[3] + SUP[9]]) if c == '^' else c)
    against(E, E.join(*parts))


TEMPLATES = ['#+/-#', '##+/-#', '#+/-##', '~+/-~', '~±~', '#±##', '##±#', '1~~-2', '1+~-2', '1+/~2', '1+/-2~', '(#+/-#)', '(1+/-2)~~', '(1+/-2)e#', '(1+/-2)e##',
             '~1+/-2)e3', '(1+/-2~e3', '(1~2)e3', '(1~~2)', '~(1+/-2)', '1(~)', '1.9(~)', '1.9(~~)', '#.#(#)', '~9(1)', '~~(9)', '1(2)~', '1(2)~~', '1.9(1)e#', '1.9(1)e##',
             '1(~)~', '(1(2))~3', '(1.9(1)~)', '((1(2))~~', '(1(~))e2', '1×10~', '1(1)×10~', '1(1)×10⁻~', '1(1)×1~²', '1(1)~10²', '1±2×10~', '1×10~±2', '(1±2)×10~', '(1±2)×10~~',
             '(1±2)~×10²', '1~×10²±3', '1(2)e@@@', '(1+/-2)e@@@', '(1(2))e@@@', '1±2×10^^^', '(1±2)×10^^^', '1+/-2\n~', '~\n1+/-2', '1(2)\n~', '1~na~', 'na~+/-1', '1(na~)', '1(i~f)',
             '~nf(1)', '1+/-~nan', 'N~N(1)', '1(I~F)', '1+/-in~', '(1+/-2)(~)', '1(2)(~)', '1(2(~))', '1+/-2+/-~', '1±2±~', '1+/-2±~', '((1±2))~', '((1±~))', '(1)e1)~', '~~e1(2)', '1e~(2)', '1+~/-2',
             '1+/-2e~', '1e~+/-2', '(1e~+/-2)e3', '1.~.9', '9~9(1.)', '.(~)', '~.(1)', '9.(~)',
             '.' + '0' * 330 + '@(@)', '0.' + '0' * 330 + '@', '@.' + '0' * 330 + '(@)', '@.' + '0' * 305 + '@(~)e9', '@.' + '0' * 325 + '+/-@.@']


def tasks(tier):
    quick = tier == 'quick'
    T = [Task(free, dict(n=n)) for n in range(4 if quick else 6)]
    for t in TEMPLATES:
        T.append(Task(template, dict(t=t)))
        if not quick and t.count('~') and len(t) < 9:
            T.append(Task(template, dict(t=t.replace('~', '~~', 1))))
    return T
