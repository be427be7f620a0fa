"""Independent reader of formatted numbers with uncertainties, working alike on
native and symbolic strings."""

SUP = {'⁰': '0', '¹': '1', '²': '2', '³': '3', '⁴': '4', '⁵': '5', '⁶': '6', '⁷': '7', '⁸': '8', '⁹': '9', '⁻': '-', '⁺': '+'}


class Bad(Exception):
    pass


def native(s):
    return s if isinstance(s, str) else s.concretize()


def cut(s, opts):
    """(mantissa text, concrete exponent or None)"""
    if 'P' in opts:
        i = s.find('×10')
        if i < 0:
            return s, None
        return s[:i], int(''.join(SUP[c] for c in native(s[i + 3:])))
    if 'L' in opts:
        i = s.find(' \\times 10^{')
        if i < 0:
            return s, None
        if not s.endswith('}'):
            raise Bad('unbalanced exponent')
        return s[:i], int(native(s[i + 12:-1]))
    i = s.find('e')
    if i < 0:
        i = s.find('E')
    if i < 0:
        return s, None
    x = native(s[i + 1:])
    if len(x) < 3 or x[0] not in '+-' or not x[1:].isdigit():
        raise Bad('exponent %r' % x)
    return s[:i], int(x)


class Read:
    """n, e: texts of the mantissas; ne, ee: exponents (None: no exponent)."""
    pct = short = factored = False
    ne = ee = None


def read(s, opts='', fill=' '):
    r = Read()
    if '%' in opts:
        tail = ' \\%' if 'L' in opts else '%'
        if not s.endswith(tail):
            raise Bad('no percent sign')
        s = s[:len(s) - len(tail)]
        r.pct = True
    if 'S' in opts:
        r.short = True
        i, j = s.find('('), s.find(')')
        if i < 0 or j < i:
            raise Bad('no parentheses')
        r.n, r.e = s[:i], s[i + 1:j]
        rest, ex = cut(s[j + 1:], opts)
        if len(rest):
            raise Bad('text after the parentheses')
        r.ne = r.ee = ex
        return r
    pm = '±' if 'P' in opts else ' \\pm ' if 'L' in opts else '+/-'
    lp, rp = ('\\left(', '\\right)') if 'L' in opts else ('(', ')')
    r.paren = False
    if s.startswith(lp):
        i = s.find(rp)
        if i < 0:
            raise Bad('unbalanced')
        rest, ex = cut(s[i + len(rp):], opts)
        if len(rest):
            raise Bad('text after )')
        r.ne = r.ee = ex
        r.factored = ex is not None
        r.paren = True
        s = s[len(lp):i]
    i = s.find(pm)
    if i < 0:
        raise Bad('no +/- symbol')
    a, b = s[:i], s[i + len(pm):]
    r.fn, r.fe = a, b
    if b.find(pm) >= 0:
        raise Bad('two +/- symbols')
    a, b = a.strip(fill), b.strip(fill)
    if not r.factored:
        a, r.ne = cut(a, opts)
        b, r.ee = cut(b, opts)
    r.n, r.e = a, b
    return r


def decimals(t):
    i = t.find('.')
    return 0 if i < 0 else len(t) - 1 - i


def point(t):
    return t.find('.') >= 0


def text_value(E, t):
    """Value of a decimal text; commas are allowed."""
    return E.float(t.replace(',', '')) if t.find(',') >= 0 else E.float(t)


def values(E, r):
    """(nominal, sigma, unit of the last digit of each)"""
    p = decimals(r.n)
    kn = 10.0 ** ((r.ne or 0) - (2 if r.pct else 0))
    ke = 10.0 ** ((r.ee or 0) - (2 if r.pct else 0))
    n = text_value(E, r.n)
    if r.short and not point(r.e):
        e = text_value(E, r.e) * 10.0 ** -p
        q = p
    else:
        e = text_value(E, r.e)
        q = decimals(r.e)
    return n * kn, e * ke, kn * 10.0 ** -p, ke * 10.0 ** -q


def sigdigits(E, t):
    """Number of digits from the first non-zero one (forks on zeros)."""
    n, started = 0, False
    for c in t:
        if c == '.':
            continue
        if not started and c == '0':
            continue
        started = True
        n += 1
    return n
