"""Symbolic strings: a concrete number of characters, each concrete or a z3
integer (code point) with a finite alphabet.

Formatting a symbolic real produces digit characters d_i with
round_half_even(|x| 10^p) = sum d_i 10^i; parsing digits back gives the linear
expression.  Everything else about the layout (padding, grouping, exponent
threshold...) is taken from Python itself, by formatting a representative number
with the same digit structure.
"""
import builtins as _b
import re as _re
import unicodedata
from decimal import Decimal
from fractions import Fraction
import z3
from . import engine as _e
from .engine import Unsupported, PathAbort, eng, rat
from .values import (SFBase, SymFloat, SymInt, SymBool, issym, const, mk, mkint, mkbool, round_term,
                     simp, sym_and, intt)

MAXDIGITS = 18
WS = frozenset(ord(c) for c in ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0')
DIGITS = frozenset(range(48, 58))


class SymCh:
    __slots__ = ('t', 'dom', 'uid')

    def __init__(self, t, dom):
        e = eng()
        e.fresh_n += 1
        self.t, self.dom, self.uid = t, frozenset(dom), e.fresh_n

    def domain(self):
        return eng().dom.get(self.uid, self.dom)


def is_ws(cp):
    return chr(cp).isspace()


def inset(c, S):
    """Is the character c in the set of code points S?  Forks when symbolic."""
    if isinstance(c, str):
        return ord(c) in S
    e = eng()
    dom = c.domain()
    I = dom & S
    if not I:
        return False
    if len(I) == len(dom):
        return True
    r = e.branch(_inform(c.t, I, dom))
    e.dom[c.uid] = I if r else dom - I
    return r


def _inform(t, I, dom):
    """Formula t in I, given t in dom; contiguous runs (relative to dom) as ranges."""
    small, neg = (I, False) if 2 * len(I) <= len(dom) else (dom - I, True)
    ds = sorted(dom)
    runs, cur = [], None
    for c in ds:
        if c in small:
            cur = [cur[0], c] if cur else [c, c]
        elif cur:
            runs.append(cur)
            cur = None
    if cur:
        runs.append(cur)
    f = z3.Or(*[t == a if a == b else z3.And(t >= a, t <= b) for a, b in runs])
    return z3.Not(f) if neg else f


def pred(c, fn):
    """fn(code point) -> bool, over the domain of c."""
    if isinstance(c, str):
        return fn(ord(c))
    dom = c.domain()
    return inset(c, frozenset(x for x in dom if fn(x)))


def concrete(c):
    """Fork until c is one character."""
    if isinstance(c, str):
        return c
    dom = c.domain()
    if len(dom) == 1:
        return chr(next(iter(dom)))
    v = eng().concretize_int(c.t)
    eng().dom[c.uid] = frozenset([v])
    return chr(v)


def ch_eq(a, b):
    """z3 Bool / bool"""
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str):
        a, b = b, a
    if isinstance(b, str):
        cp = ord(b)
        if cp not in a.domain():
            return False
        if len(a.domain()) == 1:
            return True
        return a.t == cp
    if a is b or a.t.eq(b.t):
        return True
    if not (a.domain() & b.domain()):
        return False
    return a.t == b.t


def mkstr(cs):
    cs = tuple(cs)
    if all(isinstance(c, str) for c in cs):
        return ''.join(cs)
    return SymStr(cs)


def items(s):
    if isinstance(s, SymStr):
        return s.cs
    if isinstance(s, str):
        return tuple(s)
    raise TypeError('expected str instance, %s found' % type(s).__name__)


def isstr(s):
    return isinstance(s, (str, SymStr))


class SymStr:
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = tuple(cs)

    # -- basics
    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __iter__(self):
        for c in self.cs:
            yield mkstr((c,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.cs[i])
        return mkstr((self.cs[i],))

    def __add__(self, o):
        return mkstr(self.cs + items(o)) if isstr(o) else NotImplemented

    def __radd__(self, o):
        return mkstr(items(o) + self.cs) if isstr(o) else NotImplemented

    def __mul__(self, n):
        return mkstr(self.cs * n)
    __rmul__ = __mul__

    def eqterm(self, o):
        a, b = self.cs, items(o)
        if len(a) != len(b):
            return False
        r = []
        for x, y in zip(a, b):
            t = ch_eq(x, y)
            if t is False:
                return False
            if t is not True:
                r.append(t)
        return z3.And(*r) if r else True

    def __eq__(self, o):
        if not isstr(o):
            return False
        t = self.eqterm(o)
        return t if isinstance(t, bool) else mkbool(t)

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.t))

    def __hash__(self):
        return hash(self.concretize())

    def concretize(self):
        return ''.join(concrete(c) for c in self.cs)

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def __repr__(self):
        return '<symstr %s>' % ''.join(c if isinstance(c, str) else '?' for c in self.cs)
    __str__ = __repr__

    def __format__(self, spec):
        r = s_format(self, spec)
        if isinstance(r, str):
            return r
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, proto):
        from .values import _unpickle, _register
        return (_unpickle, (_register(self),))

    # -- methods
    def _at(self, i, sub):
        n = len(sub)
        if i < 0 or i + n > len(self.cs):
            return False
        for x, y in zip(self.cs[i:i + n], items(sub)):
            if isinstance(y, str):
                if not inset(x, frozenset([ord(y)])):
                    return False
            elif isinstance(x, str):
                if not inset(y, frozenset([ord(x)])):
                    return False
            else:
                t = ch_eq(x, y)
                if not (t if isinstance(t, bool) else eng().branch(t)):
                    return False
        return True

    def startswith(self, pre, start=0, end=None):
        s = self if not start and end is None else self[start:end]
        if isinstance(s, str):
            s = SymStr(s)
        pres = pre if isinstance(pre, tuple) else (pre,)
        return any(s._at(0, p) for p in pres)

    def endswith(self, suf, start=0, end=None):
        s = self if not start and end is None else self[start:end]
        if isinstance(s, str):
            s = SymStr(s)
        sufs = suf if isinstance(suf, tuple) else (suf,)
        return any(s._at(len(s.cs) - len(p), p) for p in sufs)

    def find(self, sub, start=0, end=None):
        start, end, _ = slice(start, end).indices(len(self.cs))
        for i in range(start, end - len(sub) + 1):
            if self._at(i, sub):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        start, end, _ = slice(start, end).indices(len(self.cs))
        for i in range(end - len(sub), start - 1, -1):
            if self._at(i, sub):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub, *a):
        n = i = 0
        while True:
            i = self.find(sub, i)
            if i < 0:
                return n
            n += 1
            i += max(1, len(sub))

    def _inchars(self, c, chars):
        if chars is None:
            return pred(c, is_ws)
        return inset(c, frozenset(ord(x) for x in chars))

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.cs) and self._inchars(self.cs[i], chars):
            i += 1
        return self[i:]

    def rstrip(self, chars=None):
        i = len(self.cs)
        while i and self._inchars(self.cs[i - 1], chars):
            i -= 1
        return self[:i]

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars) if chars is not None or isinstance(r, SymStr) else r.rstrip()

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (self[:i], sep, self[i + len(sep):])

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            cur, i, n = [], 0, len(self.cs)
            while i < n:
                if pred(self.cs[i], is_ws):
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                else:
                    if not cur and maxsplit >= 0 and len(out) >= maxsplit:
                        r = self[i:]
                        out.append(r.rstrip())
                        return out
                    cur.append(self.cs[i])
                i += 1
            if cur:
                out.append(mkstr(cur))
            return out
        i = 0
        while maxsplit < 0 or len(out) < maxsplit:
            j = self.find(sep, i)
            if j < 0:
                break
            out.append(self[i:j])
            i = j + len(sep)
        out.append(self[i:])
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit < 0:
            if maxsplit < 0:
                return self.split(sep)
            raise Unsupported('rsplit')
        out, end = [], len(self.cs)
        while len(out) < maxsplit:
            j = self.rfind(sep, 0, end)
            if j < 0:
                break
            out.append(self[j + len(sep):end])
            end = j
        out.append(self[:end])
        return out[::-1]

    def splitlines(self, keepends=False):
        if any(pred(c, lambda x: len((chr(x) + 'a').splitlines()) > 1) for c in self.cs):
            raise Unsupported('splitlines')
        return [self]

    def replace(self, old, new, count=-1):
        if not len(old):
            raise Unsupported('replace of an empty string')
        out, i, n = [], 0, 0
        while i < len(self.cs):
            if (count < 0 or n < count) and self._at(i, old):
                out.extend(items(new))
                i += len(old)
                n += 1
            else:
                out.append(self.cs[i])
                i += 1
        return mkstr(out)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self.cs) - len(p)] if len(p) and self.endswith(p) else self

    def join(self, seq):
        out = []
        for i, s in enumerate(seq):
            if i:
                out.extend(self.cs)
            out.extend(items(s))
        return mkstr(out)

    def _map(self, fn):
        """fn(char) -> string, for every character of the domains."""
        out = []
        for c in self.cs:
            if isinstance(c, str):
                out.extend(fn(c))
                continue
            dom = c.domain()
            img = {x: fn(chr(x)) for x in dom}
            if all(v == chr(x) for x, v in img.items()):
                out.append(c)
                continue
            if any(len(v) != 1 for v in img.values()):
                out.extend(fn(concrete(c)))
                continue
            shifts = {}
            for x, v in img.items():
                shifts.setdefault(ord(v) - x, set()).add(x)
            t = None
            for d, xs in shifts.items():
                t = c.t + d if t is None else z3.If(_inform(c.t, frozenset(xs), dom), c.t + d, t)
            out.append(SymCh(simp(t) if len(shifts) == 1 else t, {ord(v) for v in img.values()}))
        return mkstr(out)

    def translate(self, table):
        def fn(ch):
            try:
                v = table[ord(ch)]
            except LookupError:
                return ch
            if v is None:
                return ''
            return chr(v) if isinstance(v, int) else v
        return self._map(fn)

    def lower(self): return self._map(str.lower)
    def upper(self): return self._map(str.upper)
    def swapcase(self): return self._map(str.swapcase)
    def casefold(self): return self._map(str.casefold)

    def _all(self, fn):
        return bool(self.cs) and all(pred(c, lambda x: fn(chr(x))) for c in self.cs)

    def isdigit(self): return self._all(str.isdigit)
    def isdecimal(self): return self._all(str.isdecimal)
    def isnumeric(self): return self._all(str.isnumeric)
    def isalpha(self): return self._all(str.isalpha)
    def isalnum(self): return self._all(str.isalnum)
    def isspace(self): return self._all(str.isspace)
    def isascii(self): return all(pred(c, lambda x: x < 128) for c in self.cs)

    def isupper(self):
        cased = [c for c in self.cs if pred(c, lambda x: chr(x).isupper() or chr(x).islower())]
        return bool(cased) and all(pred(c, lambda x: chr(x).isupper()) for c in cased)

    def islower(self):
        cased = [c for c in self.cs if pred(c, lambda x: chr(x).isupper() or chr(x).islower())]
        return bool(cased) and all(pred(c, lambda x: chr(x).islower()) for c in cased)

    def _pad(self, width, fill, left, right):
        n = width - len(self.cs)
        if n <= 0:
            return self
        return mkstr((fill,) * left(n) + self.cs + (fill,) * right(n))

    def ljust(self, w, f=' '): return self._pad(w, f, lambda n: 0, lambda n: n)
    def rjust(self, w, f=' '): return self._pad(w, f, lambda n: n, lambda n: 0)

    def center(self, w, f=' '):
        pat = ('x' * len(self.cs)).center(w, '\0')
        return mkstr((f,) * (len(pat) - len(pat.lstrip('\0'))) + self.cs
                     + (f,) * (len(pat) - len(pat.rstrip('\0')))) if len(pat) > len(self.cs) else self

    def zfill(self, w):
        if len(self.cs) >= w:
            return self
        k = 1 if self.cs and inset(self.cs[0], frozenset([43, 45])) else 0
        return mkstr(self.cs[:k] + ('0',) * (w - len(self.cs)) + self.cs[k:])

    def format(self, *a, **k):
        return SymStrFormat(self, a, k)

    def encode(self, *a):
        raise Unsupported('encode of a symbolic string')

    def expandtabs(self, *a):
        raise Unsupported('expandtabs')

    def title(self): return self.concretize().title()
    def capitalize(self): return self.concretize().capitalize()

    def __lt__(self, o): return self.concretize() < to_native(o)
    def __le__(self, o): return self.concretize() <= to_native(o)
    def __gt__(self, o): return self.concretize() > to_native(o)
    def __ge__(self, o): return self.concretize() >= to_native(o)

    # -- numbers
    def _to_float(self):
        return parse_float(self)

    def _to_int(self):
        return parse_int(self)

    def __float__(self):
        raise Unsupported('symbolic string forced to a machine float')

    def __int__(self):
        raise Unsupported('symbolic string forced to a machine int')


def to_native(s):
    return s.concretize() if isinstance(s, SymStr) else s


# ------------------------------------------------------------------ parsing
def decimal_of(c):
    """Digit value (Int term or int) of a character known to be a decimal digit."""
    if isinstance(c, str):
        return unicodedata.decimal(c)
    zs = {x - unicodedata.decimal(chr(x)) for x in c.domain()}
    if len(zs) == 1:
        return c.t - zs.pop()
    return unicodedata.decimal(concrete(c))


def is_dec(cp):
    return unicodedata.decimal(chr(cp), None) is not None


def _known(ds):
    """(k, dropped) when ds is digit_chars(k) less some trailing zeros, possibly
    between literal digits: then its value is that of k / 10**dropped."""
    e = eng()
    for i, c in enumerate(ds):
        if isinstance(c, SymCh):
            break
        if c != '0':
            return None
    else:
        return None
    got = e.memo.get(('dv', c.uid))
    if got is None:
        return None
    chs, k = got
    ds = ds[i:]
    n = min(len(ds), len(chs))
    if any(x is not y for x, y in zip(ds, chs)):
        return None
    if any(x != '0' for x in ds[n:]) or any(x.domain() != {48} for x in chs[n:]):
        return None
    return k, len(chs) - len(ds)


def digits_value(ds):
    """Int term of a list of digit characters (most significant first)."""
    got = _known(ds)
    if got is not None and got[1] <= 0:
        return simp(got[0] * 10 ** -got[1])
    v, t = 0, None
    for c in ds:
        d = decimal_of(c)
        v *= 10
        if t is not None:
            t = t * 10
        if isinstance(d, int):
            v += d
        else:
            t = d if t is None else t + d
    if t is None:
        return z3.IntVal(v)
    return simp(t + v)


def _is(c, chars):
    return inset(c, frozenset(map(ord, chars)))


def _word(cs, w):
    if len(cs) != len(w):
        return False
    return all(_is(c, x + x.upper()) for c, x in zip(cs, w))


def parse_float(s):
    """float(s): native float or SymFloat; ValueError as Python."""
    bad = ValueError('could not convert string to float: ...')
    cs = items(SymStr(items(s)).strip()) if not isinstance(s, str) else tuple(s.strip())
    # Python accepts Unicode decimals and single underscores between digits
    i, n = 0, len(cs)
    neg = False
    if i < n and _is(cs[i], '+-'):
        neg = _is(cs[i], '-')
        i += 1
    if i < n and pred(cs[i], lambda x: chr(x).isalpha()):
        rest = cs[i:]
        if _word(rest, 'nan'):
            return float('nan')
        if _word(rest, 'inf') or _word(rest, 'infinity'):
            return float('-inf') if neg else float('inf')
        raise bad

    def run(i):
        ds = []
        while i < n:
            if pred(cs[i], is_dec):
                ds.append(cs[i])
                i += 1
            elif ds and _is(cs[i], '_') and i + 1 < n and pred(cs[i + 1], is_dec):
                i += 1
            else:
                break
        return ds, i
    ip, i = run(i)
    fp = []
    if i < n and _is(cs[i], '.'):
        i += 1
        fp, i = run(i)
    if not ip and not fp:
        raise bad
    ex = 0
    if i < n and _is(cs[i], 'eE'):
        i += 1
        eneg = False
        if i < n and _is(cs[i], '+-'):
            eneg = _is(cs[i], '-')
            i += 1
        eds, i = run(i)
        if not eds:
            raise bad
        ex = eng().concretize_int(digits_value(eds), limit=2000) if any(
            not isinstance(c, str) for c in eds) else int(''.join(str(decimal_of(c)) for c in eds))
        if eneg:
            ex = -ex
    if i != n:
        raise bad
    got = _known(ip + fp)
    if got is not None:
        m, d = got
        ex -= d
    else:
        m = digits_value(ip + fp)
    if neg:
        m = simp(-m)
    return scaled(m, ex - len(fp))


def scaled(m, ex):
    """m * 10**ex with float's range."""
    if z3.is_int_value(m):
        v = m.as_long()
        return float('%de%d' % (v, ex))
    e = eng()
    nd = 20
    if ex > 308 or ex < -324 - nd:
        if e.branch(m == 0):
            return 0.0
        if ex > 308:
            return float('inf') if e.branch(m > 0) else float('-inf')
        return 0.0
    if ex < -300 or ex > 290:
        v = e.concretize_int(m, limit=200)
        return float('%de%d' % (v, ex))
    return mk(simp(z3.ToReal(m) * rat(Fraction(10) ** ex)))


def parse_int(s):
    bad = ValueError('invalid literal for int() with base 10: ...')
    cs = items(SymStr(items(s)).strip())
    i, n = 0, len(cs)
    neg = False
    if i < n and _is(cs[i], '+-'):
        neg = _is(cs[i], '-')
        i += 1
    ds = []
    while i < n:
        if pred(cs[i], is_dec):
            ds.append(cs[i])
            i += 1
        elif ds and _is(cs[i], '_') and i + 1 < n and pred(cs[i + 1], is_dec):
            i += 1
        else:
            break
    if not ds or i != n:
        raise bad
    m = digits_value(ds)
    return mkint(-m if neg else m)


# ------------------------------------------------------------------ digits of numbers
def digit_chars(k, D):
    """D digit characters of the non-negative integer k < 10**D (Int term or int)."""
    if isinstance(k, int):
        return list(str(k).zfill(D))
    e = eng()
    k = z3.simplify(k)
    if z3.is_int_value(k):
        return list(str(k.as_long()).zfill(D))
    key = ('digs', k.get_id(), D)
    got = e.memo.get(key)
    if got is None:
        ds = [e.fresh('d', 'int') for _ in range(D)]
        tot = z3.Sum([d * 10 ** (D - 1 - i) for i, d in enumerate(ds)])
        e.add(z3.And(*([z3.And(d >= 0, d <= 9) for d in ds] + [tot == k])))
        chs = [SymCh(48 + d, DIGITS) for d in ds]
        got = e.memo[key] = (chs, k)
        e.memo[('dv', chs[0].uid)] = (chs, k)
    return list(got[0])


def ndigits(k):
    """Number of digits of the Int term k >= 0 (0 has one), by forking."""
    if isinstance(k, int):
        return len(str(k))
    e = eng()
    k = z3.simplify(k)
    if z3.is_int_value(k):
        return len(str(k.as_long()))
    key = ('nd', k.get_id())
    got = e.memo.get(key)
    if got is None:
        def between(n):
            return z3.And(k >= (0 if n == 1 else 10 ** (n - 1)), k < 10 ** n)

        def opts():
            r = []
            while True:
                e.stats.queries += 1
                e.solver.push()
                for n in r:
                    if n is not None:
                        e.solver.add(z3.Not(between(n)))
                res = e.solver.check()
                m = e.solver.model() if res == z3.sat else None
                e.solver.pop()
                if res == z3.unsat:
                    return sorted(r)
                if m is None:
                    raise Unsupported('digit count undecided')
                v = m.eval(k, model_completion=True).as_long()
                n = len(str(v))
                if n > MAXDIGITS:
                    # more digits than the encoding follows: out of bounds
                    if e._check(k < 10 ** MAXDIGITS, *[z3.Not(between(q)) for q in r]) == z3.unsat:
                        return sorted(r) + [None]
                    e.solver.push()
                    e.solver.add(k < 10 ** MAXDIGITS, *[z3.Not(between(q)) for q in r])
                    e.solver.check()
                    v = e.solver.model().eval(k, model_completion=True).as_long()
                    e.solver.pop()
                    n = len(str(v))
                r.append(n)
        n = e._decide(('nd', k.hash()), opts)
        if n is None:
            raise PathAbort('too many digits')
        e.add(between(n))
        got = e.memo[key] = (n, k)
    return got[0]


def absround(x, p):
    """(negative?, Int term of round_half_even(|x| 10^p))"""
    neg = eng().branch(x < 0)
    a = -x if neg else x
    k = round_term(simp(a * rat(Fraction(10) ** p)))
    return neg, (k if isinstance(k, int) else k.t)


SPEC = _re.compile(r'(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[-+ ])?(?P<z>z)?(?P<alt>#)?(?P<zero>0)?'
                   r'(?P<width>\d+)?(?P<group>[,_])?(?:\.(?P<prec>\d+))?(?P<type>[a-zA-Z%])?$', _re.DOTALL)


def _rep_substitute(native, digs, expo=False):
    """Put the symbolic digits into the representative string."""
    out = list(native)
    body = len(out)
    if expo:
        body = max(native.rfind('e'), native.rfind('E'))
    pos = [i for i in range(body) if out[i] in '0123456789']
    return out, pos


def _place(native, digs, expo=False, lead=None):
    """Replace the last len(digs) digits (before the exponent) of native.  The
    fill character of a right-padded text may be a digit: the text is located by
    the all-ones representative."""
    out = list(native)
    end = len(out)
    if expo:
        for i in range(len(out) - 1, -1, -1):
            if out[i] in 'eE' and i + 1 < len(out) and out[i + 1] in '+-':
                end = i
                break
    # the representative's digits are all '7', padding never is
    pos = [i for i in range(end) if out[i] == '7']
    if len(pos) != len(digs):
        raise Unsupported('digit placement in %r' % native)
    for i, c in zip(pos, digs):
        out[i] = c
    return mkstr(out)


def _native_fixed(nint, p, neg, spec):
    txt = '7' * nint + ('.' + '7' * p if p else '')
    v = Decimal(('-' if neg else '') + txt)
    if nint + p <= 15:
        return format(float(v), spec)
    return format(v, spec)


def format_real(x, spec):
    """format(SymFloat, spec)"""
    m = SPEC.match(spec)
    if not m:
        raise ValueError('Invalid format specifier')
    ty = m.group('type') or ''
    if ty not in ('', 'e', 'E', 'f', 'F', 'g', 'G', '%'):
        raise ValueError("Unknown format code '%s' for object of type 'float'" % ty)
    if m.group('group') == '_' or m.group('z') or '7' in (m.group('fill') or '') or m.group('alt'):
        raise Unsupported('format spec %r' % spec)
    prec = int(m.group('prec')) if m.group('prec') is not None else None
    base = spec[:len(spec) - len(ty) - (0 if prec is None else len(m.group('prec')) + 1)]
    t = x.t
    if ty == '%':
        t = simp(t * 100)
    if ty in ('f', 'F', '%'):
        p = 6 if prec is None else prec
        return _fixed(t, p, base, ty)
    if ty in ('e', 'E'):
        return _expo(t, 6 if prec is None else prec, base, ty)
    if ty == '' and prec is None:
        return _repr_fmt(t, base)
    P = 6 if prec is None else (prec or 1)
    # g, G, or '' with a precision: like g with at least one decimal
    if eng().branch(t == 0):
        return format(0.0, spec)
    neg, k, X = _sig(t, P)
    dot0 = ty == ''
    # trailing zeros are removed: fork on how many
    ds = digit_chars(k, P)
    D = P
    while D > 1 and _is(ds[D - 1], '0'):
        D -= 1
    if -4 <= X < P - (1 if dot0 else 0):
        p = max(D - 1 - X, 0)
        if dot0 and p == 0:
            p = 1
        if X >= 0:
            digs = ds[:X + 1] + ds[X + 1:X + 1 + p] + ['0'] * max(0, X + 1 + p - P)
            digs = digs[:X + 1 + p]
            nint = X + 1
        else:
            digs = ['0'] + ['0'] * (-X - 1) + ds[:D]
            nint = 1
            p = len(digs) - 1
        return _place(_native_fixed(nint, p, neg, base + '.%df' % p), digs)
    digs = ds[:D]
    return _exp_text(digs, X, neg, base, 'E' if ty == 'G' else 'e')


def _fixed(t, p, base, ty):
    neg, k = absround(t, p)
    n = ndigits(k)
    nint = max(1, n - p)
    digs = digit_chars(k, nint + p)
    if ty == '%':
        nat = _native_fixed(nint, p, neg, base + '.%df' % p)
        if len(nat) != len(nat.strip()) or 'x' in base:
            raise Unsupported('padded % format')
        return _place(nat, digs) + '%'
    return _place(_native_fixed(nint, p, neg, base + '.%d%s' % (p, ty)), digs)


def _sig(t, P):
    """(neg, k, X): |t| ~ k 10^(X-P+1), 10^(P-1) <= k < 10^P; t != 0."""
    from .shims import log10_decade
    e = eng()
    neg = e.branch(t < 0)
    a = simp(-t) if neg else t
    X = log10_decade(a)
    k = round_term(simp(a * rat(Fraction(10) ** (P - 1 - X))))
    k = k if isinstance(k, int) else k.t
    over = k == 10 ** P if isinstance(k, int) else e.branch(k == 10 ** P)
    if over:
        return neg, 10 ** (P - 1), X + 1
    return neg, k, X


def _exp_text(digs, X, neg, base, letter):
    P = len(digs)
    rep = Decimal(('-' if neg else '') + '7' + ('.' + '7' * (P - 1) if P > 1 else '') + 'e%d' % X)
    if P <= 15:
        nat = format(float(rep), base + '.%d%s' % (P - 1, letter))
    else:
        raise Unsupported('too many digits')
    return _place(nat, digs, expo=True)


def _expo(t, prec, base, ty):
    e = eng()
    if e.branch(t == 0):
        return format(0.0, base + '.%d%s' % (prec, ty))
    neg, k, X = _sig(t, prec + 1)
    return _exp_text(digit_chars(k, prec + 1), X, neg, base, ty)


REPR_DIGITS = 9


def _repr_fmt(t, base):
    """repr-like text of a real that is a short decimal (at most REPR_DIGITS
    significant digits); other reals are outside the bounds."""
    from .shims import log10_decade
    e = eng()
    if e.branch(t == 0):
        return format(0.0, base)
    neg = e.branch(t < 0)
    a = simp(-t) if neg else t
    X = log10_decade(a)
    k = None
    for P in range(1, REPR_DIGITS + 1):
        y = simp(a * rat(Fraction(10) ** (P - 1 - X)))
        if e.branch(z3.IsInt(y)):
            k = z3.simplify(z3.ToInt(y))
            break
    if k is None:
        raise PathAbort('repr of a number with too many digits')
    digs = digit_chars(k, P)
    if -4 <= X < 16:
        p = max(P - 1 - X, 1)
        if X >= 0:
            digs = (digs + ['0'] * (X + 1 + p))[:X + 1 + p]
            nint = X + 1
        else:
            digs = ['0'] * (-X) + digs
            nint, p = 1, len(digs) - 1
        return _place(_native_fixed(nint, p, neg, base + '.%df' % p), digs)
    return _exp_text(digs, X, neg, base, 'e')


def int_text(k):
    """decimal text of a SymInt"""
    e = eng()
    neg = e.branch(k.t < 0)
    a = z3.simplify(-k.t) if neg else k.t
    n = ndigits(a)
    return mkstr((['-'] if neg else []) + digit_chars(a, n))


def format_int(k, spec):
    if spec in ('', 'd'):
        return int_text(k)
    m = SPEC.match(spec)
    ty = m and m.group('type') or ''
    if not m or m.group('prec') is not None:
        raise ValueError('Precision not allowed in integer format specifier')
    if ty in ('', 'd') and '7' not in (m.group('fill') or '') and not m.group('group') == '_':
        e = eng()
        neg = e.branch(k.t < 0)
        a = z3.simplify(-k.t) if neg else k.t
        n = ndigits(a)
        return _place(format(int(('-' if neg else '') + '7' * n), spec), digit_chars(a, n))
    if ty in ('e', 'E', 'f', 'F', 'g', 'G', '%'):
        return format_real(SymFloat._new(z3.ToReal(k.t)), spec)
    return format(k.__index__(), spec)


def format_str(s, spec):
    m = _re.match(r'(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<zero>0)?(?P<width>\d+)?(?:\.(?P<prec>\d+))?s?$', spec,
                  _re.DOTALL)
    if not m:
        raise ValueError('Invalid format specifier')
    if m.group('prec') is not None:
        s = s[:int(m.group('prec'))]
    body = 'x' * len(s)
    pat = format(body, spec.rstrip('s') if m.group('prec') is None else
                 spec[:m.start('prec') - 1])        # same padding as Python's own
    fill = m.group('fill') or (' ' if not m.group('zero') else '0')
    if fill == 'x':
        body = 'y' * len(s)
        pat = format(body, spec.rstrip('s') if m.group('prec') is None else spec[:m.start('prec') - 1])
    i = pat.find(body) if body else 0
    # padding never contains the body letter
    return mkstr(tuple(pat[:i]) + items(s) + tuple(pat[i + len(body):]))


# ------------------------------------------------------------------ builtins
def s_format(x, spec=''):
    if isinstance(spec, SymStr):
        if not isinstance(x, (SFBase, SymInt, SymStr)) and '__format__' in _methods(type(x)):
            return type(x).__format__(x, spec)
        spec = spec.concretize()
    if isinstance(x, SFBase):
        cls_fmt = _user_method(x, '__format__')
        if cls_fmt:
            return cls_fmt(x, spec)
        return format_real(x, spec)
    if isinstance(x, SymInt):
        return format_int(x, spec)
    if isinstance(x, SymBool):
        return format(bool(x), spec)
    if isinstance(x, SymStr):
        return format_str(x, spec)
    f = type(x).__format__
    if f is object.__format__:
        if spec:
            raise TypeError('unsupported format string passed to %s.__format__' % type(x).__name__)
        return to_str(x)
    return f(x, spec)


def _methods(c):
    d = {}
    for k in c.__mro__[:-1]:
        for n, v in k.__dict__.items():
            d.setdefault(n, v)
    return d


def _user_method(x, name):
    """A method defined by the code under test in a subclass of the shim float."""
    for c in type(x).__mro__:
        if c.__module__.startswith('symex'):
            return None
        if name in c.__dict__:
            return c.__dict__[name]
    return None


def to_str(x):
    if isinstance(x, SymStr):
        return x
    if isinstance(x, SFBase):
        return (_user_method(x, '__str__') or (lambda v: _repr_fmt(v.t, '')))(x)
    if isinstance(x, SymInt):
        return int_text(x)
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, (str, int, float, bytes, type(None))) or isinstance(x, type):
        return str(x)
    f = type(x).__str__
    if f is object.__str__:
        return s_repr(x)
    r = f(x)
    return r


def s_repr(x):
    if isinstance(x, SFBase):
        return (_user_method(x, '__repr__') or (lambda v: _repr_fmt(v.t, '')))(x)
    if isinstance(x, SymInt):
        return int_text(x)
    if isinstance(x, SymBool):
        return repr(bool(x))
    if isinstance(x, SymStr):
        return "'" + x + "'"
    if isinstance(x, (tuple, list, set, frozenset, dict)):
        return repr(x)
    return type(x).__repr__(x)


def s_ord(x):
    if isinstance(x, SymStr):
        if len(x.cs) != 1:
            raise TypeError('ord() expected a character')
        c = x.cs[0]
        return ord(c) if isinstance(c, str) else mkint(c.t)
    return ord(x)


def s_chr(x):
    return chr(x.__index__()) if isinstance(x, SymInt) else chr(x)


def s_ascii(x):
    return ascii(to_native(x))


def _anysym(x):
    if isinstance(x, (SFBase, SymInt, SymBool, SymStr)):
        return True
    if isinstance(x, (tuple, list)):
        return any(_anysym(v) for v in x)
    if isinstance(x, dict):
        return any(_anysym(v) for v in x.values())
    return False


def _hasown(x):
    """Objects of the code under test, whose text may be symbolic."""
    if isinstance(x, tuple):
        return any(_hasown(v) for v in x)
    if isinstance(x, dict):
        return any(_hasown(v) for v in x.values())
    return type(x).__module__.startswith('uncertainties')


PCT = _re.compile(r'%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d*))?[hlL]?(?P<c>.)',
                  _re.DOTALL)


def sx_mod(a, b):
    if isinstance(a, SymStr):
        a = a.concretize()
    if not isinstance(a, str) or not (_anysym(b) or _hasown(b)):
        return a % b
    args = list(b) if isinstance(b, tuple) else [b]
    out, pos, used = [], 0, 0

    def nxt():
        nonlocal used
        if used >= len(args):
            raise TypeError('not enough arguments for format string')
        used += 1
        return args[used - 1]
    for m in PCT.finditer(a):
        out.extend(a[pos:m.start()])
        pos = m.end()
        c = m.group('c')
        if c == '%':
            out.append('%')
            continue
        w, p = m.group('width'), m.group('prec')
        if w == '*':
            w = nxt()
        if p == '*':
            p = nxt()
        w = w.__index__() if isinstance(w, SymInt) else w
        p = p.__index__() if isinstance(p, SymInt) else p
        if m.group('key') is not None:
            x = b[m.group('key')]
            used = len(args)
        else:
            x = nxt()
        fl = m.group('flags')
        if p == '':
            p = 0
        txt = None
        if c in 'sra':
            txt = {'s': to_str, 'r': s_repr, 'a': s_ascii}[c](x)
            if p is not None:
                txt = txt[:int(p)]
            if w is not None:
                txt = s_format(txt, ('<' if '-' in fl else '>') + str(w))
        elif not _anysym(x):
            txt = ('%' + fl + (str(w) if w is not None else '') + ('.%d' % int(p) if p is not None else '') + c) % x
        elif c in 'di':
            if isinstance(x, SFBase):
                x = SymFloat.__trunc__(x)
            if p is not None:
                raise Unsupported('%.nd')
            txt = s_format(x, _pct_spec(fl, w) + 'd')
        elif c in 'eEfFgG':
            if isinstance(x, SymInt):
                x = SymFloat._new(z3.ToReal(x.t))
            txt = s_format(x, _pct_spec(fl, w) + ('.%d' % int(p) if p is not None else '') + c)
        else:
            raise Unsupported('%%%s of a symbolic value' % c)
        out.extend(items(txt))
    out.extend(a[pos:])
    if used < len(args):
        raise TypeError('not all arguments converted during string formatting')
    return mkstr(out)


def _pct_spec(fl, w):
    s = ''
    if '-' in fl:
        s += '<'
    elif w is not None and '0' not in fl:
        s += '>'
    if '+' in fl:
        s += '+'
    elif ' ' in fl:
        s += ' '
    if '0' in fl and '-' not in fl:
        s += '0'
    return s + (str(w) if w is not None else '')


def sx_in(a, b):
    if isinstance(b, SymStr):
        return a in b
    if isinstance(a, SymStr):
        if isinstance(b, str):
            return SymStr(tuple(b)).find(a) >= 0
        if isinstance(b, (set, frozenset, dict)) or type(b).__name__ in ('dict_keys',):
            for k in b:
                if isstr(k) and bool(a == k):
                    return True
            return False
        if isinstance(b, (tuple, list)):
            for k in b:
                if bool(a == k):
                    return True
            return False
    if isinstance(a, (SFBase, SymInt)) and isinstance(b, (set, frozenset, dict)):
        for k in b:
            if bool(a == k):
                return True
        return False
    return a in b


class _Fmt(_b.object):
    pass


def sx_call(obj, name, *args, **kwargs):
    if isinstance(obj, str):
        if name == 'format' or name == 'format_map':
            if name == 'format_map':
                args, kwargs = (), args[0]
            if any(_anysym(v) or _hasown(v) for v in list(args) + list(kwargs.values())):
                return str_format(obj, args, kwargs)
            return obj.format(*args, **kwargs)
        if name == 'join':
            seq = list(args[0])
            if any(isinstance(s, SymStr) for s in seq):
                return SymStr.join(SymStr(tuple(obj)), seq)
            return obj.join(seq)
        if any(isinstance(v, SymInt) for v in args):
            args = tuple(v.__index__() if isinstance(v, SymInt) else v for v in args)
        if any(isinstance(v, SymStr) for v in args):
            return getattr(SymStr(tuple(obj)), name)(*args, **kwargs)
    if name == 'astype':
        from . import npshim
        if npshim._np is not None and isinstance(obj, npshim._np.ndarray):
            return npshim.astype(obj, *args, **kwargs)
    return getattr(obj, name)(*args, **kwargs)


def str_format(fmt, args, kwargs):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.extend(lit)
        if field is None:
            continue
        m = _re.match(r'([^.\[]*)(.*)$', field, _re.DOTALL)
        head, rest = m.groups()
        if head == '':
            x = args[auto]
            auto += 1
        elif head.isdigit():
            x = args[int(head)]
        else:
            x = kwargs[head]
        for a, i in _re.findall(r'\.([^.\[]+)|\[([^\]]+)\]', rest):
            x = getattr(x, a) if a else x[int(i) if i.isdigit() else i]
        if spec and '{' in spec:
            def sub(m):
                nonlocal auto
                h = m.group(1)
                if h == '':
                    v = args[auto]
                    auto += 1
                elif h.isdigit():
                    v = args[int(h)]
                else:
                    v = kwargs[h]
                return to_native(to_str(v))
            spec = _re.sub(r'\{(\w*)\}', sub, spec)
        if conv == 'r':
            x = s_repr(x)
        elif conv == 's':
            x = to_str(x)
        elif conv == 'a':
            x = s_ascii(x)
        out.extend(items(s_format(x, spec or '')))
    return mkstr(out)


def SymStrFormat(s, a, k):
    return str_format(s.concretize(), a, k)


def sx_fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if conv == 114:
                v = s_repr(v)
            elif conv == 115:
                v = to_str(v)
            elif conv == 97:
                v = s_ascii(v)
            out.extend(items(s_format(v, spec)))
        else:
            out.extend(items(p))
    return mkstr(out)


# ------------------------------------------------------------------ inputs
def fresh_char(name, alphabet):
    e = eng()
    t = z3.Int(name)
    dom = frozenset(map(ord, alphabet))
    ds = sorted(dom)
    if len(ds) == 1:
        return chr(ds[0])
    lo, hi = ds[0], ds[-1]
    e.add(z3.And(t >= lo, t <= hi) if hi - lo + 1 == len(ds) else _inform_full(t, ds))
    return SymCh(t, dom)


def _inform_full(t, ds):
    runs, cur = [], None
    for c in ds:
        if cur and c == cur[1] + 1:
            cur[1] = c
        else:
            cur = [c, c]
            runs.append(cur)
    return z3.Or(*[t == a if a == b else z3.And(t >= a, t <= b) for a, b in runs])


def model_str(model, cs):
    out = []
    for c in items(cs):
        if isinstance(c, str):
            out.append(c)
            continue
        v = model.eval(c.t, model_completion=True)
        cp = v.as_long()
        out.append(chr(cp) if cp in c.dom else chr(sorted(c.dom)[0]))
    return ''.join(out)
