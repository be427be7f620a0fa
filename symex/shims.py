"""Replacements for the builtins and library modules the code under test uses.

Every stub is part of the claim: see DESIGN.md ("stubs").  A function that is
not listed here is the real one; handing it a symbolic value raises Unsupported.
"""
import builtins as _b
import inspect
import math as _math
import types
import sys
from fractions import Fraction
import z3
from . import engine as _e
from .engine import Unsupported, PathAbort, rat, eng
from .values import (ranged, square_term, SFBase, SymBool, SymInt, SymFloat, FloatMeta, issym, num, mk, mkint, mkbool, term, fork,
                     const, quotient, sqrt_term, floor_term, simp, float_pow, sign_of,
                     _bad, intt, _special, is_native_float, _op_mod)

DOM = 'math domain error'


# ------------------------------------------------------------------ math stubs
def _arg(x):
    """Number for a libm function: z3 term or native float."""
    t = num(x)
    if t is None:
        f = getattr(type(x), '__float__', None)
        if f is None:
            raise TypeError('must be real number, not %s' % type(x).__name__)
        return num(f(x)) if not isinstance(x, str) else None
    return t


def memo_fn(name, x, make):
    """One unknown per (function, argument); congruence by Ackermann expansion."""
    e = eng()
    x = simp(x)
    key = ('fn', name, x.get_id())
    got = e.memo.get(key)
    if got is None:
        y = e.fresh(name)
        for k, v in list(e.memo.items()):
            if k[0] == 'fn' and k[1] == name and not (v[1] - x).eq(z3.RealVal(0)):
                d = simp(v[1] - x)
                if const(d) is None:
                    e.add(z3.Implies(v[1] == x, v[0] == y))
        e.memo[key] = got = (y, x)
        make(y, x)
    return got[0]


def canon_sign(x):
    """(sign, canonical) so that x and -x share one unknown."""
    x = simp(x)
    n = simp(-x)
    def lead_neg(t):
        f = const(t)
        if f is not None:
            return f < 0
        if z3.is_add(t):
            cs = [c for c in t.children() if const(c) is None]
            return lead_neg(cs[0]) if cs else False
        if z3.is_mul(t):
            return lead_neg(t.children()[0])
        return False
    if lead_neg(x) and not lead_neg(n):
        return -1, n
    return 1, x


def trig(x):
    """(sin, cos)"""
    s, c = canon_sign(x)
    C = [None]

    def mks(y, xx):
        co = eng().fresh('cos')
        eng().add(z3.And(y * y + co * co == 1, y <= 1, y >= -1, co <= 1, co >= -1))
        eng().add(z3.Implies(xx == 0, z3.And(y == 0, co == 1)))
        # sign of sin on (-3, 3), where it is unambiguous
        eng().add(z3.Implies(z3.And(xx > 0, xx < 3), y > 0))
        eng().add(z3.Implies(z3.And(xx < 0, xx > -3), y < 0))
        eng().add(z3.Implies(z3.And(xx < Fr('3/2'), xx > Fr('-3/2')), co > 0))
        eng().memo[('cos', xx.get_id())] = (co, xx)
    S = memo_fn('sin', c, mks)
    co = eng().memo[('cos', simp(c).get_id())][0]
    return (S if s > 0 else -S), co


def Fr(s):
    return rat(Fraction(s))


PPT = Fraction(1, 10 ** 12)
STEPS = (1, 10, 20, 100, 200, 300, 350, 360, 400, 500, 600, 700)


def limits(name, x):
    """Overflow and underflow of exponentials, in the tasks that ask for them: 0.0 or None."""
    if not eng().ieee:
        return None
    top = rat(Fraction(_math.log(2) * 1024) + (0 if name in ('exp', 'expm1') else Fraction(_math.log(2))))
    if fork(x >= top) or name in ('sinh', 'cosh') and fork(x <= -top):
        raise OverflowError('math range error')
    if name == 'exp' and fork(x <= -745 - Fr('0.2')):
        return 0.0
    if name == 'exp' and fork(x <= -708):
        raise PathAbort('subnormal')
    return None


def hyper(x):
    """(sinh, cosh)"""
    s, c = canon_sign(x)

    def mks(y, xx):
        ch = eng().fresh('cosh')
        eng().add(z3.And(ch * ch - y * y == 1, ch >= 1))
        eng().add(z3.And((y > 0) == (xx > 0), (y == 0) == (xx == 0), (ch == 1) == (xx == 0)))
        eng().memo[('cosh', xx.get_id())] = (ch, xx)
        if eng().ieee:
            for k in STEPS:
                v = Fraction(_math.cosh(k))
                eng().add(z3.Implies(z3.Or(xx >= k, xx <= -k), ch >= rat(v * (1 - PPT))))
                eng().add(z3.Implies(z3.And(xx <= k, xx >= -k), ch <= rat(v * (1 + PPT))))
    S = memo_fn('sinh', c, mks)
    ch = eng().memo[('cosh', simp(c).get_id())][0]
    return (S if s > 0 else -S), ch


def ln(x):
    """natural logarithm of a positive term"""
    def mks(y, xx):
        eng().add(z3.And((y > 0) == (xx > 1), (y == 0) == (xx == 1)))
    f = const(simp(x))
    if f is not None:
        return num(_math.log(f))
    e = eng()
    y = memo_fn('ln', x, mks)
    return y


def _need(cond):
    if not fork(cond):
        raise ValueError(DOM)


def _fin(name, x, native):
    """Dispatch: native numbers go to libm; returns z3 term otherwise."""
    if not issym(x):
        return None
    return _arg(x)


class MathFn:
    """A libm function; carries the name, doc and signature of the original."""

    def __init__(self, orig, fn):
        self._orig = orig
        self._fn = fn
        self.__name__ = orig.__name__
        self.__doc__ = orig.__doc__
        self.__module__ = 'math'
        self.__qualname__ = orig.__name__
        try:
            self.__signature__ = inspect.signature(orig)
        except (ValueError, TypeError):
            self.__signature__ = 'none'

    def __call__(self, *args, **kwargs):
        if not any(issym(a) for a in args) and not _hasseqsym(args):
            return self._orig(*args, **kwargs)
        if kwargs:
            raise TypeError('%s() takes no keyword arguments' % self.__name__)
        try:
            return self._fn(*args)
        except TypeError as exc:
            # wrong arity: same exception as the original
            raise TypeError('%s(): %s' % (self.__name__, exc))

    def __repr__(self):
        return '<built-in function %s>' % self.__name__

    def __reduce__(self):
        return 'math.' + self.__name__


def _hasseqsym(args):
    return any(isinstance(a, (list, tuple)) and any(issym(v) for v in a) for a in args)


def one(fn, name=None):
    """Unary libm function of a (finite) term."""
    def g(x, /):
        t = _arg(x)
        r = name and limits(name, t)
        return mk(fn(t)) if r is None else r
    return g


def m_sqrt(x, /):
    x = _arg(x)
    _need(x >= 0)
    return mk(sqrt_term(x))


def f_exp(x):
    s, c = hyper(x)
    y = s + c
    eng().add(y > 0)
    return y


def f_log(x):
    _need(x > 0)
    return ln(x)


def m_log(x, base=None, /):
    if not issym(x):
        lx = num(_math.log(x)) if x > 0 else None
        if lx is None or isinstance(lx, float):
            return _math.log(x)
    else:
        lx = f_log(_arg(x))
    if base is None:
        return mk(lx)
    b = _arg(base)
    if _bad(b):
        return mk(lx) / _math.log(b)
    lb = f_log(b)
    if fork(lb == 0):
        raise ZeroDivisionError('division by zero')
    return mk(quotient(lx, lb))


def log10_term(x):
    """log10 with window axioms when the engine asks for them."""
    e = eng()
    f = const(simp(x))
    if f is not None:
        # exact powers of ten stay exact
        k = _floor_log10(f)
        if Fraction(10) ** k == f:
            return rat(k)
    if e.log10_window is not None:
        x = simp(x)
        k = log10_decade(x)
        got = e.memo.get(('log10', x.get_id()))
        if got is None:
            L = e.fresh('log10')
            e.add(z3.And(L >= k, L < k + 1, (L == k) == (x == rat(Fraction(10) ** k))))
            e.memo[('log10', x.get_id())] = got = (L, x)
            e.memo[('floor', L.get_id())] = (z3.IntVal(k), L)
        return got[0]
    return quotient(ln(x), num(_math.log(10)))


def log10_decade(x):
    """k with 10^k <= x < 10^(k+1), x > 0, by forking over the window."""
    e = eng()
    x = simp(x)
    f = const(x)
    if f is not None:
        return _floor_log10(f)
    key = ('decade', x.get_id())
    got = e.memo.get(key)
    if got is not None:
        return got[0]
    lo, hi = e.log10_window or (-12, 16)

    def inside(k):
        return z3.And(x >= rat(Fraction(10) ** k), x < rat(Fraction(10) ** (k + 1)))

    def feas():
        r = []
        while True:
            e.stats.queries += 1
            e.solver.push()
            for k in r:
                e.solver.add(z3.Not(inside(k)) if k is not None else
                             z3.And(x >= rat(Fraction(10) ** lo), x < rat(Fraction(10) ** (hi + 1))))
            res = e.solver.check()
            m = e.solver.model() if res == z3.sat else None
            e.solver.pop()
            if res == z3.unsat:
                return sorted([k for k in r if k is not None]) + ([None] if None in r else [])
            v = None
            if m is not None:
                v = m.eval(x, model_completion=True)
                if z3.is_algebraic_value(v):
                    v = v.approx(30)
                v = const(v)
            if v is None or v <= 0:
                # undecided: fall back on asking for each decade
                r = [k for k in range(lo, hi + 1) if e._check(inside(k)) != z3.unsat]
                out = z3.Or(x < rat(Fraction(10) ** lo), x >= rat(Fraction(10) ** (hi + 1)))
                return r + ([None] if e._check(out) != z3.unsat else [])
            k = _floor_log10(v)
            k = None if k < lo or k > hi else k
            if k in r:
                raise Unsupported('decade enumeration')
            r.append(k)
    k = e._decide(('l', x.hash()), feas)
    if k is None:
        raise PathAbort('outside the decimal exponent window')
    e.add(inside(k))
    e.memo[key] = (k, x)
    return k


def _floor_log10(f):
    f = Fraction(f)
    k = len(str(f.numerator)) - len(str(f.denominator))
    while Fraction(10) ** k > f:
        k -= 1
    while Fraction(10) ** (k + 1) <= f:
        k += 1
    return k


def m_log10(x, /):
    x = _arg(x)
    _need(x > 0)
    return mk(log10_term(x))


def m_log2(x, /):
    x = _arg(x)
    _need(x > 0)
    return mk(quotient(ln(x), num(_math.log(2))))


def m_log1p(x, /):
    x = _arg(x)
    _need(x > -1)
    return mk(ln(1 + x))


def m_tan(x, /):
    s, c = trig(_arg(x))
    eng().add(c != 0)         # no double is an exact odd multiple of pi/2
    return mk(quotient(s, c))


def m_tanh(x, /):
    s, c = hyper(_arg(x))
    return mk(quotient(s, c))


PI = rat(_math.pi)


def inv_odd(name, facts):
    def g(x, /):
        x = _arg(x)
        s, c = canon_sign(x)

        def mks(y, xx):
            eng().add(z3.And((y > 0) == (xx > 0), (y == 0) == (xx == 0)))
            facts(y, xx)
        y = memo_fn(name, c, mks)
        return mk(y if s > 0 else -y)
    return g


def m_asin(x, /):
    t = _arg(x)
    _need(z3.And(t <= 1, t >= -1))
    return inv_odd('asin', lambda y, x: eng().add(z3.And(y <= PI / 2, y >= -PI / 2)))(x)


def m_acos(x, /):
    return mk(PI / 2 - term(m_asin(x)))


m_atan = inv_odd('atan', lambda y, x: eng().add(z3.And(y < PI / 2, y > -PI / 2)))
m_asinh = inv_odd('asinh', lambda y, x: None)


def m_acosh(x, /):
    t = _arg(x)
    _need(t >= 1)
    return mk(memo_fn('acosh', t, lambda y, xx: eng().add(
        z3.And(y >= 0, (y == 0) == (xx == 1)))))


def m_atanh(x, /):
    t = _arg(x)
    _need(z3.And(t < 1, t > -1))
    return inv_odd('atanh', lambda y, x: None)(x)


def m_atan2(y, x, /):
    y, x = _arg(y), _arg(x)
    if _bad(y) or _bad(x):
        sy = y if _bad(y) else float(sign_of(y))
        sx = x if _bad(x) else float(sign_of(x))
        return _math.atan2(sy, sx)
    e = eng()
    key = ('atan2', simp(y).get_id(), simp(x).get_id())
    got = e.memo.get(key)
    if got is None:
        t = e.fresh('atan2')
        e.add(z3.And(t <= PI, t >= -PI, z3.Implies(y > 0, t > 0), z3.Implies(y < 0, t < 0),
                     z3.Implies(z3.And(y == 0, x >= 0), t == 0),
                     z3.Implies(z3.And(y == 0, x < 0), t == PI)))
        got = e.memo[key] = (t, simp(y), simp(x))
    return mk(got[0])


def m_hypot(*xs):
    tot = 0.0
    ts = [_arg(x) for x in xs]
    if any(_bad(t) for t in ts):
        return _math.hypot(*[t if _bad(t) else 1.0 for t in ts])
    acc = z3.RealVal(0)
    for t, x in zip(ts, xs):
        acc = acc + square_term(x)
    nonzero = [(t, x) for t, x in zip(ts, xs) if const(t) != 0]
    if len(nonzero) == 1:
        t, x = nonzero[0]
        if getattr(x, 'absof', None) is not None:
            r = mk(t)
            r.absof = x.absof
            return r
        if t.get_id() in eng().nonnegs:
            return mk(t)
    return ranged(mk(sqrt_term(simp(acc))), False)


def m_copysign(x, y, /):
    x, y = _arg(x), _arg(y)
    if _bad(y):
        neg = _math.copysign(1, y) < 0
    elif not issym_term(y):
        neg = const(y) < 0
    else:
        neg = None
    if _bad(x):
        if neg is None:
            neg = not fork(y >= 0)
        return _math.copysign(x, -1.0 if neg else 1.0)
    a = z3.If(x >= 0, x, -x)
    if neg is None:
        return mk(z3.If(y >= 0, a, -a))
    return mk(-a if neg else a)


def issym_term(t):
    return const(t) is None


def m_fmod(x, y, /):
    x, y = _arg(x), _arg(y)
    if _bad(x) or _bad(y):
        if _bad(y) and not _bad(x):
            if y != y:
                return y
            return mk(x)
        sy = y if _bad(y) else float(sign_of(y))
        return _math.fmod(x, sy)
    _need(y != 0)
    # sign of x, magnitude of the remainder
    ay = y if fork(y > 0) else simp(-y)
    if fork(x >= 0):
        return _op_mod(x, ay)
    return -_op_mod(simp(-x), ay)


def m_modf(x, /):
    t = _arg(x)
    i = SymFloat.__trunc__(mk(t))
    it = rat(i) if isinstance(i, int) else z3.ToReal(i.t)
    return (mk(t - it), mk(it))


def m_frexp(x, /):
    t = _arg(x)
    if fork(t == 0):
        return (0.0, 0)
    e = eng()
    lo, hi = e.exp2_window
    t = simp(t)
    a = t if fork(t > 0) else simp(-t)
    P = lambda k: rat(Fraction(2) ** k)

    def feas():
        r = [k for k in range(lo, hi + 1)
             if e._check(z3.And(a >= P(k - 1), a < P(k))) != z3.unsat]
        if e._check(z3.Or(a < P(lo - 1), a >= P(hi))) != z3.unsat:
            r.append(None)
        return r
    k = e._decide(('frexp', t.hash()), feas)
    if k is None:
        raise PathAbort('outside the binary exponent window')
    e.add(z3.And(a >= P(k - 1), a < P(k)))
    return (mk(t * P(-k)), k)


def m_ldexp(x, i, /):
    if isinstance(i, float) or isinstance(i, SFBase):
        raise TypeError('Expected an int as second argument to ldexp.')
    t = _arg(x)
    k = i.__index__()
    return mk(t * rat(Fraction(2) ** k)) if not _bad(t) else t


def m_fsum(seq, /):
    tot = 0.0
    for v in seq:
        tot = tot + v
    return tot if not isinstance(tot, int) else float(tot)


def m_pow(x, y, /):
    a, b = _arg(x), _arg(y)
    try:
        if _bad(a) or _bad(b):
            r = _special('pow', a, b)
        else:
            r = float_pow(a, b)
    except ZeroDivisionError:
        raise ValueError(DOM)
    if isinstance(r, complex):
        raise ValueError(DOM)
    return r


def m_floor(x, /):
    if isinstance(x, SymInt):
        return x
    return SymFloat.__floor__(x)


def m_ceil(x, /):
    if isinstance(x, SymInt):
        return x
    return SymFloat.__ceil__(x)


def m_trunc(x, /):
    return x.__trunc__()


def m_fabs(x, /):
    r = abs(x)
    return r if isinstance(r, SFBase) else mk(num(r))


def smooth(name):
    """gamma, lgamma: an arbitrary quadratic near the point.  Assumes only local
    smoothness; the coefficients are shared with the specification."""
    def g(x, /):
        t = _arg(x)
        a, b, c = smooth_coefs(name)
        # domain: excludes the poles
        if name in ('gamma', 'lgamma'):
            _need(z3.Not(z3.And(t <= 0, z3.IsInt(t))) if const(t) is not None else t > 0)
        return mk(a + b * t + c * t * t)
    return g


def smooth_coefs(name):
    e = eng()
    key = ('smooth', name)
    got = e.memo.get(key)
    if got is None:
        got = e.memo[key] = tuple(e.fresh(name + k) for k in 'abc')
    return got


def m_erf(x, /):
    s, c = canon_sign(_arg(x))

    def mks(y, xx):
        eng().add(z3.And(y < 1, y > -1, (y > 0) == (xx > 0), (y == 0) == (xx == 0)))
    y = memo_fn('erf', c, mks)
    return mk(y if s > 0 else -y)


def m_factorial(x, /):
    if isinstance(x, SFBase):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return _math.factorial(x.__index__())


SIMPLE = {
    'sqrt': m_sqrt,
    'exp': one(f_exp, 'exp'),
    'expm1': one(lambda x: f_exp(x) - 1, 'expm1'),
    'log': m_log, 'log10': m_log10, 'log2': m_log2, 'log1p': m_log1p,
    'sin': one(lambda x: trig(x)[0]), 'cos': one(lambda x: trig(x)[1]), 'tan': m_tan,
    'sinh': one(lambda x: hyper(x)[0], 'sinh'), 'cosh': one(lambda x: hyper(x)[1], 'cosh'), 'tanh': m_tanh,
    'asin': m_asin, 'acos': m_acos, 'atan': m_atan,
    'asinh': m_asinh, 'acosh': m_acosh, 'atanh': m_atanh, 'atan2': m_atan2,
    'hypot': m_hypot, 'copysign': m_copysign, 'fmod': m_fmod, 'modf': m_modf,
    'frexp': m_frexp, 'ldexp': m_ldexp, 'fsum': m_fsum, 'pow': m_pow,
    'floor': m_floor, 'ceil': m_ceil, 'trunc': m_trunc, 'fabs': m_fabs,
    'gamma': smooth('gamma'), 'lgamma': smooth('lgamma'),
    'erf': m_erf, 'erfc': lambda x, /: 1 - m_erf(x),
    'degrees': lambda x, /: x * (180 / _math.pi), 'radians': lambda x, /: x * (_math.pi / 180),
    'isnan': lambda x, /: False, 'isinf': lambda x, /: False, 'isfinite': lambda x, /: True,
    'factorial': m_factorial,
}


class MathModule(types.ModuleType):
    pass


def make_math():
    m = MathModule('math')
    for k in dir(_math):
        v = getattr(_math, k)
        if k in SIMPLE:
            v = MathFn(v, SIMPLE[k])
        if k.startswith('__') and k not in ('__doc__', '__name__'):
            continue
        setattr(m, k, v)
    return m


MATH = make_math()


# ------------------------------------------------------------------ builtins
class IntMeta(type):
    def __call__(cls, *args, **kwargs):
        if len(args) == 1 and not kwargs:
            x = args[0]
            from . import strings
            if isinstance(x, SymInt):
                return x
            if isinstance(x, SFBase):
                return SymFloat.__trunc__(x)
            if isinstance(x, SymBool):
                return x._as_int()
            if isinstance(x, strings.SymStr):
                return x._to_int()
        return int(*args, **kwargs)

    def __instancecheck__(cls, inst):
        return isinstance(inst, int) or isinstance(inst, SymInt)

    def __subclasscheck__(cls, sub):
        return issubclass(sub, (int, SymInt))

    def __getattr__(cls, name):
        return getattr(int, name)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class IntShim(metaclass=IntMeta):
    pass


class StrMeta(type):
    def __call__(cls, *args, **kwargs):
        from . import strings
        if len(args) == 1 and not kwargs:
            x = args[0]
            if isinstance(x, strings.SymStr):
                return x
            return strings.to_str(x)
        return str(*args, **kwargs)

    def __instancecheck__(cls, inst):
        from . import strings
        return isinstance(inst, (str, strings.SymStr))

    def __subclasscheck__(cls, sub):
        from . import strings
        return issubclass(sub, (str, strings.SymStr))

    def __getattr__(cls, name):
        return getattr(str, name)

    def __eq__(cls, o):
        return o is cls or o is str

    def __hash__(cls):
        return hash(str)


class StrShim(metaclass=StrMeta):
    pass


def s_id(x):
    if _e.CURRENT is None:
        return id(x)
    return eng().det_id(x)


def s_round(x, n=None):
    if isinstance(n, SymInt) and not isinstance(x, SFBase):
        n = n.__index__()
    return round(x, n) if n is not None else round(x)


def s_isinstance(x, c):
    return isinstance(x, _mapcls(c))


def _mapcls(c):
    return c


def s_sum(it, start=0):
    r = start
    for v in it:
        r = r + v
    return r


def s_hash(x):
    return hash(x)


def s_pow(x, y, m=None):
    return pow(x, y) if m is None else pow(x, y, m)


def s_divmod(x, y):
    return divmod(x, y)
