"""Symbolic Python values: SymBool, SymInt, SymFloat (z3 Real theory).

A SymFloat stands for every finite real number satisfying the path condition.
NaN and infinities appear only as native floats (harnesses case-split on them).
Operators mirror CPython's float protocol: same exceptions, NotImplemented for
foreign operands, a result that is complex for a negative base with a
fractional exponent.
"""
import math as _math
import numbers
from fractions import Fraction
import z3
from . import engine as _e
from .engine import Unsupported, PathAbort, rat, eng

_float = float
_int = int

try:
    import numpy as _np
    _NPFLOAT = (_np.floating,)
    _NPINT = (_np.integer,)
    _NPBOOL = (_np.bool_,)
except ImportError:                                     # pragma: no cover
    _NPFLOAT = _NPINT = _NPBOOL = ()


def simp(t):
    # kept alive across paths: simplification orders arguments by term identity
    al = eng().simped
    i = t.get_id()
    got = al.get(i)
    if got is None:
        global SIMP
        if SIMP is None:
            SIMP = z3.args2params((), dict(som=True, sort_sums=True), t.ctx)
        r = z3.z3._to_expr_ref(z3.Z3_simplify_ex(t.ctx_ref(), t.as_ast(), SIMP.params), t.ctx)
        got = al[i] = (r, t)
        al.setdefault(r.get_id(), (r, r))
    return got[0]


SIMP = None


# ---------------------------------------------------------------- SymBool
class SymBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().branch(self.t)

    def __and__(self, o):
        o = boolt(o)
        return NotImplemented if o is None else mkbool(z3.And(self.t, o))
    __rand__ = __and__

    def __or__(self, o):
        o = boolt(o)
        return NotImplemented if o is None else mkbool(z3.Or(self.t, o))
    __ror__ = __or__

    def __xor__(self, o):
        o = boolt(o)
        return NotImplemented if o is None else mkbool(z3.Xor(self.t, o))
    __rxor__ = __xor__

    def __eq__(self, o):
        o = boolt(o)
        return NotImplemented if o is None else mkbool(self.t == o)

    def __ne__(self, o):
        o = boolt(o)
        return NotImplemented if o is None else mkbool(self.t != o)

    def __hash__(self):
        return hash(bool(self))

    def _as_int(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self._as_int() + o
    def __radd__(self, o): return o + self._as_int()
    def __sub__(self, o): return self._as_int() - o
    def __rsub__(self, o): return o - self._as_int()
    def __mul__(self, o): return self._as_int() * o
    def __rmul__(self, o): return o * self._as_int()
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))
    def __repr__(self): return '<symbool>'


def boolt(o):
    if isinstance(o, SymBool):
        return o.t
    if isinstance(o, (bool,) + _NPBOOL):
        return z3.BoolVal(bool(o))
    return None


def mkbool(t):
    t = eng().simp0(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def sym_not(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.t))
    return not x


def sym_and(*xs):
    r = True
    for x in xs:
        r = r & x if isinstance(r, SymBool) or isinstance(x, SymBool) else (r and x)
    return r


def sym_or(*xs):
    r = False
    for x in xs:
        r = r | x if isinstance(r, SymBool) or isinstance(x, SymBool) else (r or x)
    return r


# ---------------------------------------------------------------- helpers
def is_native_float(x):
    return isinstance(x, _float) or (_NPFLOAT and isinstance(x, _NPFLOAT))


def issym(x):
    return isinstance(x, (SFBase, SymInt, SymBool))


_ast_kind = z3.z3.Z3_get_ast_kind


def frac_of(t):
    """Fraction of a z3 rational numeral, or None."""
    if _ast_kind(t.ctx_ref(), t.ast) != z3.Z3_NUMERAL_AST:
        return None
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return None


def num(x):
    """z3 Real term, or a native non-finite float, or None if not a number."""
    if isinstance(x, _SF):
        return x.t
    if isinstance(x, SymInt):
        return z3.ToReal(x.t)
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (bool,) + _NPBOOL):
        return rat(_int(x))
    if isinstance(x, (_int,) + _NPINT):
        return rat(_int(x))
    if is_native_float(x):
        x = _float(x)
        if x != x or x in (_math.inf, -_math.inf):
            return x
        return rat(x)
    if isinstance(x, Fraction):
        return rat(x)
    return None


def term(x):
    t = num(x)
    if t is None or isinstance(t, _float):
        raise Unsupported('term(%r)' % (x,))
    return t


def mk(t):
    f = frac_of(t)
    if f is not None and not eng().exact:
        try:
            v = _float(f)
            if Fraction(repr(v)) == f:
                return v
        except (ValueError, OverflowError):
            pass
    return SymFloat._new(t)


BIG = Fraction(2) ** 1024
TINY = Fraction(2) ** -1022


def ranged(r, power):
    """The overflow and underflow of machine floats, in the tasks that ask for them
    (results between 2**-1074 and 2**-1022 are outside the bounds)."""
    if not isinstance(r, _SF) or not eng().ieee:
        return r
    t = r.t
    if fork(z3.Or(t >= rat(BIG), t <= rat(-BIG))):
        if power:
            raise OverflowError(34, 'Numerical result out of range')
        return _math.inf if fork(t > 0) else -_math.inf
    if fork(z3.And(t < rat(TINY), t > rat(-TINY), t != 0)):
        if fork(z3.And(t < rat(TINY / 2 ** 53), t > rat(-TINY / 2 ** 53))):
            return 0.0
        raise _e.PathAbort('subnormal')
    return r


def const(t):
    return frac_of(t)


def fork(t):
    return eng().branch(t)


def sign_of(t):
    """-1, 0, 1 by forking."""
    f = frac_of(t)
    if f is not None:
        return (f > 0) - (f < 0)
    if fork(t > 0):
        return 1
    return 0 if fork(t == 0) else -1


def factors(t):
    """Factors of a product."""
    out, todo = [], [t]
    while todo:
        a = todo.pop()
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_MUL:
            todo += reversed(a.children())
        else:
            out.append(a)
    return out


def product(fs):
    r = None
    for f in fs:
        r = f if r is None else r * f
    return z3.RealVal(1) if r is None else r


def quotient(a, b):
    """Real quotient a/b, b known non zero on this path."""
    fb = const(b)
    if fb is not None:
        fa = const(a)
        if fa is not None:
            return rat(fa / fb)
        return a * rat(1 / fb)
    e = eng()
    if a.eq(b):
        return z3.RealVal(1)
    fs = factors(a)
    if len(fs) > 1:
        for i, f in enumerate(fs):
            if f.eq(b):
                return product(fs[:i] + fs[i + 1:])
    key = ('div', a.get_id(), b.get_id())
    got = e.memo.get(key)
    if got is None:
        q = e.fresh('q')
        e.add(q * b == a)
        got = e.memo[key] = (q, a, b)
    return got[0]


def sqrt_term(v):
    """s >= 0 with s*s == v; v known >= 0 on this path."""
    f = const(v)
    if f is not None:
        import math
        n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
        if n * n == f.numerator and d * d == f.denominator:
            return rat(Fraction(n, d))
    e = eng()
    v = simp(v)
    fs = factors(v)
    if len(fs) > 1:
        # square of a product of numbers that are not negative
        odd, root = {}, []
        for a in fs:
            if odd.pop(a.get_id(), None) is None:
                odd[a.get_id()] = a
            else:
                root.append(a)
        c = [const(a) for a in odd.values()]
        if (not c or len(c) == 1 and c[0] is not None and c[0] >= 0) and all(a.get_id() in e.nonnegs for a in root):
            return product(root) if not c else sqrt_term(rat(c[0])) * product(root)
    key = ('sqrt', v.get_id())
    got = e.memo.get(key)
    if got is None:
        s = e.fresh('s')
        e.add(z3.And(s >= 0, s * s == v))
        e.nonnegs[s.get_id()] = s
        got = e.memo[key] = (s, v)
        e.memo['square', s.get_id()] = v
    return got[0]


def square_term(x):
    """x*x for a number x, without the square roots and absolute values."""
    a = getattr(x, 'absof', None)
    t = term(x) if a is None else a
    got = eng().memo.get(('square', t.get_id()))
    return t * t if got is None else got


def int_pow(a, n):
    """a**n for a python int n; a non zero if n < 0."""
    if n == 0:
        return z3.RealVal(1)
    m = abs(n)
    if m > 64:
        raise Unsupported('power %d' % n)
    fa = const(a)
    if fa is not None:
        return rat(fa ** n)
    r = a
    for _ in range(m - 1):
        r = r * a
    return r if n > 0 else quotient(z3.RealVal(1), r)


def pow_sym(x, y):
    """x**y for x>0 and a non-numeral y: canonical P(x, y0)*x**n."""
    y = simp(y)
    n = 0
    if z3.is_add(y):
        cs = [c for c in y.children() if const(c) is not None]
        if cs:
            n = _math.floor(const(cs[0]))
            y = simp(y - rat(n))
    e = eng()
    x = simp(x)
    inv = False
    fx = const(x)
    key = ('pow', x.get_id(), y.get_id())
    got = e.memo.get(key)
    if got is None:
        p = e.fresh('p')
        e.add(p > 0)
        e.add(z3.Implies(y == 0, p == 1))
        e.add(z3.Implies(x == 1, p == 1))
        e.add(z3.Implies(y == 1, p == x))
        e.add(z3.Implies(z3.And(x > 1, y > 0), p > 1))
        e.add(z3.Implies(z3.And(x < 1, y > 0), p < 1))
        e.add(z3.Implies(z3.And(x > 1, y < 0), p < 1))
        e.add(z3.Implies(z3.And(x < 1, y < 0), p > 1))
        for k, v in list(e.memo.items()):
            if k[0] == 'pow':
                e.add(z3.Implies(z3.And(v[1] == x, v[2] == y), v[0] == p))
        got = e.memo[key] = (p, x, y)
    r = got[0]
    return r if n == 0 else (r * int_pow(x, n) if n > 0 else quotient(r, int_pow(x, -n)))


def neg_base_int_pow(a, b):
    """a**b for a<0 and b an integer by path condition (b symbolic)."""
    e = eng()
    a, b = simp(a), simp(b)
    n = 0
    b0 = b
    if z3.is_add(b):
        cs = [c for c in b.children() if const(c) is not None]
        if cs:
            n = _math.floor(const(cs[0]))
            b0 = simp(b - rat(n))
    key = ('npow', a.get_id(), b0.get_id())
    got = e.memo.get(key)
    if got is None:
        p = e.fresh('np')
        j = e.fresh('npj', 'int')
        odd = e.fresh('npo', 'bool')
        e.add(b0 == z3.ToReal(2 * j) + z3.If(odd, z3.RealVal(1), z3.RealVal(0)))
        e.add(z3.If(odd, p < 0, p > 0))
        e.add(z3.Implies(b0 == 0, p == 1))
        e.add(z3.Implies(b0 == 1, p == a))
        e.add(z3.Implies(b0 == 2, p == a * a))
        got = e.memo[key] = (p, a, b0)
    r = got[0]
    return r if n == 0 else (r * int_pow(a, n) if n > 0 else quotient(r, int_pow(a, -n)))


COMPLEX = complex(_math.nan, 1.0)


def float_pow(a, b):
    """Python's float ** float on z3 terms; returns python-level value."""
    fb = const(b)
    if fb is not None:
        if fb.denominator == 1:
            if fb < 0 and fork(a == 0):
                raise ZeroDivisionError('0.0 cannot be raised to a negative power')
            return mk(int_pow(a, int(fb)))
        s = sign_of(a)
        if s == 0:
            if fb < 0:
                raise ZeroDivisionError('0.0 cannot be raised to a negative power')
            return 0.0
        if s < 0:
            return COMPLEX
        if fb.denominator == 2 and abs(fb.numerator) <= 9:
            r = sqrt_term(a)
            return mk(int_pow(r, fb.numerator))
        return mk(pow_sym(a, b))
    fa = const(a)
    s = sign_of(a)
    if s > 0:
        if fa == 1:
            return 1.0
        if fork(b == 0):
            return 1.0
        return mk(pow_sym(a, b))
    if s == 0:
        sb = sign_of(b)
        if sb < 0:
            raise ZeroDivisionError('0.0 cannot be raised to a negative power')
        return 1.0 if sb == 0 else 0.0
    # negative base
    if fork(z3.IsInt(b)):
        return mk(neg_base_int_pow(a, b))
    return COMPLEX


def window_int(x, why):
    """Integer k with k <= x < k+1; forked when the engine has a window."""
    e = eng()
    f = const(x)
    if f is not None:
        return _math.floor(f)
    if e.kwin is None:
        return None
    lo, hi = e.kwin
    x = simp(x)
    key = ('kwin', x.get_id())
    got = e.memo.get(key)
    if got is not None:
        return got[0]
    opts = []
    for k in range(lo, hi + 1):
        opts.append(k)

    def feas():
        r = []
        for k in opts:
            if e._check(z3.And(x >= k, x < k + 1)) != z3.unsat:
                r.append(k)
        out = z3.Or(x < lo, x >= hi + 1)
        if e._check(out) != z3.unsat:
            r.append(None)
        return r
    k = e._decide(('k', x.hash()), feas)
    if k is None:
        raise PathAbort('outside the integer window (%s)' % why)
    e.add(z3.And(x >= k, x < k + 1))
    e.memo[key] = (k, x)
    return k


def floor_quot(a, b):
    """floor(a/b) with b != 0 on this path, as a python int or SymInt."""
    q = quotient(a, b)
    k = window_int(q, 'floor division')
    if k is not None:
        # give the solver the multiplication-free form as well
        return k
    e = eng()
    kk = e.fresh('k', 'int')
    e.add(z3.And(z3.ToReal(kk) <= q, q < z3.ToReal(kk) + 1))
    return SymInt(kk)


def floor_term(x):
    k = window_int(x, 'floor')
    if k is not None:
        return k
    e = eng()
    x = simp(x)
    key = ('floor', x.get_id())
    got = e.memo.get(key)
    if got is None:
        kk = e.fresh('k', 'int')
        e.add(z3.And(z3.ToReal(kk) <= x, x < z3.ToReal(kk) + 1))
        got = e.memo[key] = (kk, x)
    return SymInt(got[0])


def round_term(x):
    """Round half even of a real term, as python int or SymInt."""
    e = eng()
    f = const(x)
    if f is not None:
        return round(f)
    x = simp(x)
    key = ('round', x.get_id())
    got = e.memo.get(key)
    if got is None:
        k = e.fresh('rk', 'int')
        d = x - z3.ToReal(k)
        e.add(z3.And(2 * d <= 1, 2 * d >= -1))
        e.add(z3.Implies(z3.Or(2 * d == 1, 2 * d == -1), k % 2 == 0))
        prev = e.memo.setdefault(('rounds',), [])
        for k2, x2 in prev[-6:]:        # rounding is monotonic: lemmas for the solver
            e.add(z3.And(z3.Implies(x <= x2, k <= k2), z3.Implies(x >= x2, k >= k2)))
        prev.append((k, x))
        got = e.memo[key] = (k, x)
    return SymInt(got[0])


# ---------------------------------------------------------------- float class
class FloatMeta(type):
    """`float` as the code under test sees it."""

    def __call__(cls, *args, **kwargs):
        if len(args) > 1 or kwargs:
            raise TypeError('float expected at most 1 argument')
        x = args[0] if args else 0.0
        from . import strings
        v = None
        if isinstance(x, _SF):
            v = x.t
        elif isinstance(x, (SymInt, SymBool)):
            v = num(x)
        elif isinstance(x, strings.SymStr):
            v = x._to_float()
            if isinstance(v, _SF):
                v = v.t
        if v is not None and not isinstance(v, _float):
            return cls._new(v)
        if v is None:
            if type(x).__name__ == 'AffineScalarFunc' or hasattr(type(x), '__float__'):
                v = _float(x) if not hasattr(type(x), '_is_shadow_') else type(x).__float__(x)
            else:
                v = _float(x)
        if isinstance(v, _SF):
            return v if cls is SymFloat else cls._new(v.t)
        if cls is SymFloat:
            return v
        return cls._twin()(v)

    def __instancecheck__(cls, inst):
        if type.__instancecheck__(cls, inst):
            return True
        if cls is SymFloat:
            return isinstance(inst, _float)
        tw = cls.__dict__.get('_twin_class_')
        return tw is not None and isinstance(inst, tw)

    def __subclasscheck__(cls, sub):
        if type.__subclasscheck__(cls, sub):
            return True
        if cls is SymFloat:
            try:
                return issubclass(sub, _float)
            except TypeError:
                return False
        return False

    def __getattr__(cls, name):
        return getattr(_float, name)

    def __eq__(cls, other):
        return cls is other or (cls in _ROOTS() and other in _ROOTS())

    def __hash__(cls):
        return hash(_float) if cls.__dict__.get('_is_root_') else type.__hash__(cls)


def _selfnum(x, opname):
    if isinstance(x, _SF):
        return x.t
    if isinstance(x, _float):
        return num(x)
    raise TypeError("descriptor '%s' requires a 'float' object but received a '%s'"
                    % (opname, type(x).__name__))


class SFBase:
    """Plain base: isinstance(x, SFBase) is true for symbolic floats only."""


class SymFloat(SFBase, metaclass=FloatMeta):
    _is_root_ = True

    @classmethod
    def _new(cls, t):
        o = object.__new__(SymFloatV if cls is SymFloat else cls)
        o.t = t
        o.absof = None
        return o

    @classmethod
    def _twin(cls):
        tw = cls.__dict__.get('_twin_class_')
        if tw is None:
            ns = {}
            for c in reversed(cls.__mro__):
                if c is SymFloat or c in SymFloat.__mro__:
                    continue
                for k, v in c.__dict__.items():
                    if k not in ('__dict__', '__weakref__', '_twin_class_', '__slots__'):
                        ns[k] = v
            ns['__module__'] = cls.__module__
            tw = type(cls.__name__, (_float,), ns)
            tw.__qualname__ = cls.__qualname__
            tw.__reduce__ = lambda self: (_remake_twin, (cls, _float(self)))
            cls._twin_class_ = tw
        return tw

    # -- protocol
    def __repr__(self):
        return '<symfloat>'

    def __str__(self):
        return '<symfloat>'

    def __format__(self, spec):
        return '<symfloat>'

    def __hash__(self):
        # equality then decides (by forking); native keys of equal value are not found,
        # which the native replay of the path would show
        f = const(self.t)
        return hash(float(f)) if f is not None else 1000003

    def __bool__(self):
        return fork(self.t != 0)

    def __float__(self):
        raise Unsupported('symbolic float forced to a machine float')

    def __int__(self):
        # builtins.int() cannot return a symbolic value: enumerate
        r = SymFloat.__trunc__(self)
        return r if isinstance(r, _int) else r.__index__()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_unpickle, (_register(self),))

    def __reduce_ex__(self, proto):
        return (_unpickle, (_register(self),))

    # numpy object-array hooks
    def sqrt(self):
        from . import shims
        return shims.m_sqrt(self)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    def is_integer(self):
        return mkbool(z3.IsInt(self.t))


class SymFloatV(SymFloat):
    """The class of symbolic floats proper.  It equals `float` (the shim and the
    native one) but hashes differently, so that numpy, which looks element types
    up in a dict, keeps these objects in object arrays."""
    __hash__ = SymFloat.__hash__


SymFloatV.__name__ = SymFloatV.__qualname__ = 'float'


def _ROOTS():
    return _RootSet


class _Roots:
    def __contains__(self, c):
        return c is _float or c is SymFloat or c is SymFloatV


_RootSet = _Roots()
_SF = SFBase
numbers.Real.register(SymFloatV)
_registry = []


def _register(o):
    _registry.append(o)
    return len(_registry) - 1


def _unpickle(i):
    return _registry[i]


def _remake_twin(cls, v):
    return cls._twin()(v)


def _bad(v):
    return isinstance(v, _float)


def _op_add(a, b):
    return mk(a + b) if not (const(a) == 0 or const(b) == 0) else mk(b if const(a) == 0 else a)


def _op_sub(a, b):
    if const(b) == 0:
        return mk(a)
    if a.eq(b):
        return 0.0
    return mk(a - b)


def _op_mul(a, b):
    ca, cb = const(a), const(b)
    if ca == 0 or cb == 0:
        return 0.0
    if ca == 1:
        return mk(b)
    if cb == 1:
        return mk(a)
    if ca is not None and cb is not None:
        return mk(rat(ca * cb))
    return mk(a * b)


def _op_truediv(a, b):
    if fork(b == 0):
        raise ZeroDivisionError('float division by zero')
    return mk(quotient(a, b))


def _op_floordiv(a, b):
    if fork(b == 0):
        raise ZeroDivisionError('float floor division by zero')
    k = floor_quot(a, b)
    return _float(k) if isinstance(k, _int) else mk(z3.ToReal(k.t))


def _op_mod(a, b):
    if fork(b == 0):
        raise ZeroDivisionError('float modulo')
    k = floor_quot(a, b)
    kt = rat(k) if isinstance(k, _int) else z3.ToReal(k.t)
    r = a - kt * b
    e = eng()
    if const(b) is None:
        # consequences of the floor that spare the solver a multiplication
        e.add(z3.Implies(b > 0, z3.And(r >= 0, r < b)))
        e.add(z3.Implies(b < 0, z3.And(r <= 0, r > b)))
    return mk(r)


def _op_divmod(a, b):
    return (_op_floordiv(a, b), _op_mod(a, b))


def _special(name, a, b):
    """Operands of which at least one is a non-finite native float."""
    def f(v):
        if _bad(v):
            return v
        s = sign_of(v)
        return {1: 2.0, 0: 0.0, -1: -2.0}[s]
    if name in ('add', 'sub'):
        x = a if _bad(a) else 1.0
        y = b if _bad(b) else 1.0
    elif (_bad(a) and a != a) or (_bad(b) and b != b):
        x, y = (a if _bad(a) else 1.0), (b if _bad(b) else 1.0)
        if name == 'pow':
            # 1**nan == 1, nan**0 == 1
            if not _bad(a) and fork(a == 1):
                return 1.0
            if not _bad(b) and fork(b == 0):
                return 1.0
            return _math.nan
        if name in ('truediv', 'floordiv', 'mod', 'divmod') and not _bad(b) and fork(b == 0):
            y = 0.0
        else:
            return (_math.nan, _math.nan) if name == 'divmod' else _math.nan
    elif name == 'pow':
        if _bad(b):            # finite ** inf
            if fork(z3.Or(a == 1, a == -1)):
                return 1.0
            big = fork(z3.Or(a > 1, a < -1))
            return (_math.inf if big else 0.0) if b > 0 else (0.0 if big else _math.inf)
        # inf ** finite
        s = sign_of(b)
        if a > 0 or s == 0:
            return a ** (2.0 * s)
        odd = fork(z3.IsInt(b)) and fork(z3.Not(z3.IsInt(b / 2)))
        return a ** (s * (3.0 if odd else 2.0))
    else:
        x, y = f(a), f(b)
        if name in ('mod', 'divmod', 'floordiv') and _bad(b) and not _bad(a):
            # finite % inf: value depends on signs only; keep the finite operand
            s = sign_of(a)
            same = s == 0 or (s > 0) == (b > 0)
            m = mk(a) if same else b
            q = 0.0 if same else -1.0
            return {'mod': m, 'floordiv': q, 'divmod': (q, m)}[name]
    return getattr(_float, '__%s__' % name)(_float(x), _float(y))


_OPS = {'add': _op_add, 'sub': _op_sub, 'mul': _op_mul, 'truediv': _op_truediv,
        'floordiv': _op_floordiv, 'mod': _op_mod, 'divmod': _op_divmod}


def _install():
    def make(name, fn, reflected):
        attr = '__%s%s__' % ('r' if reflected else '', name)
        native = getattr(_float, attr)

        def op(self, value, /):
            if isinstance(self, _float) and not issym(value):
                return native(self, value)
            a = _selfnum(self, attr)
            b = num(value)
            if b is None:
                return NotImplemented
            if reflected:
                a, b = b, a
            if _bad(a) or _bad(b):
                return _special(name, a, b)
            if name == 'mul' and self is value and self.absof is not None:
                return ranged(mk(self.absof * self.absof), False)
            return ranged(fn(a, b), False)
        op.__name__ = attr
        op.__qualname__ = 'float.' + attr
        op.__doc__ = native.__doc__
        setattr(SymFloat, attr, op)

    for name, fn in _OPS.items():
        make(name, fn, False)
        make(name, fn, True)

    def make_pow(attr, reflected):
        native = getattr(_float, attr)

        def op(self, value, mod=None, /):
            if isinstance(self, _float) and not issym(value):
                return native(self, value, mod)
            if mod is not None:
                raise TypeError('pow() 3rd argument not allowed unless all arguments are integers')
            a = _selfnum(self, attr)
            b = num(value)
            if b is None:
                return NotImplemented
            if not reflected and isinstance(self, _SF) and self.absof is not None \
                    and not issym(value) and value == 2:
                return ranged(mk(self.absof * self.absof), True)
            if reflected:
                a, b = b, a
            if _bad(a) or _bad(b):
                return _special('pow', a, b)
            return ranged(float_pow(a, b), True)
        op.__name__ = attr
        op.__qualname__ = 'float.' + attr
        op.__doc__ = native.__doc__
        setattr(SymFloat, attr, op)
    make_pow('__pow__', False)
    make_pow('__rpow__', True)

    def unary(attr, fn):
        native = getattr(_float, attr)

        def op(self, /):
            if isinstance(self, _float):
                return native(self)
            return fn(_selfnum(self, attr))
        op.__name__ = attr
        op.__qualname__ = 'float.' + attr
        op.__doc__ = native.__doc__
        setattr(SymFloat, attr, op)

    def do_abs(a):
        r = mk(z3.If(a >= 0, a, -a))
        if isinstance(r, _SF):
            r.absof = a
        return r
    unary('__neg__', lambda a: mk(-a))
    unary('__pos__', lambda a: mk(a))
    unary('__abs__', do_abs)
    unary('__trunc__', lambda a: floor_term(a) if fork(a >= 0) else -floor_term(-a))
    unary('__floor__', lambda a: floor_term(a))
    unary('__ceil__', lambda a: -floor_term(-a))

    def __round__(self, ndigits=None, /):
        if isinstance(self, _float):
            if isinstance(ndigits, SymInt):
                ndigits = ndigits.__index__()
            return _float.__round__(self, ndigits)
        a = _selfnum(self, '__round__')
        if ndigits is None:
            return round_term(a)
        n = ndigits.__index__()
        p = rat(Fraction(10) ** n)
        k = round_term(a * p)
        kt = rat(k) if isinstance(k, _int) else z3.ToReal(k.t)
        return mk(kt * rat(Fraction(10) ** (-n)))
    SymFloat.__round__ = __round__

    def compare(attr, fn):
        native = getattr(_float, attr)

        def op(self, value, /):
            if isinstance(self, _float) and not issym(value):
                return native(self, value)
            a = _selfnum(self, attr)
            b = num(value)
            if b is None:
                return NotImplemented
            if _bad(a) or _bad(b):
                x = a if _bad(a) else 0.0
                y = b if _bad(b) else 0.0
                return getattr(x, attr)(y)
            return mkbool(fn(a, b))
        op.__name__ = attr
        op.__qualname__ = 'float.' + attr
        setattr(SymFloat, attr, op)
    compare('__lt__', lambda a, b: a < b)
    compare('__le__', lambda a, b: a <= b)
    compare('__gt__', lambda a, b: a > b)
    compare('__ge__', lambda a, b: a >= b)
    compare('__eq__', lambda a, b: a == b)
    compare('__ne__', lambda a, b: a != b)


_install()


# ---------------------------------------------------------------- SymInt
class SymInt:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __index__(self):
        return eng().concretize_int(self.t)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported('symbolic int forced to a machine float')

    def __bool__(self):
        return fork(self.t != 0)

    def __hash__(self):
        return hash(self.__index__())

    def __repr__(self):
        return '<symint>'

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, proto):
        return (_unpickle, (_register(self),))

    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __round__(self, n=None): return self
    def __neg__(self): return mkint(-self.t)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.t >= 0, self.t, -self.t))

    @property
    def real(self): return self
    @property
    def imag(self): return 0
    @property
    def numerator(self): return self
    @property
    def denominator(self): return 1


numbers.Integral.register(SymInt)


def mkint(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def intt(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return x._as_int().t
    if isinstance(x, (bool, _int) + _NPINT + _NPBOOL):
        return z3.IntVal(_int(x))
    return None


def _install_int():
    def arith(name, fn, fname):
        def op(self, o):
            b = intt(o)
            if b is None:
                if isinstance(o, (_float, SymFloat)):
                    return getattr(SymFloat, '__%s__' % fname)(SymFloat._new(z3.ToReal(self.t)), o)
                return NotImplemented
            return fn(self.t, b)

        def rop(self, o):
            b = intt(o)
            if b is None:
                if isinstance(o, (_float, SymFloat)):
                    return getattr(SymFloat, '__r%s__' % fname)(SymFloat._new(z3.ToReal(self.t)), o)
                return NotImplemented
            return fn(b, self.t)
        setattr(SymInt, '__%s__' % name, op)
        setattr(SymInt, '__r%s__' % name, rop)

    def fdiv(a, b):
        if fork(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if z3.is_int_value(b):
            bv = b.as_long()
            return mkint(a / b if bv > 0 else (-a) / z3.IntVal(-bv))
        return mkint(z3.ToInt(z3.ToReal(a) / z3.ToReal(b)))

    def fmod(a, b):
        q = fdiv(a, b)
        return mkint(a - (q.t if isinstance(q, SymInt) else q) * b)

    arith('add', lambda a, b: mkint(a + b), 'add')
    arith('sub', lambda a, b: mkint(a - b), 'sub')
    arith('mul', lambda a, b: mkint(a * b), 'mul')
    arith('floordiv', fdiv, 'floordiv')
    arith('mod', fmod, 'mod')
    arith('truediv', lambda a, b: _op_truediv(z3.ToReal(a), z3.ToReal(b)), 'truediv')

    def _pow(self, o, m=None):
        if isinstance(o, (_float, SymFloat)):
            return float_pow(z3.ToReal(self.t), term(o))
        n = o.__index__()
        base = self.__index__()
        return base ** n

    def _rpow(self, o, m=None):
        n = self.__index__()
        if isinstance(o, SymFloat):
            return o ** n
        return o ** n
    SymInt.__pow__ = _pow
    SymInt.__rpow__ = _rpow

    def compare(attr, fn):
        def op(self, o):
            b = intt(o)
            if b is None:
                if isinstance(o, (_float, SymFloat)):
                    return getattr(SymFloat, attr)(SymFloat._new(z3.ToReal(self.t)), o)
                return NotImplemented
            return mkbool(fn(self.t, b))
        setattr(SymInt, attr, op)
    compare('__lt__', lambda a, b: a < b)
    compare('__le__', lambda a, b: a <= b)
    compare('__gt__', lambda a, b: a > b)
    compare('__ge__', lambda a, b: a >= b)
    compare('__eq__', lambda a, b: a == b)
    compare('__ne__', lambda a, b: a != b)


_install_int()
