"""What a harness sees: the same harness function runs symbolically (SymE) and
natively on concrete inputs (ConcE) for replay and witness validation."""
import builtins
import math
import sys
import warnings
from fractions import Fraction
import z3
from . import engine as _e
from .engine import Engine, Unsupported, PathAbort, Diverged, rat
from . import values, shims, strings
from .values import SFBase, SymFloat, SymInt, SymBool, issym, num, mk, mkbool, term, sym_and, sym_or, sym_not

NAN = float('nan')
INF = float('inf')


class CheckFailed(Exception):
    pass


class AssumeFailed(Exception):
    pass


BIG, SMALL = 1e307, 1e-300


class Base:
    AND = staticmethod(sym_and)
    OR = staticmethod(sym_or)
    NOT = staticmethod(sym_not)
    nan = NAN
    inf = INF

    def imp(self, name):
        import importlib
        return importlib.import_module(name)

    @property
    def core(self):
        return self.imp('uncertainties.core')

    @property
    def u(self):
        return self.imp('uncertainties')

    @property
    def umath(self):
        return self.imp('uncertainties.umath')

    @property
    def unumpy(self):
        return self.imp('uncertainties.unumpy')

    @property
    def np(self):
        import numpy
        return numpy

    def array(self, rows):
        """numpy array; of objects when an element is symbolic."""
        return self.np.array(rows)

    def implies(self, a, b):
        return sym_or(sym_not(a), b)

    def iff(self, a, b):
        if isinstance(a, SymBool):
            return a == b
        if isinstance(b, SymBool):
            return b == a
        return bool(a) == bool(b)

    def same(self, a, b, msg='', **kw):
        """close(), with NaN equal to NaN."""
        self.close(a, b, msg, **kw)

    def raises(self, exc, fn, msg=''):
        """fn() must raise one of exc."""
        try:
            r = fn()
        except exc as e:
            self.check(True, msg)
            return e
        self.fail('%s: no exception, returned a value' % (msg or 'expected exception'))

    # exact arithmetic, for values that may be out of the range of machine floats
    def exact(self, fn, *args):
        """fn(*args) in exact arithmetic (rational operations only)."""
        if not self.sym:
            return fn(*[Fraction(a) for a in args])
        was, self.e.ieee, self.e.exact = self.e.ieee, False, True
        try:
            return fn(*[mk(term(a)) if isinstance(a, float) else a for a in args])
        finally:
            self.e.ieee, self.e.exact = was, False

    def sure(self, cond):
        """Is cond known to hold, on the current path? (False: maybe not)"""
        if isinstance(cond, bool):
            return cond
        return self.e._alt_check([z3.Not(cond.t)], 3000, ('qfnra-nlsat',)) == z3.unsat

    def isfinite(self, a):
        return not isinstance(a, float) or a - a == 0

    def near(self, a, b, msg, rel=1e-9):
        """a is b, an exact number; very large or small b have no float, anything goes for them."""
        def test(b):
            if self.OR(b > BIG, b < -BIG):
                return None
            if not self.isfinite(a):
                return False
            x = a if self.sym else Fraction(a)
            if self.sure(x == b):
                return True
            if self.AND(b < SMALL, b > -SMALL):
                return self.AND(x < 10 * SMALL, x > -10 * SMALL)
            d, m = x - b, b if b >= 0 else -b
            return self.AND(d <= rel * m, -d <= rel * m)
        if not self.sym:
            b = Fraction(b)
            rel = Fraction(rel)
        r = self.exact(test, b) if self.sym else test(b)
        if r is not None:
            self.check(r, msg)

    def get_deriv(self, u, var):
        """Derivative of u with respect to var through the public mapping."""
        d = u.derivatives
        return d[var] if var in d else 0.0


# --------------------------------------------------------------------- symbolic
class SymE(Base):
    sym = True

    def __init__(self, engine, params):
        self.e = engine
        self.p = params
        self.cands = []
        self.strict = []
        self.checks = 0
        self.reals = []
        self.special = []

    # inputs
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, nonzero=False,
             nan=False, inf=False, ninf=False):
        kinds = ['fin'] + (['nan'] if nan else []) + (['inf'] if inf else []) + (['-inf'] if ninf else [])
        if len(kinds) > 1:
            k = kinds[self.e.choice(name + '.kind', len(kinds))]
            if k != 'fin':
                self.e.inputs[name] = ('const', k)
                return float(k)
        v = z3.Real(name)
        self.e.inputs[name] = ('real', v)
        if lo is not None:
            self.e.assume(v >= rat(lo))
        if hi is not None:
            self.e.assume(v <= rat(hi))
        if pos:
            self.e.assume(v > 0)
        if nonneg:
            self.e.assume(v >= 0)
        if nonzero:
            self.e.assume(v != 0)
        if pos or nonneg:
            self.e.nonnegs[v.get_id()] = v
        self.reals.append(v)
        return SymFloat._new(v)

    def const(self, f):
        """The exact rational number f."""
        return SymFloat._new(rat(Fraction(f)))

    def int(self, name, lo, hi):
        v = z3.Int(name)
        self.e.inputs[name] = ('int', v)
        self.e.assume(z3.And(v >= lo, v <= hi))
        return SymInt(v)

    def intval(self, name, lo, hi):
        """A concrete integer chosen by forking."""
        k = lo + self.e.choice(name, hi - lo + 1)
        self.e.inputs[name] = ('const', k)
        return k

    def choice(self, name, options):
        options = list(options)
        k = self.e.choice(name, len(options)) if len(options) > 1 else 0
        self.e.inputs[name] = ('const', k)
        return options[k]

    def flag(self, name):
        return self.choice(name, [False, True])

    def assume(self, c):
        if isinstance(c, SymBool):
            self.e.assume(c.t)
        elif not c:
            raise PathAbort('assume')

    def suppose(self, c):
        """Assumption that is only used for confirming counterexamples."""
        if isinstance(c, SymBool):
            self.e.lazy.append(c.t)
        elif not c:
            raise PathAbort('suppose')

    # assertions
    def check(self, cond, msg=''):
        self.checks += 1
        if isinstance(cond, SymBool):
            c = cond.t
        else:
            c = bool(cond)
        r = self.e.prove(c)
        if r == 'proved':
            return
        if r == 'unknown':
            self.e.inconclusive.append('unknown: ' + msg)
            return
        neg = z3.BoolVal(True) if isinstance(c, bool) else z3.Not(c)
        self.cands.append((msg, neg, r[1], None))
        raise PathAbort('violated')

    def fail(self, msg):
        self.check(False, msg)

    def close(self, a, b, msg='', rel=1e-6, scale=1.0):
        """a == b (exactly over the reals, or within rel*max(scale,|a|,|b|))."""
        self.checks += 1
        na, nb = num(a), num(b)
        if na is None or nb is None:
            return self.fail(msg + ' (not numbers: %s, %s)' % (type(a).__name__, type(b).__name__))
        if isinstance(na, float) or isinstance(nb, float):
            ok = (isinstance(na, float) and isinstance(nb, float)
                  and (na == nb or (na != na and nb != nb)))
            return self.check(ok, msg)
        if na.eq(nb):
            self.e.stats.checks += 1
            self.e.stats.unsat += 1
            self.e.nchecks_path += 1
            return
        r = self.e.prove(na == nb)
        if r == 'proved':
            return
        d = na - nb
        tol = rat(rel)
        ab = lambda t: z3.If(t >= 0, t, -t)
        bound = lambda k: z3.Or(*[z3.And(d <= k * w, -d <= k * w)
                                  for w in (rat(scale), ab(na), ab(nb))])
        # exact equality failed: tolerate only rounding-size deviations
        r2 = self.e.prove(bound(tol))
        if r2 == 'proved':
            self.e.stats.checks -= 1
            if rel == 1e-6 and scale == 1.0 and len(self.strict) < 3:
                # a large relative difference between small numbers?  (Only reported
                # if the real code gives the values of the model: see ConcE.close())
                r3 = self.e.prove(z3.Or(*[z3.And(d <= k, -d <= k) for k in (rat(0.01) * ab(na), rat(0.01) * ab(nb))]))
                self.e.stats.checks -= 1
                if r3 == 'proved':
                    self.e.stats.unsat -= 1
                elif r3 != 'unknown':
                    self.strict.append((msg, z3.Not(z3.Or(*[z3.And(d <= k, -d <= k) for k in (rat(0.01) * ab(na), rat(0.01) * ab(nb))])),
                                        r3[1], na, nb))
            return
        if r2 == 'unknown':
            self.e.inconclusive.append('unknown: ' + msg)
            return
        self.cands.append((msg, z3.Not(bound(tol)), r2[1], z3.Not(bound(rat(0.01)))))
        raise PathAbort('violated')

    # text
    def format(self, x, spec=''):
        return strings.s_format(x, spec)

    def str(self, x):
        return strings.to_str(x)

    def repr(self, x):
        return strings.s_repr(x)

    def join(self, *parts):
        return strings.sx_call('', 'join', parts)

    def isstr(self, x):
        return strings.isstr(x)

    def float(self, s):
        return values.SymFloat(s)

    def toint(self, s):
        return shims.IntShim(s)

    def text(self, name, alphabets):
        """A string with one character from each alphabet."""
        cs = tuple(strings.fresh_char('%s.%d' % (name, i), a) for i, a in enumerate(alphabets))
        r = strings.mkstr(cs)
        self.e.inputs[name] = ('str', r)
        return r

    def label(self, s):
        self.e.labels.append(s)

    @property
    def m(self):
        return shims.MATH

    def pin(self, value):
        return value

    def smooth_d(self, name, x, n=1):
        """Derivative of the arbitrary smooth function standing for `name`."""
        a, b, c = shims.smooth_coefs(name)
        return mk(b + 2 * c * term(x))


# --------------------------------------------------------------------- concrete
class ConcE(Base):
    sym = False

    def __init__(self, inputs, params, expect=None):
        self.inputs = inputs
        self.expect = expect        # [message, value, value]: small numbers that must not differ
        self.p = params
        self.checks = 0

    def _get(self, name, default):
        return self.inputs.get(name, default)

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, nonzero=False,
             nan=False, inf=False, ninf=False):
        v = float(self._get(name, 1.0))
        if v == v and v not in (INF, -INF):
            if (lo is not None and v < float(lo)) or (hi is not None and v > float(hi)) or \
               (pos and v <= 0) or (nonneg and v < 0) or (nonzero and v == 0):
                raise AssumeFailed(name)
        return v

    def const(self, f):
        return float(f)

    def int(self, name, lo, hi):
        v = int(self._get(name, lo))
        if not lo <= v <= hi:
            raise AssumeFailed(name)
        return v

    def intval(self, name, lo, hi):
        return int(self._get(name, lo))

    def choice(self, name, options):
        return list(options)[int(self._get(name, 0))]

    def flag(self, name):
        return self.choice(name, [False, True])

    def assume(self, c):
        if not c:
            raise AssumeFailed('assume')

    suppose = assume

    def check(self, cond, msg=''):
        self.checks += 1
        if not cond:
            raise CheckFailed(msg)

    def fail(self, msg):
        raise CheckFailed(msg)

    def close(self, a, b, msg='', rel=1e-6, scale=1.0):
        self.checks += 1
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            raise CheckFailed('%s (not numbers: %r, %r)' % (msg, a, b))
        if a != a or b != b:
            ok = a != a and b != b
        elif a in (INF, -INF) or b in (INF, -INF):
            ok = a == b
        else:
            ok = abs(a - b) <= rel * max(scale, abs(a), abs(b))
            if ok and self.expect and self.expect[0] == msg and scale == 1.0 and rel == 1e-6:
                near = lambda v, w: abs(v - w) <= 1e-3 * abs(w)
                ok = not (near(a, self.expect[1]) and near(b, self.expect[2])
                          and abs(a - b) > 5e-3 * max(abs(a), abs(b)))
        if not ok:
            raise CheckFailed('%s: got %r, expected %r' % (msg, a, b))

    format = staticmethod(format)
    str = staticmethod(str)
    repr = staticmethod(repr)
    float = staticmethod(float)
    toint = staticmethod(lambda s: builtins.int(s))

    def join(self, *parts):
        return ''.join(parts)

    def isstr(self, x):
        return isinstance(x, str)

    def text(self, name, alphabets):
        s = self._get(name, None)
        if s is None:
            s = ''.join(a[0] for a in alphabets)
        if len(s) != len(alphabets) or any(c not in a for c, a in zip(s, alphabets)):
            raise AssumeFailed(name)
        return s

    def label(self, s):
        pass

    @property
    def m(self):
        return math

    def smooth_d(self, name, x, n=1):
        import mpmath
        mpmath.mp.dps = 30
        fn = {'gamma': lambda t: mpmath.gamma(t) * mpmath.digamma(t),
              'lgamma': mpmath.digamma}[name]
        return float(fn(mpmath.mpf(x)))


# --------------------------------------------------------------------- models
def model_inputs(engine, model):
    out = {}
    for name, (kind, v) in engine.inputs.items():
        if kind == 'const':
            out[name] = v
        elif kind == 'real':
            out[name] = real_value(model, v)
        elif kind == 'int':
            x = model.eval(v, model_completion=True)
            out[name] = x.as_long() if z3.is_int_value(x) else 0
        elif kind == 'str':
            from . import strings
            out[name] = strings.model_str(model, v)
    return out


def real_value(model, v):
    x = model.eval(v, model_completion=True)
    if z3.is_algebraic_value(x):
        x = x.approx(40)
    f = values.frac_of(x)
    if f is None:
        return 0.0
    try:
        return float(f)
    except OverflowError:
        return INF if f > 0 else -INF


def nice(engine, reals, level, params={}):
    """Extra constraints steering a model to moderate magnitudes."""
    cs = []
    ks = [z3.RealVal(Fraction(10) ** k) for k in sorted({0, params.get('off', 0), params.get('off2', 0)} | {b for a in params.get('mags', ()) for b in a})]
    lo, hi = (z3.Q(1, 8), 8) if level == 0 else (z3.Q(1, 100000), 100000)
    for v in reals:
        c = z3.Or(*[z3.Or(v == 0, z3.And(v >= lo * k, v <= hi * k), z3.And(v <= -lo * k, v >= -hi * k)) for k in ks])
        cs.append(c)
    return cs


def run_concrete(fn, inputs, params, expect=None):
    """('ok'|'assume'|'fail'|'exc', text)"""
    E = ConcE(inputs, params, expect)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            fn(E)
        except AssumeFailed as x:
            return ('assume', str(x))
        except CheckFailed as x:
            return ('fail', str(x))
        except Exception as x:
            import traceback
            tb = traceback.extract_tb(x.__traceback__)
            return ('exc', '%s: %s (at %s:%s)' % (type(x).__name__, x, tb[-1].filename.split('/')[-1],
                                                 tb[-1].lineno))
    return ('ok', E.checks)
