"""numpy as the code under test sees it: the real one, with vectorize() keeping
symbolic elements in object arrays and the linear-algebra kernels replaced by
their defining contracts (LAPACK is foreign code)."""
import types
from . import engine as _e
from .engine import Unsupported, eng
from .values import SFBase, SymFloat, SymInt, SymBool, issym, num, mk, term, fork, sym_and
import z3

try:
    import numpy as _np
except ImportError:
    _np = None


class Proxy(types.ModuleType):
    def __init__(self, real, over):
        types.ModuleType.__init__(self, real.__name__)
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over

    def __getattr__(self, k):
        o = self.__dict__['_over']
        if k in o:
            return o[k]
        return getattr(self.__dict__['_real'], k)


def hassym(a):
    a = _np.asarray(a)
    return a.dtype == object and any(issym(v) for v in a.flat)


def make():
    if _np is None:
        return None

    class vectorize:
        """numpy.vectorize; a float/int/bool output type becomes object when an
        element is symbolic."""

        def __init__(self, pyfunc, otypes=None, doc=None, excluded=None, cache=False, signature=None):
            self.pyfunc = pyfunc
            self.otypes_req = otypes
            self.__doc__ = doc if doc is not None else pyfunc.__doc__
            self._kw = dict(excluded=excluded, cache=cache, signature=signature)

        def __call__(self, *args, **kwargs):
            # numpy.vectorize determines the number of outputs by a first call
            if self.otypes_req is not None:
                n = len(self.otypes_req)
                ot = [object] * n
                v = _np.vectorize(self.pyfunc, otypes=ot, **self._kw)
                res = v(*args, **kwargs)
                outs = list(res) if n > 1 else [res]
                req = [_np.dtype(float if t is SymFloat else t) for t in self.otypes_req]
                fin = []
                for r, t in zip(outs, req):
                    if t != object and not any(issym(x) for x in r.flat):
                        r = r.astype(t)
                    fin.append(r)
                return tuple(fin) if n > 1 else fin[0]
            v = _np.vectorize(self.pyfunc, otypes=None, **self._kw)
            first = {}

            def obj(*a, **k):
                return self.pyfunc(*a, **k)
            # object outputs, then the type numpy would have inferred from the first
            probe = [None]

            def wrapped(*a, **k):
                r = self.pyfunc(*a, **k)
                if probe[0] is None:
                    probe[0] = r
                return r
            shapes = _np.broadcast(*[_np.asanyarray(a) for a in args]) if args else None
            if shapes is None or shapes.size == 0:
                return v(*args, **kwargs)
            it = [tuple(x) for x in shapes] if len(args) > 1 else [(x,) for x in _np.asanyarray(args[0]).flat]
            outs = [self.pyfunc(*[_item(x) for x in tup], **kwargs) for tup in it]
            multi = isinstance(outs[0], tuple)
            k = len(outs[0]) if multi else 1
            res = []
            for j in range(k):
                col = [o[j] if multi else o for o in outs]
                arr = _np.empty(len(col), dtype=object)
                for i, c in enumerate(col):
                    arr[i] = c
                arr = arr.reshape(shapes.shape) if len(args) > 1 else arr.reshape(_np.asanyarray(args[0]).shape)
                dt = _np.asarray(col[0]).dtype
                if dt != object and not any(issym(c) for c in col):
                    arr = arr.astype(dt)
                if isinstance(_np.asanyarray(args[0]), _np.matrix):
                    arr = arr.view(_np.matrix) if arr.ndim == 2 else arr
                res.append(arr)
            return tuple(res) if multi else res[0]

        def __repr__(self):
            return '<vectorize>'

    def _item(x):
        return x

    def la_inv(a):
        a2 = _np.asanyarray(a)
        if not hassym(a2):
            return _np.linalg.inv(_np.asanyarray(a2, dtype=float) if a2.dtype == object else a2)
        n, m = a2.shape
        if n != m:
            raise _np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
        A = [[a2[i, j] if a2.ndim == 2 else None for j in range(n)] for i in range(n)]
        if eng().memo.get('la_contract'):
            # fresh elements, known to be those of the inverse
            R = _unknown('inv', a2, n, n)
            facts = [(_dot(A, R, i, j, n), float(i == j)) for i in range(n) for j in range(n)]
            facts += [(_dot(R, A, i, j, n), float(i == j)) for i in range(n) for j in range(n)]
            _facts(facts)
            return R.view(_np.matrix) if isinstance(a2, _np.matrix) else R
        d = det(A)
        if d == 0:
            raise _np.linalg.LinAlgError('Singular matrix')
        R = _np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                R[i, j] = cof(A, j, i) / d
        return R.view(_np.matrix) if isinstance(a2, _np.matrix) else R

    def la_pinv(a, rcond=1e-15, hermitian=False, **kw):
        a2 = _np.asanyarray(a)
        if not hassym(a2):
            return _np.linalg.pinv(_np.asanyarray(a2, dtype=float) if a2.dtype == object else a2,
                                   rcond=rcond)
        n, m = a2.shape
        B = _np.asarray(a2)
        # full column/row rank: (A'A)^-1 A' or A'(AA')^-1; rank deficiency: harness supplies it
        over = eng().memo.get('pinv_override')
        if over is not None:
            r = over(B, rcond)
            if r is not None:
                return r.view(_np.matrix) if isinstance(a2, _np.matrix) else r
        if eng().memo.get('la_contract'):
            # fresh elements, with the four Penrose conditions
            R = _unknown('pinv', B, m, n)
            P = [[_dot(B, R, i, j, m) for j in range(n)] for i in range(n)]
            Q = [[_dot(R, B, i, j, n) for j in range(m)] for i in range(m)]
            facts = [(P[i][j], P[j][i]) for i in range(n) for j in range(i)]
            facts += [(Q[i][j], Q[j][i]) for i in range(m) for j in range(i)]
            facts += [(_dot(P, B, i, j, n), B[i, j]) for i in range(n) for j in range(m)]
            facts += [(_dot(Q, R, i, j, m), R[i, j]) for i in range(m) for j in range(n)]
            _facts(facts)
            return R.view(_np.matrix) if isinstance(a2, _np.matrix) else R
        if n >= m:
            G = B.T.dot(B)
            R = la_inv(G).dot(B.T)
        else:
            G = B.dot(B.T)
            R = B.T.dot(la_inv(G))
        return R.view(_np.matrix) if isinstance(a2, _np.matrix) else R
    real_pinv = _np.linalg.pinv
    import inspect
    la_pinv.__doc__ = real_pinv.__doc__
    la_pinv.__signature__ = inspect.signature(real_pinv)
    la_inv.__doc__ = _np.linalg.inv.__doc__

    def la_eigh(a, UPLO='L'):
        a2 = _np.asarray(a)
        if not hassym(a2):
            # (object arrays, which later operations may fill with symbolic values)
            return tuple(r.astype(object) for r in _np.linalg.eigh(_np.asarray(a2, dtype=float)))
        fn = eng().memo.get('eigh_override')
        if fn is None:
            raise Unsupported('eigh of a symbolic matrix')
        return fn(a2)

    def elementwise(name):
        real = getattr(_np, name)
        import math
        from . import shims

        def f(x, *a, **k):
            if a and name == 'hypot':
                xs, ys = _np.broadcast_arrays(_np.asarray(x), _np.asarray(a[0]))
                if not (hassym(xs) or hassym(ys)):
                    return real(plain(x), plain(a[0]), **k)
                r = _np.empty(xs.shape, dtype=object)
                for i in _np.ndindex(*xs.shape):
                    r[i] = shims.MATH.hypot(xs[i], ys[i])
                return r if r.shape else r[()]
            x2 = plain(x)
            if x2.dtype != object or not any(issym(v) for v in x2.flat):
                return real(x2 if isinstance(x, _np.ndarray) else x, *a, **k)

            def one(v):
                if not issym(v):
                    return real(v)
                try:
                    return getattr(shims.MATH, name)(v)
                except ValueError:
                    return math.nan     # (as numpy, with a warning)
                except OverflowError:
                    raise Unsupported('numpy.%s overflows' % name)
            r = _np.empty(x2.shape, dtype=object)
            for i in _np.ndindex(*x2.shape):
                r[i] = one(x2[i])
            return r.view(_np.matrix) if isinstance(x2, _np.matrix) else r if x2.shape else r[()]
        return f

    def isnan(x, *a, **k):
        if issym(x):
            return False
        x2 = _np.asanyarray(x)
        if x2.dtype == object and all(issym(v) or isinstance(v, (int, float)) for v in x2.flat):
            r = _np.array([False if issym(v) else v != v for v in x2.flat], dtype=bool)
            return r.reshape(x2.shape)
        return _np.isnan(x, *a, **k)

    def isinf(x, *a, **k):
        if issym(x):
            return False
        x2 = _np.asanyarray(x)
        if x2.dtype == object and all(issym(v) or isinstance(v, (int, float)) for v in x2.flat):
            r = _np.array([False if issym(v) else v in (_np.inf, -_np.inf) for v in x2.flat], dtype=bool)
            return r.reshape(x2.shape)
        return _np.isinf(x, *a, **k)
    def isfinite(x, *a, **k):
        if not issym(x) and not hassym(x):
            return _np.isfinite(x, *a, **k)
        return _np.logical_not(_np.logical_or(isnan(x), isinf(x)))

    def floatlike(t):
        return t is SymFloat or t is not None and not issym(t) and t is not object and _np.dtype(t).kind == 'f'

    def maker(name, filler):
        real = getattr(_np, name)

        def f(shape, dtype=float, *a, **k):
            shape = _np.empty(shape, dtype=bool).shape if name != 'identity' else (shape, shape)
            if dtype is not None and not floatlike(dtype):
                return real(shape if name != 'identity' else shape[0], dtype, *a, **k)
            return filler(shape)
        return f

    def filled(v):
        def g(shape):
            r = _np.empty(shape, dtype=object).view(FloatArr)
            r.fill(v)
            return r
        return g

    def eye(N, M=None, k=0, dtype=float, **kw):
        r = _np.eye(N, M, k, **kw)
        return as_float(r) if floatlike(dtype) else r.astype(dtype)

    def identity(n, dtype=None, **kw):
        return eye(n, dtype=float if dtype is None else dtype)

    def full(shape, fill_value, dtype=None, **k):
        if floatlike(dtype) or dtype is None and (issym(fill_value) or isinstance(fill_value, float)):
            return filled(fill_value)(shape)
        return _np.full(shape, fill_value, dtype, **k)

    def like(name, v):
        real = getattr(_np, name)

        def f(a, *args, **k):
            args = list(args)
            val = args.pop(0) if name == 'full_like' and args else k.pop('fill_value', None) if name == 'full_like' else v
            dtype = args[0] if args else k.get('dtype')
            a2 = _np.asanyarray(a)
            if floatlike(dtype) or dtype is None and (a2.dtype.kind == 'f' or hassym(a2)):
                r = _np.empty(a2.shape if k.get('shape') is None else k['shape'], dtype=object)
                r.fill(val)
                return r.view(_np.matrix) if isinstance(a2, _np.matrix) and k.get('subok', True) else r.view(FloatArr)
            return real(a, *([val] if name == 'full_like' else []), *args, **k)
        return f

    def converter(name):
        real = getattr(_np, name)

        def f(a, dtype=None, *args, **k):
            if dtype is not None and floatlike(dtype):
                a = list(a) if not hasattr(a, '__len__') and hasattr(a, '__next__') else a
                r = real(a, object, *args, **k)
                if any(issym(v) for v in r.flat):
                    return as_float(r)
                return real(a, float, *args, **k)
            if dtype is None and isinstance(a, FloatArr):
                return real(a, *args, **k)
            return real(a, dtype, *args, **k)
        return f

    def fromiter(it, dtype, count=-1, **k):
        items = list(it)
        if floatlike(dtype) and any(issym(v) for v in items):
            r = _np.empty(len(items), dtype=object)
            r[:] = items
            return r
        return _np.fromiter(items, float if floatlike(dtype) else dtype, count, **k)

    def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        if not (hassym(a) or hassym(b)):
            return _np.isclose(plain(a), plain(b), rtol, atol, equal_nan)
        A, B = _np.broadcast_arrays(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
        r = _np.empty(A.shape, dtype=bool)
        for i in _np.ndindex(*A.shape):
            x, y = A[i], B[i]
            if issym(x) or issym(y):
                r[i] = bool(abs(x - y) <= atol + rtol * abs(y))
            else:
                r[i] = _np.isclose(float(x), float(y), rtol, atol, equal_nan)
        return r if r.shape else bool(r)

    def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
        return bool(_np.all(isclose(a, b, rtol, atol, equal_nan)))

    over = {'vectorize': vectorize, 'linalg': linalg_(la_inv, la_pinv, la_eigh), 'isnan': isnan, 'isinf': isinf,
            'isfinite': isfinite, 'isclose': isclose, 'allclose': allclose,
            'empty': maker('empty', filled(0.0)), 'zeros': maker('zeros', filled(0.0)), 'ones': maker('ones', filled(1.0)),
            'eye': eye, 'identity': identity, 'full': full, 'fromiter': fromiter,
            'empty_like': like('empty_like', 0.0), 'zeros_like': like('zeros_like', 0.0), 'ones_like': like('ones_like', 1.0),
            'full_like': like('full_like', None)}
    for k in ('array', 'asarray', 'asanyarray', 'ascontiguousarray'):
        over[k] = converter(k)
    for k in ('sqrt', 'hypot', 'fabs', 'sin', 'cos', 'tan', 'exp', 'log', 'log10', 'log1p', 'expm1', 'floor', 'ceil', 'trunc'):
        over[k] = elementwise(k)
    return Proxy(_np, over)


def linalg_(inv, pinv, eigh):
    return Proxy(_np.linalg, {'inv': inv, 'pinv': pinv, 'eigh': eigh})


def plain(a):
    """Without symbolic elements: a machine array where that is possible."""
    a2 = _np.asanyarray(a)
    if a2.dtype == object and all(isinstance(v, (int, float)) for v in a2.flat):
        return a2.astype(float)
    return a2


def to_elem(v):
    if issym(v):
        return v if isinstance(v, SFBase) else mk(num(v))
    return float(v)


def as_float(r):
    """The elements as floats, in an array that may hold symbolic ones."""
    r = _np.array(r, dtype=object, subok=True)
    for i in _np.ndindex(*r.shape):
        r[i] = to_elem(r[i])
    return r


if _np is not None:
    class FloatArr(_np.ndarray):
        """A float array as the code under test creates it (empty, zeros...), whose
        elements may become symbolic."""
        __array_priority__ = -10.0

        @property
        def dtype(self):
            return _np.dtype(float)

        def __setitem__(self, k, v):
            base = self.view(_np.ndarray)
            if isinstance(v, (_np.ndarray, list, tuple)):
                base[k] = as_float(_np.asarray(v, dtype=object))
            else:
                base[k] = to_elem(v)

        def fill(self, v):
            self.view(_np.ndarray).fill(to_elem(v))

        def astype(self, t, *a, **k):
            return astype(self.view(_np.ndarray), t, *a, **k)

        def __array_wrap__(self, out, context=None):
            return out.view(_np.ndarray) if out.shape else out[()]

    def astype(a, t, *args, **k):
        """ndarray.astype"""
        if hassym(a) and (t is SymFloat or _np.dtype(t).kind == 'f'):
            return as_float(a)
        return a.astype(float if t is SymFloat else t, *args, **k)


def _unknown(name, a, n, m):
    key = (name,) + tuple(term(v).get_id() for v in _np.asarray(a).flat)
    e = eng()
    R = _np.empty((n, m), dtype=object)
    fresh = e.memo.get(key)
    if fresh is None:
        fresh = e.memo[key] = [e.fresh(name) for _ in range(n * m)]
        e.keep.append([term(v) for v in _np.asarray(a).flat])
    for i in range(n):
        for j in range(m):
            R[i, j] = SymFloat._new(fresh[i * m + j])
    return R


def _at(A, i, j):
    return A[i][j] if isinstance(A, list) else A[i, j]


def _dot(A, B, i, j, n):
    t = _at(A, i, 0) * _at(B, 0, j)
    for k in range(1, n):
        t = t + _at(A, i, k) * _at(B, k, j)
    return t


def _facts(pairs):
    for a, b in pairs:
        eng().lazy.append(term(a) == term(b))


def det(A):
    n = len(A)
    if n == 1:
        return A[0][0]
    if n == 2:
        return A[0][0] * A[1][1] - A[0][1] * A[1][0]
    s = 0.0
    for j in range(n):
        minor = [r[:j] + r[j + 1:] for r in A[1:]]
        s = s + (-1) ** j * A[0][j] * det(minor)
    return s


def cof(A, i, j):
    n = len(A)
    if n == 1:
        return 1.0
    minor = [[A[r][c] for c in range(n) if c != j] for r in range(n) if r != i]
    return (-1) ** (i + j) * det(minor)
