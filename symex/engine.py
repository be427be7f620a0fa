"""Path-exploration engine: replay-based dynamic symbolic execution.

The code under test runs natively on proxy values (values.py); every Python
branch on a symbolic condition calls Engine.branch(), which asks z3 which sides
are feasible and enumerates both by re-executing the harness.  A path ends when
the harness returns; the assertions made on it are decided by z3 under the path
condition.
"""
import time
from fractions import Fraction
import z3

CURRENT = None          # the engine of the running path


class Unsupported(BaseException):
    """The encoding cannot represent what the code did (=> inconclusive)."""


class PathAbort(BaseException):
    """Path infeasible or outside the stated bounds."""


class Diverged(BaseException):
    """Re-execution did not follow the recorded decisions."""


def eng():
    if CURRENT is None:
        raise Unsupported('symbolic value used outside a path')
    return CURRENT


# accessors that cannot fail on valid terms, without the error check of the Python wrapper
for _n in ('Z3_inc_ref', 'Z3_dec_ref', 'Z3_get_sort', 'Z3_get_sort_kind', 'Z3_get_ast_kind', 'Z3_get_ast_id',
           'Z3_get_app_decl', 'Z3_get_decl_kind', 'Z3_is_finite_set_sort'):
    try:
        setattr(z3.z3, _n, getattr(z3.z3core, _n).__defaults__[-1].f)
    except (AttributeError, TypeError, IndexError):
        pass


def rat(x):
    """z3 rational of a python number; floats through their shortest decimal."""
    got = RATS.get((type(x), x))
    if got is None:
        f = x
        if isinstance(f, bool):
            f = int(f)
        if isinstance(f, float):
            f = Fraction(repr(float(f)))
        f = Fraction(f)
        got = z3.RealVal(f.numerator) if f.denominator == 1 else z3.Q(f.numerator, f.denominator)
        RATS[(type(x), x)] = got
    return got


RATS = {}


class Stats:
    FIELDS = ('paths', 'aborted', 'decisions', 'queries', 'checks', 'unsat', 'solver_s')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}


class Engine:
    def __init__(self, max_paths=200000, deadline=None, branch_ms=4000, check_ms=20000,
                 pow10='concrete', fp=None, log10_window=None, seed=0):
        self.max_paths = max_paths
        self.deadline = deadline
        self.branch_ms = branch_ms
        self.check_ms = check_ms
        self.pow10 = pow10
        self.fp = fp
        self.log10_window = log10_window
        self.seed = seed
        self.stats = Stats()
        self.trail = []
        self.inconclusive = []
        self.alive = {}
        self.simped = {}
        self.begin()

    # ------------------------------------------------------------ path state
    def begin(self):
        self.pos = 0
        self.constraints = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.branch_ms)
        if self.seed:
            self.solver.set('random_seed', self.seed)
        self.fresh_n = 0
        self.memo = {}
        self.known = {}
        self.nonnegs = {}
        self.generic = False
        self.lazy = []          # facts that only confirm a counterexample
        self.inputs = {}        # name -> ('real'|'int'|'fp'|'choice'|'str', payload)
        self.keep = []          # objects kept alive (deterministic id())
        self.ids = {}
        self.labels = []        # path annotations
        self.axiom_apps = {}
        self.dom = {}           # char id -> frozenset of possible characters
        self.exact = False      # no machine floats in results
        self.ieee = False       # overflow and underflow of floats
        self.kwin = None        # window for floors of symbolic reals
        self.model_hint = None
        self.nchecks_path = 0
        self.last_model = None

    def fresh(self, prefix, sort='real'):
        self.fresh_n += 1
        name = '%s!%d' % (prefix, self.fresh_n)
        if sort == 'real':
            return z3.Real(name)
        if sort == 'int':
            return z3.Int(name)
        if sort == 'bool':
            return z3.Bool(name)
        raise ValueError(sort)

    def det_id(self, obj):
        k = id(obj)
        got = self.ids.get(k)
        if got is None:
            self.keep.append(obj)
            got = self.ids[k] = 1000003 + 16 * len(self.ids)
        return got

    # ------------------------------------------------------------ constraints
    def add(self, c):
        """Add a fact to the path condition (must be consistent by construction)."""
        self.constraints.append(c)
        self.solver.add(c)

    def _check(self, *assumptions, ms=None):
        t = time.time()
        self.stats.queries += 1
        if ms:
            self.solver.set('timeout', ms)
        r = self.solver.check(*assumptions)
        if ms:
            self.solver.set('timeout', self.branch_ms)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown and len(assumptions) <= 1:
            r = self._alt_check(list(assumptions), self.branch_ms)
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        return r

    def _alt_check(self, extra, ms, tactics=('qfnra-nlsat', 'smt', 'default')):
        """Non-incremental portfolio: nlsat, then the default tactic."""
        t = time.time()
        res = z3.unknown
        for tac in tactics:
            self.stats.queries += 1
            try:
                if tac == 'qfnra-nlsat':
                    s = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs',
                                'elim-term-ite', 'qfnra-nlsat').solver()
                elif tac == 'smt':
                    s = z3.SimpleSolver()
                else:
                    s = z3.Tactic('default').solver()
                s.set('timeout', ms)
                s.add(*self.constraints)
                s.add(*extra)
                r = s.check()
            except z3.Z3Exception:
                continue
            if r != z3.unknown:
                res = r
                if r == z3.sat:
                    try:
                        self.last_model = s.model()
                    except z3.Z3Exception:
                        self.last_model = None
                break
        self.stats.solver_s += time.time() - t
        return res

    def assume(self, cond):
        """Restrict the inputs; abort the path if impossible."""
        c = cond
        if isinstance(c, bool):
            if not c:
                raise PathAbort('assume(False)')
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort('assume')
        self.add(c)
        if self.pos >= len(self.trail) and self._check() == z3.unsat:
            raise PathAbort('assume')

    # ------------------------------------------------------------ decisions
    def _decide(self, key, options_fn):
        """options_fn() -> list of feasible option values (only when new)."""
        if self.pos < len(self.trail):
            ent = self.trail[self.pos]
            if ent[0] != key:
                raise Diverged('expected %r got %r' % (ent[0], key))
            self.pos += 1
            return ent[1][ent[2]]
        opts = options_fn()
        if not opts:
            raise PathAbort('no feasible option')
        self.trail.append([key, opts, 0])
        self.pos += 1
        self.stats.decisions += 1
        return opts[0]

    def simp0(self, c):
        i = c.get_id()
        got = self.alive.get(i)
        if got is None:
            got = self.alive[i] = (z3.simplify(c), c)
        return got[0]

    def nonneg(self, t, depth=0):
        """Sums and products that obviously are not negative (squares...)."""
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return t.as_fraction() >= 0 if z3.is_rational_value(t) else t.as_long() >= 0
        if not z3.is_app(t) or depth > 20:
            return False
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            return all(self.nonneg(a, depth + 1) for a in t.children())
        if k == z3.Z3_OP_MUL:
            odd, todo = {}, list(t.children())
            while todo:
                a = todo.pop()
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_MUL:
                    todo += a.children()
                elif odd.pop(a.get_id(), None) is None:
                    odd[a.get_id()] = a
            return all(self.nonneg(a, depth + 1) for a in odd.values())
        if k == z3.Z3_OP_POWER:
            e = t.arg(1)
            if z3.is_rational_value(e) or z3.is_int_value(e):
                f = e.as_fraction() if z3.is_rational_value(e) else e.as_long()
                if f == int(f) and f > 0 and int(f) % 2 == 0:
                    return True
            return False
        if k == z3.Z3_OP_ITE:
            return self.nonneg(t.arg(1), depth + 1) and self.nonneg(t.arg(2), depth + 1)
        if k == z3.Z3_OP_TO_REAL:
            return self.nonneg(t.arg(0), depth + 1)
        return t.get_id() in self.nonnegs

    def obvious(self, c):
        k = c.decl().kind()
        if k == z3.Z3_OP_GE:
            a, b = c.arg(0), c.arg(1)
        elif k == z3.Z3_OP_LE:
            b, a = c.arg(0), c.arg(1)
        else:
            return False
        return z3.is_rational_value(b) and b.as_fraction() == 0 and self.nonneg(a)

    def branch(self, cond, free=False):
        if isinstance(cond, bool):
            return cond
        if self.obvious(cond):
            return True
        c = self.simp0(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.generic:            # (numbers in general position: no accidental equality)
            k, inner = cond.decl().kind(), cond
            if k == z3.Z3_OP_NOT:
                inner = cond.arg(0)
            if inner.decl().kind() == z3.Z3_OP_DISTINCT and z3.is_arith(inner.arg(0)):
                return k != z3.Z3_OP_NOT
            if inner.decl().kind() == z3.Z3_OP_EQ and z3.is_arith(inner.arg(0)):
                return k == z3.Z3_OP_NOT
        got = self.known.get(c.get_id())
        if got is not None:         # already decided on this path
            return got
        key = ('b', c.hash())

        def opts():
            if free:
                return [True, False]
            t = self._check(c)
            if t == z3.unsat:
                return [False]
            f = self._check(z3.Not(c))
            if f == z3.unsat:
                return [True]
            return [True, False]
        r = self._decide(key, opts)
        n = z3.Not(c)
        self.add(c if r else n)
        self.known[c.get_id()] = r
        self.known[self.simp0(n).get_id()] = not r
        return r

    def choice(self, name, n):
        return self._decide(('c', name, n), lambda: list(range(n)))

    def concretize_int(self, e, limit=4000):
        """Fork over every value of the Int expression e that is feasible."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        key = ('i', e.hash())

        def opts():
            vals = []
            excl = []
            while True:
                t = time.time()
                self.stats.queries += 1
                self.solver.push()
                self.solver.add(*excl)
                r = self.solver.check()
                m = self.solver.model() if r == z3.sat else None
                self.solver.pop()
                self.stats.solver_s += time.time() - t
                if r == z3.unknown:
                    r = self._alt_check(excl, self.branch_ms)
                    m = self.last_model
                if r == z3.unsat:
                    return sorted(vals)
                if r == z3.unknown or m is None:
                    raise Unsupported('unknown while concretizing an integer')
                v = m.eval(e, model_completion=True)
                if not z3.is_int_value(v):
                    raise Unsupported('non-integer model for an integer')
                v = v.as_long()
                vals.append(v)
                excl.append(e != v)
                if len(vals) > limit:
                    raise Unsupported('integer with too many values to enumerate')
        v = self._decide(key, opts)
        self.add(e == v)
        return v

    # ------------------------------------------------------------ exploration
    def backtrack(self):
        while self.trail:
            ent = self.trail[-1]
            if ent[2] + 1 < len(ent[1]):
                ent[2] += 1
                return True
            self.trail.pop()
        return False

    # ------------------------------------------------------------ assertions
    def prove(self, cond):
        """'proved' | ('cex', model) | 'unknown' for cond under the path."""
        self.stats.checks += 1
        self.nchecks_path += 1
        if isinstance(cond, bool):
            if cond:
                self.stats.unsat += 1
                return 'proved'
            n = z3.BoolVal(True)
        else:
            c = self.simped[cond.get_id()][0] if cond.get_id() in self.simped else z3.simplify(cond, som=True)
            if z3.is_true(c):
                self.stats.unsat += 1
                return 'proved'
            if any(z3.simplify(f, som=True).eq(c) for f in self.lazy):
                self.stats.unsat += 1
                return 'proved'
            n = z3.simplify(z3.Not(cond))
        t = time.time()
        self.stats.queries += 1
        self.solver.push()
        self.solver.add(n)
        self.solver.set('timeout', min(3000, self.check_ms))
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.set('timeout', self.branch_ms)
        self.solver.pop()
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.last_model = None
            r = self._alt_check([n], self.check_ms)
            m = self.last_model
        if r == z3.unsat:
            self.stats.unsat += 1
            return 'proved'
        if r == z3.sat:
            if self.lazy:
                self.last_model = None
                r = self._alt_check([n] + self.lazy, self.check_ms)
                if r == z3.unsat:
                    self.stats.unsat += 1
                    return 'proved'
                if r == z3.sat and self.last_model is not None:
                    m = self.last_model
            return ('cex', m)
        return 'unknown'

    def path_model(self, extra=()):
        self.solver.push()
        for x in extra:
            self.solver.add(x)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.stats.queries += 1
        if m is None:
            self.last_model = None
            if self._alt_check(list(extra), self.branch_ms) == z3.sat:
                m = self.last_model
        return m
