"""The two worlds a harness runs in: symbolic (values are unknowns, the solver
decides the assertions) and concrete (values come from a solver model and the
real code runs on them, unpatched but for its environment)."""
import builtins
import json as _json
import math
import os
import shutil
import tempfile
import types
from fractions import Fraction

import numpy as np
import z3

from . import arr as A
from . import engine as E
from .engine import SymBool, SymInt, SymReal, Sym
from .loader import Loader, ModuleProxy
from .rng import RNG, Law, PyRandom


class CheckFailed(Exception):
    """A property violation on the current inputs."""

    def __init__(self, label, info=None):
        Exception.__init__(self, label)
        self.label = label
        self.info = info


class Unconfirmed(Exception):
    """The solver gave no verdict."""


# --------------------------------------------------------------------------
# builtins for symbolic runs


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return x.as_real()
        if isinstance(x, A.SymArray):
            return _FloatMeta.__call__(cls, x.item())
        if isinstance(x, str):
            v = E.engine().tokens.lookup(x)
            if v is not None:
                return v.as_real()
        return float(x)


class float_(float, metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int)

    def __call__(cls, x=0, *base):
        if isinstance(x, Sym):
            return E.to_symint(x)
        if isinstance(x, A.SymArray):
            return _IntMeta.__call__(cls, x.item())
        if isinstance(x, str):
            v = E.engine().tokens.lookup(x)
            if v is not None:
                if type(v) is SymReal:
                    raise ValueError('invalid literal for int() with base 10')
                return v
        return int(x, *base)


class int_(int, metaclass=_IntMeta):
    pass


def _bool(x=False):
    return bool(x)


class MathShim(ModuleProxy):
    def __init__(self):
        ModuleProxy.__init__(self, math)
        for n, f in (('log', A.s_log), ('sqrt', E.sqrt), ('exp', E.exp)):
            self.__dict__[n] = self._wrap(f, getattr(math, n))
        self.__dict__['isnan'] = lambda x: False if isinstance(x, Sym) else math.isnan(x)
        self.__dict__['isinf'] = lambda x: False if isinstance(x, Sym) else math.isinf(x)
        self.__dict__['isfinite'] = lambda x: True if isinstance(x, Sym) else math.isfinite(x)
        self.__dict__['fsum'] = lambda xs: sum(xs)
        self.__dict__['floor'] = lambda x: E.floor(x) if isinstance(x, Sym) else math.floor(x)
        self.__dict__['ceil'] = lambda x: -E.floor(-x) if isinstance(x, Sym) else math.ceil(x)
        self.__dict__['fabs'] = abs
        self.__dict__['pow'] = lambda a, b: a ** b if (isinstance(a, Sym) or isinstance(b, Sym)) else math.pow(a, b)
        self.__dict__['isclose'] = self._isclose

    @staticmethod
    def _wrap(f, real):
        def g(x, *a):
            if isinstance(x, Sym):
                if a:
                    return f(x) / real(a[0])
                return f(x)
            return real(x, *a)
        return g

    @staticmethod
    def _isclose(a, b, rel_tol=1e-9, abs_tol=0.):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d = abs(a - b)
        return E.or_(d <= rel_tol * abs(a), d <= rel_tol * abs(b), d <= abs_tol)


class JsonShim(ModuleProxy):
    """Real json; symbolic numbers travel through the text as tokens."""

    def __init__(self):
        ModuleProxy.__init__(self, _json)

    def _prep(self, o):
        if type(o) is SymReal:
            return float(E.engine().tokens.get(o))
        if type(o) is SymInt:
            return int(E.engine().tokens.get(o))
        if type(o) is SymBool:
            return bool(o)
        if isinstance(o, dict):
            return {(bool(k) if type(k) is SymBool else k.__index__() if isinstance(k, Sym) else k):
                    self._prep(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [self._prep(v) for v in o]
        return o

    def _kw(self, kw):
        prep = self._prep
        cls = kw.pop('cls', None) or _json.JSONEncoder

        class Enc(cls):
            def default(self, o):
                return prep(cls.default(self, o))
        kw['cls'] = Enc
        return kw

    def dumps(self, o, **kw):
        return _json.dumps(self._prep(o), **self._kw(kw))

    def dump(self, o, fp, **kw):
        fp.write(self.dumps(o, **kw))

    def loads(self, s, **kw):
        toks = E.engine().tokens

        def num(conv):
            def f(t):
                v = toks.lookup(t)
                return conv(t) if v is None else v
            return f
        kw.setdefault('parse_float', num(float))
        kw.setdefault('parse_int', num(int))
        return _json.loads(s, **kw)

    def load(self, fp, **kw):
        return self.loads(fp.read(), **kw)


class FakeExpjobs(object):
    """expjobs is not installed: evaluation.py only subclasses its Launcher."""

    @staticmethod
    def modules():
        pkg = types.ModuleType('expjobs')
        pkg.__path__ = []
        h = types.ModuleType('expjobs.helpers')

        class Launcher(object):
            pass
        h.Launcher = Launcher
        pkg.helpers = h
        return {'expjobs': pkg, 'expjobs.helpers': h}


def solver_binary_stub():
    """The external solver executable is reported present; it is never run."""
    path = '/nonexistent/pomdp-solve'
    spawn = types.ModuleType('distutils.spawn')
    spawn.find_executable = lambda executable, path=None: path_of(executable)

    def path_of(executable):
        return '/nonexistent/' + str(executable)
    d = types.ModuleType('distutils')
    d.__path__ = []
    d.spawn = spawn
    import shutil as real_shutil
    sh = ModuleProxy(real_shutil, which=lambda cmd, *a, **k: path_of(cmd))
    return {'distutils': d, 'distutils.spawn': spawn, 'shutil': sh}


class World(object):
    symbolic = False

    def __init__(self):
        self._tmp = None
        self.n_draws = 0
        self.law_ctx = None
        self.draw_log = []
        self.on_draw = None
        self.fixed_draw = None     # n -> value of a uniform index, or None for an unknown one

    def cheap_hash(self):
        """Only when all keys compared are unknowns (or of hash 0)."""

    def share_terms(self):
        """Builds repeated terms once (large arrays of few different entries)."""

    # -- files

    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='symex-')
        return self._tmp

    def close(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    # -- derived inputs

    def reals(self, name, n, lo=None, hi=None):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]

    def real_array(self, name, shape, lo=None, hi=None):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = self.real('%s_%s' % (name, '_'.join(map(str, i))), lo, hi)
        return self.array(a)

    def prob_vector(self, name, n):
        """Arbitrary probability vector."""
        if n == 1:
            return self.array(np.array([1.]))
        xs = [self.real('%s_%d' % (name, i), 0) for i in range(n)]
        if self.symbolic:
            self.assume(sum(xs) == 1)
        else:
            t = sum(xs)
            if t <= 0:
                raise AssumptionFailed()
            xs = [x / t for x in xs] if abs(t - 1) > 1e-12 else xs
        return self.array(np.array(xs, dtype=object))

    def stochastic(self, name, *shape):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape[:-1]):
            a[i] = A.base(A.obj(self.prob_vector('%s_%s' % (name, '_'.join(map(str, i))), shape[-1])))
        return self.array(a)

    def subsets(self, name, items):
        return [x for i, x in enumerate(items) if self.flag('%s%d' % (name, i))]

    def flag(self, name):
        """A boolean input, decided at once."""
        return bool(self.bool(name))

    def pick(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1).__index__()]

    # -- assertions over structures

    def expect_raises(self, exc, f, label):
        """f() must raise exc."""
        try:
            r = f()
        except exc:
            self.check(True, label)
            return
        self.check(False, label, info='no exception, returned %r' % (r,))

    def all_eq(self, xs, ys):
        xs, ys = list(A.base(A.obj(xs)).flat), list(A.base(A.obj(ys)).flat)
        if len(xs) != len(ys):
            return False
        return self.conj([self.eq(x, y) for x, y in zip(xs, ys)])

    def check_all_eq(self, xs, ys, label, info=None):
        """Elementwise equality of two array-likes, shape included."""
        a, b = A.base(A.obj(xs)), A.base(A.obj(ys))
        self.check(a.shape == b.shape, label, info='shape %s, expected %s %s' % (
            a.shape, b.shape, info or ''))
        conds = []
        for i in np.ndindex(*a.shape):
            conds.append(self.eq(a[i], b[i]))
        self.check_conj(conds, label, info)

    def check_conj(self, conds, label, info=None):
        for c in conds:
            self.check(c, label, info)


class SymWorld(World):
    symbolic = True

    def __init__(self, eng, stubs=None):
        World.__init__(self)
        self.eng = eng
        self.rng = RNG(self)
        self.np = A.NumpyShim(self.rng)
        st = {'numpy': self.np, 'numpy.random': self.rng, 'random': PyRandom(self, self.rng),
              'math': MathShim(), 'json': JsonShim()}
        st.update(FakeExpjobs.modules())
        st.update(solver_binary_stub())
        st.update(stubs or {})
        self.loader = Loader(st, {'float': float_, 'int': int_})

    def load(self, name):
        return self.loader.load(name)

    def cheap_hash(self):
        self.eng.cheap_hash = True

    def share_terms(self):
        E.SHARE[0] = True

    # -- inputs

    def _reg(self, name, kind, e):
        if name in self.eng.inputs:
            raise ValueError('duplicate input ' + name)
        self.eng.inputs[name] = (kind, e)

    def real(self, name, lo=None, hi=None):
        v = SymReal(z3.Real(name))
        self._reg(name, 'real', v.n)
        if lo is not None:
            self.eng.assume(v >= lo)
        if hi is not None:
            self.eng.assume(v <= hi)
        return v

    def int(self, name, lo=None, hi=None):
        v = SymInt(z3.Int(name))
        self._reg(name, 'int', v.e)
        if lo is not None and hi is not None:
            self.eng.bounds[name] = (int(lo), int(hi))
        if lo is not None:
            self.eng.assume(v >= lo)
        if hi is not None:
            self.eng.assume(v <= hi)
        return v

    def bool(self, name):
        v = SymBool(z3.Bool(name))
        self._reg(name, 'bool', v.e)
        return v

    def array(self, x):
        return A.obj(x)

    def assume(self, c):
        self.eng.assume(c)

    def feasible(self):
        """The assumptions made so far can be met."""
        if self.eng.pos >= len(self.eng.prefix):
            self.eng.need_model()

    def eq(self, a, b):
        if E.numeric(a) and E.numeric(b):
            if isinstance(a, Sym) or isinstance(b, Sym):
                return E.eq(a, b)
            return exact_close(a, b)
        return a == b

    def eq_ratio(self, x, num, den):
        """x = num / den, for a positive den."""
        c = self.eq(x * den, num)
        if isinstance(c, SymBool):
            (ln, ld), (rn, rd), (dn, dd) = E.to_real(x * den), E.to_real(num), E.to_real(den)
            l, r, scale = ln, rn, dn if dd is None else dn / dd
            if rd is not None:
                l, scale = l * rd, scale * rd
            if ld is not None:
                r, scale = r * ld, scale * ld
            return SymBool(c.e, ('scaled', l, r, scale))
        return c

    def le(self, a, b, tol=0.):
        return a <= b

    def conj(self, cs):
        return E.and_(*cs)

    def disj(self, cs):
        return E.or_(*cs)

    def neg(self, c):
        return E.not_(c)

    def ite(self, c, a, b):
        return E.ite(c, a, b)

    def implies(self, a, b):
        return E.or_(E.not_(a), b)

    def is_sat(self, c):
        """Is the condition possible here? (no fork)"""
        if not isinstance(c, Sym):
            return bool(c)
        return self.eng._query([E.zbool(c)]) != z3.unsat

    def check(self, cond, label, info=None):
        m = self.eng.check(cond, label)
        if m is None:
            return
        if m == 'unknown':
            raise Unconfirmed(label)
        raise Violation(label, info, m)

    def check_conj(self, conds, label, info=None):
        """One query for a conjunction; split to find the failing conjunct."""
        conds = [c for c in conds if isinstance(c, Sym) or not c]
        if any(not isinstance(c, Sym) for c in conds):
            self.check(False, label, info)
        rest, seen = [], {}
        for c in conds:
            e = E.zbool(c)
            if e.get_id() in seen:
                continue
            seen[e.get_id()] = e    # alive, so that ids are not reused
            e = z3.simplify(e, som=True)
            if z3.is_true(e):
                self.eng.stats['queries'] += 1
                self.eng.stats['checks'] += 1
                self.eng.stats['discharged'] += 1
            else:
                rest.append(c)
        if len(rest) <= 1:
            self.check(rest[0] if rest else True, label, info)
            return
        for c in rest:
            self.check(c, label, info)

    # -- randomness

    def check_probabilities(self, p):
        for x in p:
            if bool(x < 0):
                raise ValueError('probabilities are not non-negative')
        d = sum(p) - 1
        if bool(d > 1e-7) or bool(d < -1e-7):
            raise ValueError('probabilities do not sum to 1')

    def draw_index(self, n, p=None):
        n = int(n)
        if self.law_ctx is not None:
            w = [Fraction(1, n)] * n if p is None else [
                x if isinstance(x, Sym) else (E.simplest_fraction(float(x))) for x in p]
            return np.int64(self.law_ctx.pick(w))
        if p is None and self.fixed_draw is not None:
            k = self.fixed_draw(n)
            if k is not None:
                self.draw_log.append(('index', n, p, k))
                return np.int64(k)
        self.n_draws += 1
        k = self.int('draw%d' % self.n_draws, 0, n - 1)
        if p is not None:
            self.eng.assume(E.or_(*[E.and_(k == i, 0 < p[i] if isinstance(p[i], Sym) else bool(p[i] > 0))
                                    for i in range(n)]))
        self.draw_log.append(('index', n, p, k))
        if self.on_draw:
            self.on_draw(self.draw_log[-1])
        return k

    def draw_unit(self):
        if self.law_ctx is not None:
            self.law_ctx.n_draws += 1
            return self.law_ctx.uniform('unit%d!%d' % (self.law_ctx.n_draws, self._law_run))
        self.n_draws += 1
        u = SymReal(z3.Real('draw%d' % self.n_draws))
        self._reg('draw%d' % self.n_draws, 'real', u.n)
        self.eng.assume(u >= 0)
        self.eng.assume(u < 1)
        self.draw_log.append(('unit', u))
        if self.on_draw:
            self.on_draw(self.draw_log[-1])
        return u

    _law_run = 0

    def law(self, f):
        """[(weight, outcome)] over every sequence of draws of f()."""
        out = []
        stack = [[]]
        while stack:
            ctx = Law(stack.pop(), stack, True)
            SymWorld._law_run += 1
            self.law_ctx = ctx
            self.eng.law = ctx
            try:
                r = f()
            finally:
                self.law_ctx = None
                self.eng.law = None
            out.append((ctx.weight, r))
            if len(out) > 200000:
                raise E.Unsupported('too many random outcomes')
        return out


def exact_close(a, b):
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return bool(a == b)
    if a != a or b != b:
        return a != a and b != b
    if a in (math.inf, -math.inf) or b in (math.inf, -math.inf):
        return a == b
    a, b = float(a), float(b)
    return abs(a - b) <= 1e-9 * max(1., abs(a), abs(b))


class Violation(Exception):
    def __init__(self, label, info, model):
        Exception.__init__(self, label)
        self.label, self.info, self.model = label, info, model


class AssumptionFailed(Exception):
    pass


class ConcreteWorld(World):
    """Runs a harness on the real code with given input values."""
    symbolic = False
    TOL = 1e-7

    def __init__(self, values, stubs=None):
        World.__init__(self)
        self.values = values
        self.rng = RNG(self)
        self.np = np
        st = {'random': PyRandom(self, self.rng)}
        st.update(FakeExpjobs.modules())
        st.update(solver_binary_stub())
        st.update(stubs or {})
        self.loader = Loader(st)
        self.log = []
        self.checked = {}

    def load(self, name):
        return self.loader.load(name)

    def patch_rng(self):
        names = ['choice', 'random', 'random_sample', 'ranf', 'sample', 'rand', 'uniform', 'randint',
                 'seed', 'binomial', 'multinomial', 'permutation', 'shuffle', 'RandomState',
                 'default_rng']
        saved = {n: getattr(np.random, n) for n in names}
        for n in names:
            setattr(np.random, n, getattr(self.rng, n))
        return saved

    @staticmethod
    def unpatch_rng(saved):
        for n, f in saved.items():
            setattr(np.random, n, f)

    def _get(self, name, kind, lo, hi):
        v = self.values.get(name)
        if v is None:
            v = lo if lo is not None else (hi if hi is not None else 0)
        if isinstance(v, str):
            v = Fraction(v)
        return v

    def real(self, name, lo=None, hi=None):
        return float(self._get(name, 'real', lo, hi))

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, 'int', lo, hi))

    def bool(self, name):
        return bool(self._get(name, 'bool', False, None))

    def array(self, x):
        a = np.asarray(x)
        if a.dtype == object and all(isinstance(v, (int, float)) for v in a.flat) and a.size:
            if all(type(v) is int for v in a.flat):
                a = a.astype(int)
            elif all(type(v) is bool for v in a.flat):
                a = a.astype(bool)
            else:
                a = a.astype(float)
        return a

    def assume(self, c):
        if not c:
            raise AssumptionFailed()

    def feasible(self):
        pass

    def eq(self, a, b):
        if E.is_number(a) and E.is_number(b):
            if isinstance(a, float) or isinstance(b, float) or isinstance(a, np.floating) \
                    or isinstance(b, np.floating):
                if a != a or b != b:
                    return bool(a != a and b != b)
                if np.isinf(a) or np.isinf(b):
                    return bool(a == b)
                return abs(a - b) <= self.TOL * max(1., abs(a), abs(b))
            return bool(a == b)
        r = a == b
        return bool(r) if not isinstance(r, np.ndarray) else bool(r.all())

    def eq_ratio(self, x, num, den):
        return self.eq(float(x), float(num) / float(den))

    def le(self, a, b, tol=1e-7):
        return bool(a <= b + tol * max(1., abs(b)))

    def conj(self, cs):
        return all(bool(c) for c in cs)

    def disj(self, cs):
        return any(bool(c) for c in cs)

    def neg(self, c):
        return not c

    def ite(self, c, a, b):
        return a if c else b

    def implies(self, a, b):
        return (not a) or bool(b)

    def is_sat(self, c):
        return bool(c)

    def check(self, cond, label, info=None):
        self.checked[label] = self.checked.get(label, 0) + 1
        if not cond:
            raise CheckFailed(label, info)

    # -- randomness

    def check_probabilities(self, p):
        if any(x < 0 for x in p):
            raise ValueError('probabilities are not non-negative')
        if abs(sum(p) - 1) > 1e-7:
            raise ValueError('probabilities do not sum to 1')

    def draw_index(self, n, p=None):
        n = int(n)
        if self.law_ctx is not None:
            return np.int64(self.law_ctx.pick([1. / n] * n if p is None else [float(x) for x in p]))
        if p is None and self.fixed_draw is not None:
            k = self.fixed_draw(n)
            if k is not None:
                self.draw_log.append(('index', n, p, k))
                return np.int64(k)
        self.n_draws += 1
        k = int(self._get('draw%d' % self.n_draws, 'int', 0, None))
        if p is not None and p[min(k, n - 1)] <= 0:
            k = int(np.argmax([float(x) for x in p]))
        k = min(k, n - 1)
        self.draw_log.append(('index', n, p, k))
        if self.on_draw:
            self.on_draw(self.draw_log[-1])
        return np.int64(k)

    def draw_unit(self):
        if self.law_ctx is not None:
            self.law_ctx.n_draws += 1
            return self.law_ctx.uniform('unit%d' % self.law_ctx.n_draws)
        self.n_draws += 1
        u = float(self._get('draw%d' % self.n_draws, 'real', 0, None))
        self.draw_log.append(('unit', u))
        if self.on_draw:
            self.on_draw(self.draw_log[-1])
        return u

    def law(self, f):
        out = []
        stack = [[]]
        while stack:
            ctx = Law(stack.pop(), stack, False)
            self.law_ctx = ctx
            try:
                r = f()
            finally:
                self.law_ctx = None
            out.append((ctx.weight, r))
        return out
