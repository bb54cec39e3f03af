"""Path-forking symbolic executor for Python code.

The code under test is the real source of /repo, executed by CPython, with
z3-backed proxy values as inputs.  Every time the code asks for the truth value
of a symbolic condition, the engine asks the solver which outcomes are possible
under the current path condition and explores each of them (depth first, by
re-execution with a recorded decision prefix).  At every assertion the solver
is asked for a value of the inputs, under the path condition, that violates it.

Floats are idealised as exact real numbers: a float constant of the program
stands for the simplest rational within 1e-13 of it (relative).
"""
import math
import time
from fractions import Fraction

import z3


class PathAbort(BaseException):
    """Steers exploration; never an error of the code under test."""


class Infeasible(PathAbort):
    pass


class Unsupported(BaseException):
    """The engine cannot encode an operation: the run is inconclusive."""


class BudgetExceeded(BaseException):
    pass


ENGINE = None  # current engine (one per process at a time)


def engine():
    if ENGINE is None:
        raise Unsupported('no symbolic engine is active')
    return ENGINE


# --------------------------------------------------------------------------
# numbers

_FRAC_CACHE = {}


def simplest_fraction(x):
    """Simplest rational within 1e-13 (relative) of float x."""
    f = _FRAC_CACHE.get(x)
    if f is not None:
        return f
    exact = Fraction(x)
    f = exact
    if x != 0 and exact.denominator != 1:
        tol = abs(exact) * Fraction(1, 10 ** 13)
        d = 1
        while d < 10 ** 16:
            c = exact.limit_denominator(d)
            if abs(c - exact) <= tol:
                f = c
                break
            d *= 10
    _FRAC_CACHE[x] = f
    return f


def is_number(x):
    """A concrete number."""
    return not isinstance(x, Sym) and (isinstance(x, (int, float, Fraction)) or (
        type(x).__module__ == 'numpy' and
        type(x).__name__.startswith(('int', 'uint', 'float', 'bool'))))


def _rv(x):
    """z3 real constant for a concrete number."""
    if isinstance(x, bool) or type(x).__name__ in ('bool_', 'bool'):
        return z3.RealVal(1 if x else 0)
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, float) or type(x).__name__.startswith('float'):
        f = simplest_fraction(float(x))
        return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)
    if hasattr(x, '__index__'):
        return z3.RealVal(int(x))
    raise Unsupported('cannot lift %r' % (x,))


def _isnan(x):
    return not isinstance(x, Sym) and isinstance(x, float) and x != x


def _isinf(x):
    return not isinstance(x, Sym) and isinstance(x, float) and x in (math.inf, -math.inf)


class Sym(object):
    __slots__ = ()

    def __iter__(self):
        raise TypeError('symbolic scalar is not iterable')


ONE = z3.RealVal(1)
ZERO = z3.RealVal(0)


def to_real(x):
    """(num, den) of anything numeric."""
    if type(x) is SymReal:
        return x.n, x.d
    if type(x) is SymInt:
        return z3.ToReal(x.e), None
    if type(x) is SymBool:
        return z3.If(x.e, ONE, ZERO), None
    return _rv(x), None


def to_int(x):
    if type(x) is SymInt:
        return x.e
    if type(x) is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, int) or hasattr(x, '__index__'):
        return z3.IntVal(int(x))
    raise Unsupported('not an integer: %r' % (x,))


def intlike(x):
    return type(x) in (SymInt, SymBool) or (isinstance(x, int)) or (
        type(x).__module__ == 'numpy' and type(x).__name__.startswith(('int', 'uint', 'bool')))


def numeric(x):
    return isinstance(x, Sym) or is_number(x)


def is_zero(x):
    return not isinstance(x, Sym) and is_number(x) and x == 0


def is_one(x):
    return not isinstance(x, Sym) and is_number(x) and x == 1


def _norm_den(den):
    return den


_MEMO = {}
SHARE = [False]    # for large arrays of repeated terms


def _key(x):
    t = type(x)
    if t is SymReal:
        return (x.n.get_id(), 0 if x.d is None else x.d.get_id() + 1)
    if t is SymInt:
        return ('i', x.e.get_id())
    if t in (int, float):
        return (t, x)
    return None


def _memoized(f):
    """Terms are values: the same operation on the same operands is the same term."""
    def g(a, b, *op):
        if not SHARE[0]:
            return f(a, b, *op)
        ka = _key(a)
        kb = _key(b) if ka is not None else None
        if kb is None:
            return f(a, b, *op)
        k = (f, ka, kb) + op
        r = _MEMO.get(k)
        if r is None:
            r = _MEMO[k] = (f(a, b, *op), a, b)   # keeps the terms alive, hence their ids
        return r[0]
    g.__name__ = f.__name__
    return g


@_memoized
def add(a, b):
    if is_zero(a) and isinstance(b, Sym):
        return _realish(b, a)
    if is_zero(b) and isinstance(a, Sym):
        return _realish(a, b)
    for x in (a, b):
        if _isnan(x) or _isinf(x):
            return float(x)
    if intlike(a) and intlike(b):
        return SymInt(to_int(a) + to_int(b))
    an, ad = to_real(a)
    bn, bd = to_real(b)
    if ad is None and bd is None:
        return SymReal(an + bn)
    if ad is not None and bd is not None and ad.eq(bd):
        return SymReal(an + bn, ad)
    if ad is None:
        return SymReal(an * bd + bn, bd)
    if bd is None:
        return SymReal(an + bn * ad, ad)
    return SymReal(an * bd + bn * ad, ad * bd)


def _realish(x, other):
    """x, promoted to real if the other operand is a float."""
    if intlike(x) and isinstance(other, float):
        return SymReal(*to_real(x))
    if type(x) is SymBool:
        return SymInt(to_int(x))
    return x


def neg(a):
    if type(a) in (SymInt, SymBool):
        return SymInt(-to_int(a))
    return _neg_real(a, 0)


@_memoized
def _neg_real(a, _):
    return SymReal(-a.n, a.d)


def sub(a, b):
    if isinstance(b, Sym):
        return add(a, neg(b))
    return add(a, -b)


@_memoized
def mul(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Sym):
            continue
        if _isnan(x):
            return x
        if _isinf(x):
            raise Unsupported('inf * symbolic')
        if is_zero(x):
            return 0 if (intlike(x) and intlike(y)) else 0.
        if is_one(x):
            return _realish(y, x)
    if intlike(a) and intlike(b):
        if type(a) is SymBool:
            return ite(a, b, 0)
        if type(b) is SymBool:
            return ite(b, a, 0)
        return SymInt(to_int(a) * to_int(b))
    an, ad = to_real(a)
    bn, bd = to_real(b)
    if ad is None:
        d = bd
    elif bd is None:
        d = ad
    else:
        d = ad * bd
    if d is not None and ad is None and an.eq(d):   # x * (y / x)
        return SymReal(bn)
    if d is not None and bd is None and bn.eq(d):
        return SymReal(an)
    return SymReal(an * bn, d)


NUMPY_DIV = [False]   # inside a numpy elementwise division


def div(a, b):
    """True division. The sign of a symbolic denominator is settled by forking."""
    if not isinstance(b, Sym):
        if b == 0:
            if NUMPY_DIV[0]:
                if isinstance(a, Sym):
                    if bool(eq(a, 0)):
                        return math.nan
                    return math.inf if bool(lt(0, a)) else -math.inf
                return math.nan if (a == 0 or a != a) else math.copysign(math.inf, a)
            raise ZeroDivisionError('division by zero')
        if not isinstance(a, Sym):
            return a / b
        if _isinf(b):
            return 0.
        if _isnan(b):
            return b
        inv = 1 / simplest_fraction(float(b)) if isinstance(b, float) or not intlike(b) else Fraction(1, int(b))
        an, ad = to_real(a)
        if inv == 1:
            return SymReal(an, ad)
        return SymReal(an * z3.Q(inv.numerator, inv.denominator), ad)
    bn, bd = to_real(b)
    if bool(SymBool(bn == 0)):
        return div(a, 0)
    if _isnan(a) or _isinf(a):
        raise Unsupported('inf / symbolic')
    if is_zero(a):
        return 0.
    pos = bool(SymBool(bn > 0))
    an, ad = to_real(a)
    if not pos:
        an, bn = -an, -bn
    # (an/ad) / (bn/bd) = an*bd / (ad*bn)
    if bd is not None and ad is not None and bd.eq(ad):
        return SymReal(an, bn)
    if bd is not None:
        an = an * bd
    if ad is not None:
        bn = bn * ad
    return SymReal(an, bn)


@_memoized
def _cmp(a, b, op):
    for x, y, flip in ((a, b, False), (b, a, True)):
        if _isnan(x):
            return op == 'ne'
        if _isinf(x):
            if op in ('eq', 'ne'):
                return op == 'ne'
            pos = x > 0
            # x op y with x infinite
            lt_ = (not pos) if not flip else pos
            return lt_ if op in ('lt', 'le') else not lt_
    if intlike(a) and intlike(b):
        if type(a) is SymBool and type(b) is SymBool and op in ('eq', 'ne'):
            e = a.e == b.e
            return SymBool(e if op == 'eq' else z3.Not(e))
        l, r = to_int(a), to_int(b)
        sb = SymBool(_OPS[op](l, r))
        return sb
    an, ad = to_real(a)
    bn, bd = to_real(b)
    if ad is not None and bd is not None and ad.eq(bd):
        l, r = an, bn
    else:
        l = an if bd is None else an * bd
        r = bn if ad is None else bn * ad
    return SymBool(_OPS[op](l, r), (op, l, r))


_OPS = {'lt': lambda l, r: l < r, 'le': lambda l, r: l <= r,
        'gt': lambda l, r: l > r, 'ge': lambda l, r: l >= r,
        'eq': lambda l, r: l == r, 'ne': lambda l, r: l != r}
_NEG = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}


def eq(a, b):
    return _cmp(a, b, 'eq')


def lt(a, b):
    return _cmp(a, b, 'lt')


def le(a, b):
    return _cmp(a, b, 'le')


def ite(c, a, b):
    """If-then-else without forking."""
    if not isinstance(c, Sym):
        return a if c else b
    c = truth(c)
    if not isinstance(c, Sym):
        return a if c else b
    if a is b:
        return a
    if (type(a) in (SymBool, bool) or type(a).__name__ == 'bool_') and (
            type(b) in (SymBool, bool) or type(b).__name__ == 'bool_'):
        return SymBool(z3.If(c.e, zbool(a), zbool(b)))
    if intlike(a) and intlike(b):
        return SymInt(z3.If(c.e, to_int(a), to_int(b)))
    for x in (a, b):
        if _isnan(x) or _isinf(x) or not numeric(x):
            return a if bool(c) else b
    an, ad = to_real(a)
    bn, bd = to_real(b)
    if ad is None and bd is None:
        return SymReal(z3.If(c.e, an, bn))
    if ad is not None and bd is not None and ad.eq(bd):
        return SymReal(z3.If(c.e, an, bn), ad)
    ad = ONE if ad is None else ad
    bd = ONE if bd is None else bd
    return SymReal(z3.If(c.e, an, bn), z3.If(c.e, ad, bd))


def zbool(x):
    """z3 Bool of a bool-like value."""
    if type(x) is SymBool:
        return x.e
    if type(x) is SymInt:
        return x.e != 0
    if type(x) is SymReal:
        return x.n != 0
    if z3.is_expr(x):
        return x
    return z3.BoolVal(bool(x))


def truth(x):
    """SymBool or bool for a value used as a condition, without forking."""
    if type(x) is SymBool:
        return x
    if isinstance(x, Sym):
        return SymBool(zbool(x))
    return bool(x)


def and_(*xs):
    xs = [x for x in xs if not (x is True or type(x).__name__ in ('bool', 'bool_') and bool(x))]
    if any(not isinstance(x, Sym) and not z3.is_expr(x) and not x for x in xs):
        return False
    if not xs:
        return True
    if len(xs) == 1:
        return truth(xs[0])
    return SymBool(z3.And(*[zbool(x) for x in xs]))


def or_(*xs):
    if any(not isinstance(x, Sym) and not z3.is_expr(x) and x for x in xs):
        return True
    xs = [x for x in xs if isinstance(x, Sym) or z3.is_expr(x)]
    if not xs:
        return False
    if len(xs) == 1:
        return truth(xs[0])
    return SymBool(z3.Or(*[zbool(x) for x in xs]))


def not_(x):
    if isinstance(x, Sym):
        x = truth(x)
        if x.atom is not None:
            op, l, r = x.atom
            return SymBool(z3.Not(x.e), (_NEG[op], l, r))
        return SymBool(z3.Not(x.e))
    return not x


def _binop(f, r=False):
    def op(self, other):
        if not numeric(other):
            return NotImplemented
        return f(other, self) if r else f(self, other)
    return op


def _cmpop(name):
    def op(self, other):
        if not numeric(other):
            if type(other).__name__.endswith('rray'):
                return NotImplemented
            if name == 'eq':
                return False
            if name == 'ne':
                return True
            return NotImplemented
        return _cmp(self, other, name)
    return op


_ARRAY_METHODS = {'all', 'any', 'argmax', 'argmin', 'astype', 'clip', 'cumsum', 'dot', 'flatten', 'nonzero',
                  'prod', 'ravel', 'reshape', 'round', 'squeeze', 'repeat', 'T', 'flat', 'tobytes'}


class _Num(Sym):
    __slots__ = ()
    __array_priority__ = -1.    # after arrays, before numpy scalars
    __add__ = _binop(add)
    __radd__ = _binop(add, True)
    __sub__ = _binop(sub)
    __rsub__ = _binop(sub, True)
    __mul__ = _binop(mul)
    __rmul__ = _binop(mul, True)
    __truediv__ = _binop(div)
    __rtruediv__ = _binop(div, True)
    __lt__ = _cmpop('lt')
    __le__ = _cmpop('le')
    __gt__ = _cmpop('gt')
    __ge__ = _cmpop('ge')
    __eq__ = _cmpop('eq')
    __ne__ = _cmpop('ne')

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __pow__(self, k):
        if isinstance(k, Sym):
            if type(k) in (SymInt, SymBool):
                k = k.__index__()
            else:
                raise Unsupported('symbolic exponent')
        if k == 0.5:
            return sqrt(self)
        if int(k) != k:
            raise Unsupported('fractional power')
        k = int(k)
        r = 1 if intlike(self) else 1.
        for _ in range(abs(k)):
            r = mul(r, self) if isinstance(r, Sym) or isinstance(self, Sym) else r * self
        return r if k >= 0 else div(1., r)

    def __rpow__(self, b):
        if type(self) in (SymInt, SymBool):
            return b ** self.__index__()
        raise Unsupported('symbolic exponent')

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def item(self):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    # a numpy scalar has the methods of arrays
    def __getattr__(self, name):
        if name in _ARRAY_METHODS:
            from . import arr
            return getattr(arr.obj(self), name)
        raise AttributeError("%r object has no attribute %r" % (type(self).__name__, name))

    shape, ndim, size = (), 0, 1

    def _self(self, *a, **kw):
        return self

    sum = mean = max = min = prod = _self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return token(self)

    __str__ = __repr__

    def __format__(self, spec):
        return fmt_token(self, spec)


class SymReal(_Num):
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d   # positive under the path condition, or None for 1

    @property
    def __class__(self):
        return float

    def __hash__(self):
        if engine().cheap_hash:      # every unknown collides; equality decides
            return 0
        # consistent with the hashes of the integers 0 and 1 and of other unknowns
        for k in (0, 1):
            if bool(eq(self, k)):
                return hash(k)
        return engine().hash_of('real', [self])

    def __bool__(self):
        return bool(SymBool(self.n != 0))

    def __abs__(self):
        return SymReal(z3.If(self.n >= 0, self.n, -self.n), self.d)

    def __float__(self):
        raise Unsupported('float() of a symbolic real by C code')

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __trunc__(self):
        return ite(self >= 0, floor(self), -floor(-self))

    def __floordiv__(self, o):
        return SymReal(*to_real(floor(div(self, o))))

    def __rfloordiv__(self, o):
        return SymReal(*to_real(floor(div(o, self))))

    def __mod__(self, o):
        return self - o * floor(div(self, o))

    def __round__(self, nd=None):
        r = around(self, nd or 0)
        return to_symint(r) if nd is None else r

    def is_integer(self):
        return eq(self, floor(self))

    def as_real(self):
        return self


def _terms(e, k, out):
    """Linear form of an integer expression: out[id] = (coefficient, atom)."""
    if z3.is_int_value(e):
        out[None] = out.get(None, 0) + k * e.as_long()
    elif z3.is_add(e):
        for c in e.children():
            _terms(c, k, out)
    elif z3.is_sub(e):
        cs = e.children()
        _terms(cs[0], k, out)
        for c in cs[1:]:
            _terms(c, -k, out)
    elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
        _terms(e.arg(0), -k, out)
    elif z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
        _terms(e.arg(1), k * e.arg(0).as_long(), out)
    elif z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(1)):
        _terms(e.arg(0), k * e.arg(1).as_long(), out)
    else:
        i = e.get_id()
        c = out.get(i, (0, e))[0] + k
        if c:
            out[i] = (c, e)
        else:
            out.pop(i, None)


def _bounds(e, bounds):
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        a, b = _bounds(e.arg(1), bounds), _bounds(e.arg(2), bounds)
        return None if a is None or b is None else (min(a[0], b[0]), max(a[1], b[1]))
    if z3.is_int_value(e):
        return e.as_long(), e.as_long()
    if z3.is_app_of(e, z3.Z3_OP_MOD) and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0:
        return 0, e.arg(1).as_long() - 1
    if z3.is_const(e):
        return bounds.get(e.decl().name())
    return None


def _divmod(e, m):
    """Exact (e div m, e mod m) of a linear form over bounded atoms, or None."""
    t = {}
    _terms(e, 1, t)
    c = t.pop(None, 0)
    q, r = c // m, c % m
    high, low, lo, hi = [], [], r, r
    eng = engine()
    for k, a in t.values():
        if k % m == 0:
            high.append((k // m, a))
            continue
        b = _bounds(a, eng.bounds)
        if b is None:
            return None
        low.append((k, a))
        lo += min(k * b[0], k * b[1])
        hi += max(k * b[0], k * b[1])
    if lo // m != hi // m:
        return None
    off = lo // m

    def total(const, terms):
        x = [z3.IntVal(const)] if const or not terms else []
        x += [a if k == 1 else z3.IntVal(k) * a for k, a in terms]
        return x[0] if len(x) == 1 else z3.Sum(*x)
    return total(q + off, high), total(r - off * m, low)


def _int_result(e):
    return e.as_long() if z3.is_int_value(e) else SymInt(e)


class SymInt(_Num):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return bool(SymBool(self.e != 0))

    def __index__(self):
        return engine().concretise(self.e)

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, k):
        if type(k) is SymReal or isinstance(k, float):
            return SymReal(*to_real(self)) // k
        if isinstance(k, Sym):
            k = k.__index__()
        k = int(k)
        if k > 0:
            x = _divmod(self.e, k)
            return _int_result(x[0]) if x else SymInt(self.e / z3.IntVal(k))
        if k < 0:
            return SymInt((-self.e) / z3.IntVal(-k))
        raise ZeroDivisionError

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __mod__(self, k):
        if type(k) is SymReal or isinstance(k, float):
            return SymReal(*to_real(self)) % k
        if isinstance(k, Sym):
            k = k.__index__()
        k = int(k)
        if k > 0:
            x = _divmod(self.e, k)
            return _int_result(x[1]) if x else SymInt(self.e % z3.IntVal(k))
        if k == 0:
            raise ZeroDivisionError
        raise Unsupported('negative modulus')

    def __rmod__(self, o):
        return o % self.__index__()

    def __divmod__(self, k):
        return self // k, self % k

    def __rshift__(self, k):
        k = int(k)
        return self // (1 << k) if k else self

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __lshift__(self, k):
        return mul(self, 1 << int(k))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __and__(self, m):
        if isinstance(m, Sym):
            if type(m) is SymBool:
                m = SymInt(to_int(m))
            if bool(m < 0):
                return self - (self & -(m + 1))
            top = next((k for k in (1, 4, 16, 64) if proved(le(m, (1 << k) - 1)) or
                        proved(and_(le(0, self), le(self, (1 << k) - 1)))), None)
            if top is None:
                raise Unsupported('bit mask of unbounded unknowns')
            return sum((mul(mul(self._bit(i), m._bit(i)), 1 << i)
                        for i in range(top)), 0)
        m = int(m)
        if m < 0:
            return self - (self & ~m)
        r = 0
        for i in range(m.bit_length()):
            if m >> i & 1:
                r = r + self._bit(i) * (1 << i)
        return r

    __rand__ = __and__

    def _bit(self, i):
        return (self >> i) % 2

    def __or__(self, m):
        return self + m - (self & m)

    __ror__ = __or__

    def __xor__(self, m):
        return self + m - 2 * (self & m)

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __round__(self, nd=None):
        return self

    def bit_length(self):
        return self.__index__().bit_length()

    def is_integer(self):
        return True

    def as_real(self):
        return SymReal(z3.ToReal(self.e))


class SymBool(_Num):
    __slots__ = ('e', 'atom')

    def __init__(self, e, atom=None):
        self.e = e
        self.atom = atom

    @property
    def __class__(self):
        return bool

    def __hash__(self):
        return hash(bool(self))

    def __bool__(self):
        return engine().branch(self)

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __abs__(self):
        return self

    def __and__(self, o):
        if type(o) is SymInt:
            return o & self
        if not isinstance(o, Sym) and not isinstance(o, bool) and type(o).__name__ not in ('bool_', 'bool'):
            return SymInt(to_int(self)) & o
        eng = engine()
        if eng.law_active():
            return bool(self) & bool(o)
        return and_(self, o)

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is SymInt:
            return o | self
        if not isinstance(o, Sym) and not isinstance(o, bool) and type(o).__name__ not in ('bool_', 'bool'):
            return SymInt(to_int(self)) | o
        if engine().law_active():
            return bool(self) | bool(o)
        return or_(self, o)

    __ror__ = __or__

    def __xor__(self, o):
        if intlike(o) and type(o) not in (SymBool, bool):
            return SymInt(to_int(self)) ^ o
        return SymBool(z3.Xor(self.e, zbool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        # numpy semantics (arrays of booleans); ~True on python bools is unused
        return not_(self)

    def __lshift__(self, k):
        return SymInt(to_int(self)) << k

    def __rshift__(self, k):
        return SymInt(to_int(self)) >> k

    def __floordiv__(self, k):
        return SymInt(to_int(self)) // k

    def __mod__(self, k):
        return SymInt(to_int(self)) % k

    def __neg__(self):
        return SymInt(-to_int(self))

    def __round__(self, nd=None):
        return SymInt(to_int(self))

    def as_real(self):
        return SymReal(*to_real(self))


def to_symint(x):
    """int() of a symbolic value."""
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return SymInt(to_int(x))
    if type(x) is SymReal:
        if x.d is None and z3.is_app_of(x.n, z3.Z3_OP_TO_REAL):
            return SymInt(x.n.arg(0))
        return x.__trunc__()
    return int(x)


def floor(x):
    if intlike(x):
        return x
    if x.d is None:
        return SymInt(z3.ToInt(x.n))
    eng = engine()
    k = eng.fresh_int('floor')
    kr = z3.ToReal(k.e)
    eng.define(z3.And(kr * x.d <= x.n, x.n < kr * x.d + x.d))
    return k


def around(x, decimals=0):
    """Round half to even is left unspecified: any nearest neighbour."""
    if not isinstance(x, Sym):
        return round(float(x), decimals)
    if intlike(x):
        return x
    eng = engine()
    key = ('around', x.n.get_id(), None if x.d is None else x.d.get_id(), decimals)
    if key in eng.memo:
        return eng.memo[key][0]
    k = eng.fresh_int('rnd')
    sc = 10 ** decimals
    kr = z3.ToReal(k.e)
    d = ONE if x.d is None else x.d
    lhs = x.n * (2 * sc)
    # |x*sc - k| <= 1/2
    eng.define(z3.And(2 * kr * d - d <= lhs, lhs <= 2 * kr * d + d))
    r = SymReal(kr * z3.Q(1, sc))
    eng.memo[key] = (r, x)
    return r


def sqrt(x):
    if not isinstance(x, Sym):
        return math.sqrt(x)
    x = x.as_real()
    if bool(x < 0):
        if NUMPY_DIV[0]:
            return math.nan
        raise ValueError('math domain error')
    eng = engine()
    key = ('sqrt', x.n.get_id(), None if x.d is None else x.d.get_id())
    if key in eng.memo:
        return eng.memo[key][0]
    r = eng.fresh_real('sqrt')
    d = ONE if x.d is None else x.d
    eng.define(z3.And(r.n >= 0, r.n * r.n * d == x.n))
    eng.memo[key] = (r, x)
    return r


def exp(x):
    """exp as a function symbol with the axioms stated in DESIGN.md."""
    if not isinstance(x, Sym):
        return math.exp(x)
    eng = engine()
    x = x.as_real()
    for y, r in eng.exps:
        if proved_equal(x, y):
            return r
    r = eng.fresh_real('exp')
    eng.define(z3.And(r.n > 0, z3.Implies(x.n <= 0, r.n <= 1), z3.Implies(x.n == 0, r.n == 1),
                      z3.Implies(x.n < 0, r.n < 1), z3.Implies(x.n > 0, r.n > 1)))
    for y, ry in eng.exps:
        eng.define(z3.And(z3.Implies(zbool(x < y), r.n < ry.n),
                          z3.Implies(zbool(x == y), r.n == ry.n),
                          z3.Implies(zbool(y < x), ry.n < r.n)))
    eng.exps.append((x, r))
    return r


def log(x):
    if not isinstance(x, Sym):
        if x == 0:
            if NUMPY_DIV[0]:
                return -math.inf
        return math.log(x)
    eng = engine()
    x = x.as_real()
    if bool(x <= 0):
        if NUMPY_DIV[0]:
            return -math.inf if bool(x == 0) else math.nan
        raise ValueError('math domain error')
    for y, r in eng.logs:
        if proved_equal(x, y):
            return r
    r = eng.fresh_real('log')
    eng.define(z3.And(z3.Implies(zbool(x == 1), r.n == 0), z3.Implies(zbool(x > 1), r.n > 0),
                      z3.Implies(zbool(x < 1), r.n < 0)))
    for y, ry in eng.logs:
        eng.define(z3.And(z3.Implies(zbool(x < y), r.n < ry.n),
                          z3.Implies(zbool(x == y), r.n == ry.n),
                          z3.Implies(zbool(y < x), ry.n < r.n)))
    eng.logs.append((x, r))
    return r


def proved(c):
    """Whether the condition holds for all values on the path."""
    return engine()._query([z3.Not(zbool(c))]) == z3.unsat if isinstance(c, Sym) else bool(c)


def proved_equal(x, y):
    e = zbool(eq(x, y))
    s = z3.simplify(e, som=True)
    return z3.is_true(s)


# --------------------------------------------------------------------------
# text tokens: symbolic numbers printed into concrete text


class Tokens(object):
    def __init__(self):
        self.by_tok = {}
        self.by_key = {}

    def get(self, x, spec=''):
        if type(x) is SymReal:
            key = ('r', x.n.get_id(), None if x.d is None else x.d.get_id(), spec)
        else:
            key = (type(x).__name__, x.e.get_id(), spec)
        t = self.by_key.get(key)
        if t is None:
            # numeric-looking token: parsed back by the shimmed int/float
            t = '77%06d00%s' % (len(self.by_tok) + 1, '' if type(x) is SymInt else '.25')
            self.by_key[key] = t
            self.by_tok[t] = (x, spec)
        return t

    def lookup(self, s):
        """Sym for a token text (optional sign), or None."""
        s = s.strip()
        sign = 1
        if s.startswith('-'):
            sign, s = -1, s[1:]
        v = self.by_tok.get(s)
        if v is None:
            return None
        x, spec = v
        x = formatted_value(x, spec)
        return x if sign == 1 else -x


def formatted_value(x, spec):
    """The number that text formatted with spec denotes."""
    if spec and spec[-1] in 'fF' and '.' in spec:
        return around(x.as_real(), int(spec[:-1].split('.')[1]))
    if spec and spec[-1] in 'eEgG%':
        raise Unsupported('format spec %r' % spec)
    return x


def token(x):
    if type(x) is SymBool:
        return str(bool(x))
    return engine().tokens.get(x)


def fmt_token(x, spec):
    if type(x) is SymBool:
        return format(bool(x), spec)
    if spec and spec[-1] in 'eEgG%':
        raise Unsupported('format spec %r' % spec)
    return engine().tokens.get(x, spec)


# --------------------------------------------------------------------------
# engine


class Candidate(Exception):
    pass


class Engine(object):

    def __init__(self, timeout_ms=20000, max_paths=200000, deadline=None):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = dict(paths=0, infeasible=0, queries=0, solver_s=0., checks=0,
                          discharged=0, forks=0, unknown=0, max_depth=0, trivial=0, undecided_paths=0)
        self.reached = {}        # check label -> number of feasible paths reaching it
        self.witness = {}        # check label -> reachability witness obtained from the solver
        self.unknowns = []
        self.worklist = [[]]

    # -- path life cycle

    def start_path(self, prefix):
        self.prefix = prefix
        _MEMO.clear()
        SHARE[0] = False
        self.pos = 0
        self.trail = []
        self.solver = z3.Solver()
        self.solver.set('timeout', min(4000, self.timeout_ms))
        self.constraints = []
        self.model = None
        self.known = {}
        self.counter = {}
        self.memo = {}
        self.exps = []
        self.logs = []
        self.inputs = {}
        self.bounds = {}
        self.tokens = Tokens()
        self.hreg = {}
        self.cheap_hash = False
        self.law = None
        self.keep = []
        self.negated = None

    def fresh_name(self, base):
        self.counter[base] = self.counter.get(base, 0) + 1
        return '%s!%d' % (base, self.counter[base])

    def fresh_real(self, base):
        return SymReal(z3.Real(self.fresh_name(base)))

    def fresh_int(self, base):
        return SymInt(z3.Int(self.fresh_name(base)))

    # -- solver

    def _tick(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded('time budget of the check is exhausted')

    def _query(self, extra):
        """sat / unsat / unknown of path condition + extra; model in self._m."""
        self._tick()
        t0 = time.time()
        self.stats['queries'] += 1
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            self._m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
        if r == z3.unknown:
            r = self._fallback(extra)
        self.stats['solver_s'] += time.time() - t0
        return r

    def _fallback(self, extra):
        for tac in ('qfnra-nlsat', 'default'):
            try:
                if tac == 'qfnra-nlsat':
                    s = z3.Then('simplify', 'purify-arith', 'propagate-values', 'solve-eqs',
                                'elim-uncnstr', 'simplify', 'qfnra-nlsat').solver()
                else:
                    s = z3.Tactic('qfnra').solver()
                s.set('timeout', self.timeout_ms)
                for c in self.constraints:
                    s.add(c)
                for e in extra:
                    s.add(e)
                r = s.check()
                if r == z3.sat:
                    self._m = s.model()
                if r != z3.unknown:
                    return r
            except z3.Z3Exception:
                continue
        return z3.unknown

    def define(self, e):
        """Adds a constraint that is satisfiable by construction (definition of
        a fresh variable)."""
        self.constraints.append(e)
        self.solver.add(e)
        self.model = None

    def assume(self, c):
        if not isinstance(c, Sym):
            if not c:
                raise Infeasible()
            return
        e = zbool(c)
        self.constraints.append(e)
        self.solver.add(e)
        if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            self.model = None

    def need_model(self):
        if self.model is None:
            r = self._query([])
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.sat:
                self.model = self._m
        return self.model

    def law_active(self):
        return self.law is not None and bool(self.law.uniforms)

    def branch(self, sb):
        if self.law_active():
            d = self.law.uniform_branch(self, sb)
            if d is not None:
                return d
        c = z3.simplify(sb.e)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = c.get_id()
        if key in self.known:
            return self.known[key][0]
        d = self._decide(c)
        self.known[key] = (d, c)
        n = z3.simplify(z3.Not(c))
        self.known[n.get_id()] = (not d, n)
        e = c if d else n
        self.constraints.append(e)
        self.solver.add(e)
        return d

    def _decide(self, c):
        h = c.hash()
        if self.pos < len(self.prefix):
            d, ph = self.prefix[self.pos]
            if ph != h:
                raise Unsupported('non-deterministic re-execution at decision %d: %s'
                                  % (self.pos, c))
            self.pos += 1
            self.trail.append((d, h))
            self.model = None
            return d
        m = self.need_model()
        side = None
        if m is not None:
            v = m.eval(c, model_completion=True)
            if z3.is_true(v):
                side = True
            elif z3.is_false(v):
                side = False
        if side is None:
            r = self._query([c])
            if r != z3.unsat:
                side = True
                if r == z3.sat:
                    self.model = self._m
            else:
                self.trail.append((False, h))
                self.pos += 1
                return False
        r = self._query([z3.Not(c) if side else c])
        if r != z3.unsat:
            # both sides possible (unknown counts as possible)
            self.worklist.append(self.trail + [(not side, h)])
            self.stats['forks'] += 1
        if r == z3.unknown:
            self.stats['unknown'] += 1
        self.trail.append((side, h))
        self.pos += 1
        self.stats['max_depth'] = max(self.stats['max_depth'], len(self.trail))
        return side

    def concretise(self, e):
        """Forks over the possible values of an integer expression."""
        s = z3.simplify(e)
        if z3.is_int_value(s):
            return s.as_long()
        key = ('int', s.get_id())
        if key in self.known:
            return self.known[key][0]
        for _ in range(4096):
            v = None
            if self.pos < len(self.prefix):
                # decision records the value
                d, ph = self.prefix[self.pos]
                v = ph[1] if isinstance(ph, tuple) else None
            if v is None:
                m = self.need_model()
                if m is None:
                    raise Unsupported('cannot find a value for %s' % s)
                mv = m.eval(s, model_completion=True)
                if not z3.is_int_value(mv):
                    raise Unsupported('no integer value for %s' % s)
                v = mv.as_long()
            if self._decide_value(s, v):
                self.known[key] = (v, s)
                return v
        raise Unsupported('too many values for %s' % s)

    def _decide_value(self, s, v):
        c = s == v
        h = (s.hash(), v)
        if self.pos < len(self.prefix):
            d, ph = self.prefix[self.pos]
            if ph != h:
                raise Unsupported('non-deterministic re-execution (value) at %d' % self.pos)
            self.pos += 1
            self.trail.append((d, h))
            self.model = None
        else:
            # v is possible: it comes from a model
            r = self._query([z3.Not(c)])
            if r != z3.unsat:
                self.worklist.append(self.trail + [(False, h)])
                self.stats['forks'] += 1
            d = True
            self.trail.append((True, h))
            self.pos += 1
        e = c if d else z3.Not(c)
        self.constraints.append(e)
        self.solver.add(e)
        if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
            self.model = None
        return d

    def hash_of(self, tag, elems):
        """One integer per distinct value of the elements (forks on equality
        with the values seen before)."""
        reg = self.hreg.setdefault(tag, [])
        for k, old in enumerate(reg):
            if len(old) == len(elems) and bool(and_(*[
                    eq(a, b) if (numeric(a) and numeric(b)) else a == b
                    for a, b in zip(old, elems)])):
                return hash((tag, k))
        reg.append(list(elems))
        return hash((tag, len(reg) - 1))

    # -- exponentials

    def _bounds_of(self, x, at, fn, r):
        """True facts of a monotonic function around a point."""
        try:
            f = fn(float(at))
        except (OverflowError, ValueError):
            return []
        f = Fraction(f)
        eps = abs(f) / 10 ** 12 + Fraction(1, 10 ** 300)
        lo, hi = (z3.Q(v.numerator, v.denominator) for v in (f - eps, f + eps))
        p = SymReal(z3.Q(at.numerator, at.denominator))
        return [z3.Implies(zbool(x <= p), r.n <= hi), z3.Implies(zbool(x >= p), r.n >= lo)]

    def _refine(self, neg_, rounds=6):
        """Looks for a violation with the true values of the exponentials and
        logarithms; facts about them are added until there is one, there is
        none, or rounds run out."""
        best = self._m
        grid = [Fraction(k) for k in ('1/1000', '1/100', '1/20', '1/10', '1/4', '1/2', '1', '2', '4', '8', '16')]
        for x, r in self.exps:
            for k in grid:
                for e in self._bounds_of(x, -k, math.exp, r) + self._bounds_of(x, k, math.exp, r):
                    self.define(e)
        for x, r in self.logs:
            for k in grid + [1 / k for k in grid if k != 1]:
                for e in self._bounds_of(x, k, math.log, r):
                    self.define(e)
        for _ in range(rounds):
            m, facts = best, []
            for x, r, fn in ([t + (math.exp,) for t in self.exps] + [t + (math.log,) for t in self.logs]):
                v = m.eval(x.n if x.d is None else x.n / x.d, model_completion=True)
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                if not z3.is_rational_value(v):
                    continue
                facts += self._bounds_of(x, Fraction(v.numerator_as_long(), v.denominator_as_long()), fn, r)
            for e in facts:
                self.define(e)
            pin = []
            for kind, e in self.inputs.values():
                v = m.eval(e, model_completion=True)
                if z3.is_rational_value(v) or kind != 'real':
                    pin.append(e == v)
            if self._query([neg_] + pin) == z3.sat:
                return z3.sat
            r = self._query([neg_])
            if r != z3.sat:
                if r == z3.unknown:
                    break
                return r
            best = self._m
        self._m = best
        return z3.sat

    # -- assertions

    def check(self, cond, label):
        """Asks the solver for a violation; returns None (holds), or a model."""
        if self.pos < len(self.prefix):
            # decided on the path this one branched from, under a weaker condition
            return None
        self.stats['checks'] += 1
        if label not in self.witness:
            # reachability twin: the same point with assert(false)
            r = self._query([])
            if r == z3.unsat:
                raise Infeasible()
            self.witness[label] = (r == z3.sat)
        self.reached[label] = self.reached.get(label, 0) + 1
        if not isinstance(cond, Sym):
            if cond:
                self.stats['discharged'] += 1
                self.stats['trivial'] += 1
                return None
            r = self._query([])
            if r == z3.unsat:
                raise Infeasible()
            return self._m if r == z3.sat else 'unknown'
        cond = truth(cond)
        e = cond.e
        s = z3.simplify(e, som=True)
        neg_ = z3.Not(e)
        if z3.is_true(s):
            self.stats['queries'] += 1
            self.stats['discharged'] += 1
            return None
        r = self._query([neg_])
        if r == z3.unsat:
            self.stats['discharged'] += 1
            return None
        if r == z3.sat and (self.exps or self.logs):
            r = self._refine(neg_)
            if r == z3.unsat:
                self.stats['discharged'] += 1
                return None
        if r == z3.sat:
            best = self._m
            self.negated = neg_
            if self.exps or self.logs:
                return best
            # prefer a counterexample with a visible margin
            if cond.atom is not None and cond.atom[0] in ('eq', 'le', 'ge', 'lt', 'gt', 'scaled'):
                l, rr = cond.atom[1:3]
                if not z3.is_int(l):
                    for mg in (10, 1000):
                        d = z3.Q(1, mg) if len(cond.atom) < 4 else z3.Q(1, mg) * cond.atom[3]
                        q = self._query([neg_, z3.Or(l - rr > d, rr - l > d)])
                        if q == z3.sat:
                            best = self._m
                            break
            return best
        self.stats['unknown'] += 1
        self.unknowns.append(label)
        return 'unknown'


def margined(e, delta, positive=True):
    """A formula that implies e (its negation) with every comparison of reals
    in it holding by more than delta."""
    if z3.is_not(e):
        return margined(e.arg(0), delta, not positive)
    if z3.is_and(e) or z3.is_or(e):
        parts = [margined(c, delta, positive) for c in e.children()]
        return z3.And(*parts) if z3.is_and(e) == positive else z3.Or(*parts)
    if z3.is_app(e) and e.num_args() == 2 and e.arg(0).sort() == z3.RealSort():
        l, r = e.children()
        kind = e.decl().kind()
        if kind in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            return r - l > delta if positive else l - r > delta
        if kind in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            return l - r > delta if positive else r - l > delta
        if kind == z3.Z3_OP_EQ and not positive:
            return z3.Or(l - r > delta, r - l > delta)
    return e if positive else z3.Not(e)


def model_values(model, inputs):
    """JSON-friendly values of the named inputs."""
    out = {}
    for name, (kind, e) in inputs.items():
        v = model.eval(e, model_completion=True)
        if kind == 'bool':
            out[name] = bool(z3.is_true(v))
        elif kind == 'int':
            out[name] = v.as_long()
        else:
            if z3.is_rational_value(v):
                out[name] = '%d/%d' % (v.numerator_as_long(), v.denominator_as_long())
            else:
                a = v.approx(30)
                out[name] = '%d/%d' % (a.numerator_as_long(), a.denominator_as_long())
    return out
