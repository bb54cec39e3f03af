"""numpy for symbolic values: an object-dtype ndarray subclass and a stand-in
for the numpy module given to the code under test."""
import math
import types

import numpy as np

from . import engine as E
from .engine import Sym, SymBool, SymInt, SymReal, Unsupported


def has_sym(x, depth=4):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(y, Sym) for y in x.flat)
    if depth and isinstance(x, (list, tuple)):
        return any(has_sym(y, depth - 1) for y in x)
    return False


def _py(x):
    """Plain Python scalar for numpy scalars."""
    if isinstance(x, np.generic):
        return x.item()
    return x


_SCALARS = {float: np.float64, bool: np.bool_}


def scalar(x):
    """What numpy gives for an element or a reduction: its own scalars."""
    t = type(x)
    if t is int:
        return np.int64(x) if -(1 << 63) <= x < 1 << 63 else x
    c = _SCALARS.get(t)
    return x if c is None else c(x)


def obj(x):
    """SymArray view/copy of anything array-like."""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray):
        return x.astype(object).view(SymArray)
    if isinstance(x, Sym) or np.isscalar(x) or isinstance(x, np.generic):
        a = np.empty((), dtype=object)
        a[()] = _py(x)
        return a.view(SymArray)
    if isinstance(x, types.GeneratorType):
        raise Unsupported('array from generator')
    x = list(x)
    rows = [obj(y) if isinstance(y, (list, tuple, np.ndarray, range)) else y for y in x]
    if rows and isinstance(rows[0], np.ndarray):
        shp = rows[0].shape
        if any(not isinstance(r, np.ndarray) or r.shape != shp for r in rows):
            raise ValueError('setting an array element with a sequence. The requested array has '
                             'an inhomogeneous shape')
        a = np.empty((len(rows),) + shp, dtype=object)
        for i, r in enumerate(rows):
            a[i] = r
        return a.view(SymArray)
    a = np.empty((len(rows),), dtype=object)
    for i, r in enumerate(rows):
        if isinstance(r, np.ndarray) or isinstance(r, (list, tuple)):
            raise ValueError('setting an array element with a sequence.')
        a[i] = _py(r)
    return a.view(SymArray)


def base(x):
    return np.asarray(x).view(np.ndarray) if isinstance(x, np.ndarray) else x


def wrap(r):
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r)
    if isinstance(r, np.ndarray) and r.dtype == object and not isinstance(r, SymArray):
        return r.view(SymArray)
    if isinstance(r, SymArray) and r.ndim == 0:
        return r[()]
    return scalar(r)


def conc_key(k):
    """Indexing key without symbolic values (forks)."""
    if isinstance(k, tuple):
        return tuple(conc_key(x) for x in k)
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, list) and has_sym(k):
        k = obj(k)
    if isinstance(k, np.ndarray) and k.dtype == object:
        vals = list(k.flat)
        if all(isinstance(v, (SymBool, bool, np.bool_)) for v in vals) and vals:
            return np.array([bool(v) for v in vals], dtype=bool).reshape(k.shape)
        return np.array([v.__index__() for v in vals], dtype=int).reshape(k.shape)
    return k


def elementwise(f, *arrs):
    bs = np.broadcast_arrays(*[base(obj(a)) for a in arrs])
    out = np.empty(bs[0].shape, dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = f(*[b[i] for b in bs])
    if out.ndim == 0:
        return scalar(out[()])
    return out.view(SymArray)


def s_div(a, b):
    old = E.NUMPY_DIV[0]
    E.NUMPY_DIV[0] = True
    try:
        return E.div(_py(a), _py(b))
    finally:
        E.NUMPY_DIV[0] = old


def _np_semantics(f):
    def g(x):
        old = E.NUMPY_DIV[0]
        E.NUMPY_DIV[0] = True
        try:
            if not isinstance(x, Sym):
                return f(x)
            return f(x)
        finally:
            E.NUMPY_DIV[0] = old
    return g


def s_log(x):
    if not isinstance(x, Sym):
        if x == 0:
            return -math.inf
        return math.nan if x < 0 or x != x else math.log(x)
    return E.log(x)


def s_sqrt(x):
    if not isinstance(x, Sym):
        return math.nan if x < 0 or x != x else math.sqrt(x)
    return E.sqrt(x)


def s_exp(x):
    return E.exp(x) if isinstance(x, Sym) else float(np.exp(x))


def s_max(a, b):
    for x in (a, b):
        if not isinstance(x, Sym) and x != x:
            return x
    return E.ite(a >= b, a, b) if isinstance(a, Sym) or isinstance(b, Sym) else max(a, b)


def s_min(a, b):
    for x in (a, b):
        if not isinstance(x, Sym) and x != x:
            return x
    return E.ite(a <= b, a, b) if isinstance(a, Sym) or isinstance(b, Sym) else min(a, b)


def s_abs(a):
    return abs(a)


def s_isnan(a):
    return False if isinstance(a, Sym) else bool(a != a)


def s_isinf(a):
    return False if isinstance(a, Sym) else a in (math.inf, -math.inf)


def s_sign(a):
    if not isinstance(a, Sym):
        return float(np.sign(a))
    return E.ite(a > 0, 1, E.ite(a < 0, -1, 0))


UFUNCS = {
    'true_divide': s_div, 'divide': s_div,
    'log': _np_semantics(s_log), 'sqrt': _np_semantics(s_sqrt), 'exp': s_exp,
    'maximum': s_max, 'minimum': s_min, 'fmax': s_max, 'fmin': s_min,
    'absolute': s_abs, 'fabs': s_abs, 'isnan': s_isnan, 'isinf': s_isinf,
    'isfinite': lambda a: not (s_isnan(a) or s_isinf(a)),
    'sign': s_sign,
    'less': lambda a, b: a < b, 'less_equal': lambda a, b: a <= b,
    'greater': lambda a, b: a > b, 'greater_equal': lambda a, b: a >= b,
    'equal': lambda a, b: a == b, 'not_equal': lambda a, b: a != b,
    'logical_and': lambda a, b: E.and_(a, b), 'logical_or': lambda a, b: E.or_(a, b),
    'logical_not': lambda a: E.not_(a),
    'logical_xor': lambda a, b: (E.truth(a) ^ E.truth(b)),
    'bitwise_and': lambda a, b: a & b, 'bitwise_or': lambda a, b: a | b,
    'bitwise_xor': lambda a, b: a ^ b,
    'invert': lambda a: E.not_(a) if isinstance(a, (bool, SymBool, np.bool_)) else ~a,
    'square': lambda a: a * a,
    'floor': lambda a: E.floor(a).as_real() if isinstance(a, Sym) else float(math.floor(a)),
    'ceil': lambda a: (-E.floor(-a)).as_real() if isinstance(a, Sym) else float(math.ceil(a)),
    'rint': lambda a: E.around(a, 0),
    'negative': lambda a: -a,
    'positive': lambda a: a,
    'add': lambda a, b: a + b,
    'subtract': lambda a, b: a - b,
    'multiply': lambda a, b: a * b,
    'floor_divide': lambda a, b: a // b,
    'remainder': lambda a, b: a % b,
    'power': lambda a, b: a ** b,
    'float_power': lambda a, b: a ** b,
    'right_shift': lambda a, b: a >> b,
    'left_shift': lambda a, b: a << b,
    'log2': lambda a: s_log(a) / math.log(2),
    'reciprocal': lambda a: s_div(1., a),
}

REDUCE_INIT = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False}


def reduce_(f, a, axis=None, keepdims=False, init=None, empty=None):
    a = base(obj(a))
    if a.ndim == 0:
        return scalar(a[()])
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % a.ndim for x in axis)
    else:
        axis = axis.__index__()
        if not -a.ndim <= axis < a.ndim:
            raise np.AxisError(axis, a.ndim)
        axes = (axis % a.ndim,)
    rest = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1]) \
        if a.size else np.empty([a.shape[i] for i in rest] + [0], dtype=object)
    out = np.empty([a.shape[i] for i in rest], dtype=object)
    for i in np.ndindex(out.shape):
        vals = list(b[i])
        if not vals:
            if empty is None:
                raise ValueError('zero-size array to reduction operation which has no identity')
            r = empty
        else:
            r = vals[0] if init is None else f(init, vals[0])
            for v in vals[1:]:
                r = f(r, v)
        out[i] = r
    if keepdims:
        out = out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
        return out.view(SymArray)
    if out.ndim == 0:
        return scalar(out[()])
    return out.view(SymArray)


def f_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, **kw):
    a = obj(a)
    e = 0. if a.size == 0 else 0
    r = reduce_(lambda x, y: x + y, a, axis, keepdims, empty=e)
    if isinstance(r, (SymBool, bool, np.bool_)):
        r = r + 0
    return r


def f_all(a, axis=None, keepdims=False, **kw):
    return reduce_(lambda x, y: E.and_(x, y), a, axis, keepdims, init=True, empty=True)


def f_any(a, axis=None, keepdims=False, **kw):
    return reduce_(lambda x, y: E.or_(x, y), a, axis, keepdims, init=False, empty=False)


def f_max(a, axis=None, keepdims=False, **kw):
    return reduce_(s_max, a, axis, keepdims)


def f_min(a, axis=None, keepdims=False, **kw):
    return reduce_(s_min, a, axis, keepdims)


def f_prod(a, axis=None, keepdims=False, **kw):
    return reduce_(lambda x, y: x * y, a, axis, keepdims, empty=1.)


def f_mean(a, axis=None, keepdims=False, **kw):
    a = obj(a)
    n = a.size if axis is None else a.shape[axis]
    return s_div_arr(f_sum(a, axis, keepdims=keepdims), n)


def s_div_arr(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return elementwise(s_div, a, b)
    return s_div(a, b)


def _arg(better, a, axis):
    a = base(obj(a))

    def one(vals):
        best = 0
        for i, v in enumerate(vals):
            if not isinstance(v, Sym) and v != v:
                return i
            if i and bool(better(v, vals[best])):
                best = i
        return best
    if axis is None:
        vals = list(a.flat)
        if not vals:
            raise ValueError('attempt to get argmax of an empty sequence')
        return np.int64(one(vals))
    axis = axis % a.ndim
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=int)
    for i in np.ndindex(out.shape):
        out[i] = one(list(b[i]))
    return out if out.ndim else np.int64(out[()])


def f_argmax(a, axis=None, **kw):
    return _arg(lambda x, y: x > y, a, axis)


def f_argmin(a, axis=None, **kw):
    return _arg(lambda x, y: x < y, a, axis)


def _nan_filter(f):
    def g(a, axis=None, **kw):
        if axis is not None:
            raise Unsupported('nan-reduction with axis')
        vals = [v for v in obj(a).flat if isinstance(v, Sym) or v == v]
        if not vals:
            return math.nan
        return f(vals)
    return g


def f_nonzero(a):
    a = base(obj(a))
    mask = np.array([bool(v) for v in a.flat], dtype=bool).reshape(a.shape)
    return np.nonzero(mask)


def f_count_nonzero(a, axis=None, **kw):
    r = elementwise(lambda v: E.ite(v != 0, 1, 0), obj(a))
    return f_sum(r, axis)


def f_where(c, x=None, y=None):
    if x is None:
        return f_nonzero(c)
    return elementwise(E.ite, c, x, y)


def f_isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    def one(x, y):
        if not isinstance(x, Sym) and not isinstance(y, Sym):
            return bool(np.isclose(x, y, rtol, atol))
        d = x - y
        bound = atol + rtol * abs(y)
        return E.and_(E.le(d, bound) if E.numeric(d) else False, -bound <= d)
    return elementwise(one, a, b)


def f_allclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    return f_all(f_isclose(a, b, rtol, atol))


def f_array_equal(a, b, **kw):
    a, b = obj(a), obj(b)
    if a.shape != b.shape:
        return False
    return f_all(elementwise(lambda x, y: x == y, a, b))


def f_around(a, decimals=0, out=None):
    if isinstance(a, np.ndarray) or isinstance(a, (list, tuple)):
        return elementwise(lambda x: E.around(x, decimals), a)
    return E.around(a, decimals)


def f_dot(a, b):
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise(lambda x, y: x * y, a, b)
    r = f_tensordot(a, b, -1, -2 if b.ndim > 1 else 0)
    return r


def f_tensordot(a, b, ax, bx):
    A = np.moveaxis(base(a), ax, -1)
    B = np.moveaxis(base(b), bx, 0)
    if A.shape[-1] != B.shape[0]:
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    out = np.empty(A.shape[:-1] + B.shape[1:], dtype=object)
    for i in np.ndindex(A.shape[:-1]):
        for j in np.ndindex(B.shape[1:]):
            s = None
            for k in range(A.shape[-1]):
                t = A[i + (k,)] * B[(k,) + j]
                s = t if s is None else s + t
            out[i + j] = 0. if s is None else s
    return wrap(out) if out.ndim else scalar(out[()])


def f_matmul(a, b):
    a, b = obj(a), obj(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return f_dot(a, b)
    A, B = base(a), base(b)
    if A.ndim < 2 or B.ndim < 2:
        return f_dot(a, b) if B.ndim < 2 else wrap(np.stack([base(obj(f_dot(a, x))) for x in B]))
    lead = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, lead + A.shape[-2:])
    B = np.broadcast_to(B, lead + B.shape[-2:])
    out = np.empty(lead + (A.shape[-2], B.shape[-1]), dtype=object)
    for i in np.ndindex(lead):
        out[i] = base(obj(f_dot(A[i], B[i])))
    return wrap(out)


def f_cumsum(a, axis=None, **kw):
    a = base(obj(a))
    if axis is None:
        a = a.ravel()
        axis = 0
    out = np.empty(a.shape, dtype=object)
    A, O = np.moveaxis(a, axis, -1), np.moveaxis(out, axis, -1)
    for i in np.ndindex(A.shape[:-1]):
        s = 0
        for k in range(A.shape[-1]):
            s = s + A[i + (k,)]
            O[i + (k,)] = s
    return wrap(out)


def f_cumprod(a, axis=None, **kw):
    a = base(obj(a)).ravel() if axis is None or np.ndim(a) == 1 else None
    if a is None:
        raise Unsupported('cumprod along an axis')
    out, p = [], 1
    for v in a:
        p = p * v
        out.append(p)
    return obj(out)


def f_var(a, axis=None, ddof=0, keepdims=False, **kw):
    m = f_mean(a, axis, True)
    d = obj(a) - m
    r = f_mean(d * d, axis, keepdims)
    if ddof:
        n = np.size(a) if axis is None else np.shape(a)[axis]
        r = r * (float(n) / (n - ddof))
    return r


def f_searchsorted(a, v, side='left', **kw):
    if np.ndim(v):
        return np.array([f_searchsorted(a, x, side) for x in obj(v)], dtype=int)
    k = 0
    for x in obj(a):
        if not bool(x < v if side == 'left' else x <= v):
            break
        k += 1
    return k


def f_diff(a, n=1, axis=-1, **kw):
    a = base(obj(a))
    for _ in range(n):
        a = np.moveaxis(a, axis, 0)
        a = np.moveaxis(base(obj(elementwise(lambda x, y: x - y, a[1:], a[:-1]))), 0, axis)
    return wrap(a)


def f_bincount(x, weights=None, minlength=0):
    idx = [int(v.__index__()) for v in obj(x).flat]
    ws = [1] * len(idx) if weights is None else list(obj(weights).flat)
    out = [0 if weights is None else 0.] * max([minlength] + [i + 1 for i in idx])
    for i, v in zip(idx, ws):
        out[i] = out[i] + v
    return obj(out)


def f_clip(a, lo=None, hi=None, **kw):
    r = a
    if lo is not None:
        r = elementwise(s_max, r, lo)
    if hi is not None:
        r = elementwise(s_min, r, hi)
    return r


def f_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported('norm order')
    s = f_sum(elementwise(lambda v: v * v, x), axis, keepdims=keepdims)
    return elementwise(UFUNCS['sqrt'], s)


def f_einsum(spec, *ops, **kw):
    return wrap(np.einsum(spec, *[base(obj(o)) for o in ops]))


def f_average(a, axis=None, weights=None, **kw):
    if weights is None:
        return f_mean(a, axis)
    p = elementwise(lambda x, y: x * y, a, weights)
    return s_div_arr(f_sum(p, axis), f_sum(weights, axis))


def _unary(name):
    def f(a, *args, **kw):
        return elementwise(UFUNCS[name], a)
    return f


def f_ndim(a):
    return obj(a).ndim


def UFUNC_SQRT(x):
    return elementwise(UFUNCS['sqrt'], x)


FUNCS = {
    'sum': f_sum, 'all': f_all, 'any': f_any, 'alltrue': f_all, 'sometrue': f_any, 'max': f_max, 'amax': f_max, 'min': f_min,
    'amin': f_min, 'prod': f_prod, 'mean': f_mean, 'argmax': f_argmax, 'argmin': f_argmin,
    'nanmax': _nan_filter(f_max), 'nanmin': _nan_filter(f_min), 'nansum': _nan_filter(f_sum),
    'nonzero': f_nonzero, 'flatnonzero': lambda a: f_nonzero(obj(a).ravel())[0],
    'argwhere': lambda a: np.transpose(f_nonzero(a)),
    'count_nonzero': f_count_nonzero, 'where': f_where,
    'isclose': f_isclose, 'allclose': f_allclose, 'array_equal': f_array_equal,
    'array_equiv': f_array_equal,
    'around': f_around, 'round': f_around, 'round_': f_around,
    'dot': f_dot, 'inner': lambda a, b: f_tensordot(obj(a), obj(b), -1, -1), 'vdot': f_dot,
    'matmul': f_matmul, 'cumsum': f_cumsum, 'clip': f_clip, 'einsum': f_einsum,
    'average': f_average, 'outer': lambda a, b: elementwise(
        lambda x, y: x * y, obj(a).ravel()[:, np.newaxis], obj(b).ravel()[np.newaxis, :]),
    'nan_to_num': lambda a, **kw: elementwise(
        lambda v: 0. if (not isinstance(v, Sym) and v != v) else v, a),
    'nanargmax': lambda a, **kw: f_argmax([-math.inf if (not isinstance(v, Sym) and v != v) else v
                                           for v in obj(a).flat]),
    'sort': lambda a, axis=-1, **kw: obj(sorted(obj(a).tolist())),
    'argsort': lambda a, axis=-1, **kw: np.array(
        sorted(range(len(obj(a))), key=lambda i: obj(a)[i]), dtype=int),
    'unique': None, 'ptp': lambda a, axis=None, **kw: f_max(a, axis) - f_min(a, axis),
    'cumprod': f_cumprod, 'var': f_var,
    'std': lambda a, axis=None, **kw: UFUNC_SQRT(f_var(a, axis, **kw)),
    'searchsorted': f_searchsorted, 'diff': f_diff, 'bincount': f_bincount,
    'trace': lambda a, **kw: f_sum(np.diagonal(obj(a))),
    'abs': _unary('absolute'),
    'isin': lambda a, b, **kw: elementwise(
        lambda x: E.or_(*[x == y for y in obj(b).flat]), a),
}


class SymBytes(object):
    """Byte image of an array: equal images iff same element types and values."""

    def __init__(self, arr, tag=None):
        self.elems = list(base(obj(arr)).flat)
        self.shape = None
        self.kind = tag or kind_of(self.elems)

    def __eq__(self, other):
        if not isinstance(other, SymBytes):
            return False
        if self.kind != other.kind or len(self.elems) != len(other.elems):
            return False
        return E.and_(*[E.eq(a, b) if (E.numeric(a) and E.numeric(b)) else a == b
                        for a, b in zip(self.elems, other.elems)])

    def __hash__(self):
        return E.engine().hash_of(('bytes', self.kind, len(self.elems)), self.elems)


def kind_of(elems):
    elems = [_py(x) for x in elems]
    if any(type(x) in (float, SymReal) for x in elems):
        return 'f'
    if any(type(x) in (int, SymInt) for x in elems):
        return 'i'
    if any(type(x) in (bool, SymBool) for x in elems):
        return 'b'
    return 'f' if not elems else 'O'


class SymArray(np.ndarray):
    __array_priority__ = 500

    def __new__(cls, x):
        return obj(x)

    # numpy protocols

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        name = ufunc.__name__
        out = kw.pop('out', None)
        if method == '__call__':
            f = UFUNCS.get(name)
            where = kw.pop('where', True)
            if len(inputs) > ufunc.nin:
                out, inputs = inputs[ufunc.nin:], inputs[:ufunc.nin]
            if out is not None and not isinstance(out, tuple):
                out = (out,)
            if out is not None and out[0] is None:
                out = None
            if where is not True:
                if out is None or f is None:
                    raise Unsupported('ufunc where=')
                r = elementwise(lambda c, o, *x: f(*x) if (c if isinstance(c, bool) else bool(c)) else o,
                                where, out[0], *inputs)
            elif f is not None:
                r = elementwise(f, *inputs)
            elif name == 'matmul':
                r = f_matmul(*inputs)
            else:
                raise Unsupported('ufunc %s' % name)
        elif method == 'reduce':
            red = {'add': f_sum, 'multiply': f_prod, 'maximum': f_max, 'minimum': f_min,
                   'logical_and': f_all, 'logical_or': f_any}.get(name)
            if red is None:
                raise Unsupported('%s.reduce' % name)
            kw.pop('dtype', None)
            kw.pop('initial', None)
            kw.pop('where', None)
            axis = inputs[1] if len(inputs) > 1 else kw.pop('axis', 0)
            r = red(inputs[0], axis=axis, keepdims=kw.pop('keepdims', False))
        elif method == 'outer':
            a, b = obj(inputs[0]), obj(inputs[1])
            r = elementwise(UFUNCS[name], a.reshape(a.shape + (1,) * b.ndim), b)
        elif method == 'accumulate' and name == 'add':
            r = f_cumsum(inputs[0], kw.get('axis', 0))
        elif method == 'reduceat' and name in ('add', 'multiply'):
            red = f_sum if name == 'add' else f_prod
            a, axis = base(obj(inputs[0])), kw.get('axis', inputs[2] if len(inputs) > 2 else 0)
            idx = [int(i) for i in np.asarray(conc_key(inputs[1]))]
            ends = idx[1:] + [a.shape[axis]]
            parts = [base(obj(red(wrap(np.take(a, range(i, j) if j > i else [i], axis=axis)), axis=axis)))
                     for i, j in zip(idx, ends)]
            r = wrap(np.stack(parts, axis=axis))
        elif method == 'at':
            a, idx, v = inputs[0], conc_key(inputs[1]), inputs[2]
            idx = np.asarray(idx)
            vv = np.broadcast_to(base(obj(v)), idx.shape)
            for n, i in np.ndenumerate(idx):
                a[i] = UFUNCS[name](a[i], vv[n])
            return None
        else:
            raise Unsupported('ufunc method %s.%s' % (name, method))
        if out is not None:
            o = out[0]
            if isinstance(o, SymArray):
                base(o)[...] = base(obj(r))
                return o
            raise Unsupported('symbolic result into a native array')
        return r

    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        if func.__module__.endswith('linalg') and name == 'norm':
            return f_norm(*args, **kwargs)
        f = FUNCS.get(name)
        if f is not None:
            return f(*args, **kwargs)
        if name in STRUCTURAL:
            r = func._implementation(
                *[_strip(a) for a in args], **{k: _strip(v) for k, v in kwargs.items()})
            return r if name in PLAIN else wrap(r)
        raise Unsupported('numpy function %s' % name)

    # methods

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, conc_key(k))
        return r if isinstance(r, np.ndarray) else scalar(r)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __setitem__(self, k, v):
        k = conc_key(k)
        if isinstance(v, (list, tuple, np.ndarray)):
            v = base(obj(v))
        elif isinstance(v, np.generic):
            v = v.item()
        np.ndarray.__setitem__(self, k, v)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return f_sum(self, axis, keepdims=keepdims)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return f_all(self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return f_any(self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return f_max(self, axis, keepdims)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return f_min(self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return f_mean(self, axis, keepdims)

    def prod(self, axis=None, **kw):
        return f_prod(self, axis)

    def argmax(self, axis=None, out=None, **kw):
        return f_argmax(self, axis)

    def argmin(self, axis=None, out=None, **kw):
        return f_argmin(self, axis)

    def nonzero(self):
        return f_nonzero(self)

    def dot(self, b, out=None):
        return f_dot(self, b)

    def cumsum(self, axis=None, dtype=None, out=None):
        return f_cumsum(self, axis)

    def round(self, decimals=0, out=None):
        return f_around(self, decimals)

    def clip(self, lo=None, hi=None, **kw):
        return f_clip(self, lo, hi)

    def argsort(self, axis=-1, **kw):
        return FUNCS['argsort'](self)

    def sort(self, axis=-1, **kw):
        if self.ndim != 1:
            raise Unsupported('sorting a table')
        self[...] = FUNCS['sort'](self)

    def ptp(self, axis=None, **kw):
        return f_max(self, axis) - f_min(self, axis)

    def cumprod(self, axis=None, **kw):
        return f_cumprod(self, axis)

    def var(self, axis=None, **kw):
        return f_var(self, axis, **kw)

    def std(self, axis=None, **kw):
        return FUNCS['std'](self, axis, **kw)

    def searchsorted(self, v, side='left', **kw):
        return f_searchsorted(self, v, side)

    def trace(self, *a, **kw):
        return f_sum(np.diagonal(self))

    def conj(self):
        return self

    conjugate = conj

    def astype(self, dtype, copy=True, **kw):
        if dtype in (object, np.object_):
            return self.copy()
        return elementwise(caster(dtype), self) if self.ndim else caster(dtype)(self[()])

    def tobytes(self, order='C'):
        return SymBytes(self)

    tostring = tobytes

    def item(self, *a):
        if a:
            return self[a if len(a) > 1 else a[0]]
        return list(self.flat)[0]

    def __bool__(self):
        if self.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous.')
        return bool(self.item())

    def __index__(self):
        return self.item().__index__()

    def __contains__(self, v):
        return bool(f_any(self == v))

    def __iadd__(self, o):
        base(self)[...] = base(obj(self + o))
        return self

    def __isub__(self, o):
        base(self)[...] = base(obj(self - o))
        return self

    def __imul__(self, o):
        base(self)[...] = base(obj(self * o))
        return self

    def __itruediv__(self, o):
        base(self)[...] = base(obj(self / o))
        return self

    def __reduce__(self):
        raise Unsupported('pickling symbolic arrays')

    def __deepcopy__(self, memo):
        return self.copy()


STRUCTURAL = {
    'concatenate', 'vstack', 'hstack', 'stack', 'column_stack', 'row_stack', 'append', 'insert',
    'delete', 'tile', 'repeat', 'transpose', 'swapaxes', 'moveaxis', 'reshape', 'ravel',
    'squeeze', 'expand_dims', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'copy', 'diag', 'flip',
    'broadcast_to', 'broadcast_arrays', 'split', 'array_split', 'roll', 'shape', 'size', 'ndim',
    'take', 'diagonal', 'flipud', 'fliplr', 'rollaxis', 'dstack', 'copyto', 'iterable', 'rot90',
    'result_type', 'can_cast', 'may_share_memory', 'shares_memory', 'compress', 'resize',
    'diag_indices_from', 'fill_diagonal', 'block', 'put', 'partition', 'tril', 'triu', 'take_along_axis',
    'zeros_like_', 'meshgrid', 'ix_', 'ravel_multi_index', 'unravel_index',
}


PLAIN = {'shape', 'size', 'ndim', 'iterable', 'result_type', 'can_cast', 'may_share_memory', 'shares_memory'}


def _strip(a):
    if isinstance(a, SymArray):
        return a.view(np.ndarray)
    if isinstance(a, (list, tuple)):
        return type(a)(_strip(x) for x in a) if type(a) in (list, tuple) else a
    return a


def caster(dtype):
    d = dtype
    if isinstance(d, type) and issubclass(d, float) or d in ('float', 'float64', 'f8', 'd') or \
            d in (np.float64, np.float32):
        return lambda x: x.as_real() if isinstance(x, Sym) else float(x)
    if d in ('int', 'int64', 'i8') or (isinstance(d, type) and issubclass(d, (int, np.integer))
                                       and not issubclass(d, bool)):
        return lambda x: E.to_symint(x) if isinstance(x, Sym) else int(x)
    if d in ('bool',) or (isinstance(d, type) and issubclass(d, (bool, np.bool_))):
        return lambda x: E.truth(x)
    if isinstance(d, np.dtype):
        return caster(d.type)
    if d in (object, np.object_):
        return lambda x: x
    raise Unsupported('dtype %r' % (d,))


# --------------------------------------------------------------------------
# numpy module stand-in

_ZERO = {'zeros': 0., 'ones': 1., 'empty': 0.}


class NumpyShim(types.ModuleType):
    """What `import numpy` gives the code under test."""

    def __init__(self, rng):
        types.ModuleType.__init__(self, 'numpy')
        d = self.__dict__
        d['__real__'] = np
        d['random'] = rng
        d['ndarray'] = np.ndarray
        d['linalg'] = _Linalg()
        d['testing'] = np.testing
        for n in ('zeros', 'ones', 'empty'):
            d[n] = self._filled(_ZERO[n])
            d[n + '_like'] = self._filled_like(_ZERO[n])
        d['full'] = lambda shape, v, dtype=None, **kw: self._fill(shape, v, dtype)
        d['full_like'] = lambda a, v, dtype=None, **kw: self._fill(np.shape(a), v, dtype)
        d['array'] = self._array(True)
        d['asarray'] = self._array(False)
        d['asanyarray'] = d['asarray']
        d['ascontiguousarray'] = d['asarray']
        d['asfarray'] = lambda a, dtype=float: self._array(False)(a, dtype=float)
        d['eye'] = lambda n, m=None, k=0, dtype=float, **kw: np.eye(int(n), m, k).astype(object).view(SymArray)
        d['identity'] = lambda n, dtype=None: np.eye(int(n)).astype(object).view(SymArray)
        d['fromstring'] = self._fromstring
        d['fromiter'] = lambda it, dtype, count=-1: self._array(True)(list(it), dtype=dtype)
        d['vectorize'] = lambda f, **kw: (lambda *a: elementwise(f, *a))
        d['float_'] = np.float64
        d['s_'] = np.s_
        d['newaxis'] = None

    @staticmethod
    def _fill(shape, v, dtype=None):
        if isinstance(shape, (list, tuple)):
            shape = tuple(x.__index__() for x in shape)
        else:
            shape = shape.__index__()
        if dtype is not None:
            v = caster(dtype)(v)
        a = np.empty(shape, dtype=object)
        if isinstance(v, (list, tuple, np.ndarray)):
            a[...] = base(obj(v))
        else:
            a.fill(v)
        return a.view(SymArray)

    def _filled(self, v):
        def f(shape, dtype=None, order='C', **kw):
            return self._fill(shape, v, dtype)
        return f

    def _filled_like(self, v):
        def f(a, dtype=None, **kw):
            a = obj(a)
            if dtype is None:
                k = kind_of(list(a.flat))
                vv = {'f': float(v), 'i': int(v), 'b': bool(v)}.get(k, v)
            else:
                vv = caster(dtype)(v)
            return self._fill(a.shape, vv)
        return f

    def _array(self, copy):
        def f(x, dtype=None, **kw):
            if isinstance(x, SymArray) and dtype is None:
                return x.copy() if (copy and kw.get('copy', True)) else x
            if isinstance(x, SymBytes):
                raise Unsupported('array from bytes')
            if isinstance(x, (str, bytes)):
                return np.array(x)
            if isinstance(x, (set, frozenset, dict)):
                return np.array(x, dtype=object)
            if isinstance(x, (map, filter, zip)):
                return np.array(x)
            if isinstance(x, np.ndarray) and x.dtype.kind in 'US':
                return np.array(x) if copy else x
            if isinstance(x, (list, tuple)) and _any_text(x):
                return np.array(x, dtype=dtype) if dtype else np.array(x)
            if isinstance(x, (list, tuple)) and len(x) == 0:
                return obj([])
            a = obj(x)
            if a.ndim and a.size and kind_of(list(a.flat)) == 'f' and not any(
                    y is None for y in a.flat):
                b = base(a)
                for i in np.ndindex(b.shape):   # upcast to float
                    v = b[i]
                    if isinstance(v, Sym) and type(v) is not SymReal:
                        if b is base(a) and b.base is not None:
                            pass
                        a = a.copy() if a is x else a
                        base(a)[i] = v.as_real()
                    elif type(v) in (int, bool):
                        a = a.copy() if a is x else a
                        base(a)[i] = float(v)
            if dtype is not None:
                a = elementwise(caster(dtype), a) if a.ndim else a
            elif copy and a is x:
                a = a.copy()
            return a
        return f

    @staticmethod
    def _fromstring(s, dtype=float, count=-1, sep=''):
        if sep == '':
            raise Unsupported('binary fromstring')
        toks = s.split(None if sep == ' ' else sep)
        vals = []
        for t in toks:
            v = E.engine().tokens.lookup(t)
            vals.append(float(t) if v is None else v.as_real())
        return obj(vals)

    def __getattr__(self, name):
        real = getattr(np, name)
        if isinstance(real, np.ufunc):
            r = _UfuncShim(real)
        elif isinstance(real, type) or not callable(real):
            r = real
        else:
            r = self._function(name, real)
        self.__dict__[name] = r
        return r

    @staticmethod
    def _function(name, real):
        def f(*args, **kw):
            if any(has_sym(a) or isinstance(a, SymArray) or
                   (isinstance(a, (list, tuple)) and any(isinstance(x, SymArray) for x in a))
                   for a in args) or any(has_sym(a) for a in kw.values()):
                g = FUNCS.get(name)
                if g is not None:
                    return g(*args, **kw)
                if name in STRUCTURAL:
                    args = [obj(a) if (isinstance(a, (list, tuple)) and has_sym(a)
                                       and not any(isinstance(x, np.ndarray) for x in a)) else a
                            for a in args]
                    impl = getattr(real, '_implementation', real)
                    r = impl(*[_strip(a) for a in args], **{k: _strip(v) for k, v in kw.items()})
                    return wrap(r) if not isinstance(r, list) else [wrap(x) for x in r]
                if name in ('isscalar',):
                    return True
                if name in ('issubdtype', 'set_printoptions', 'errstate', 'seterr'):
                    return real(*args, **kw)
                raise Unsupported('numpy.%s on symbolic values' % name)
            r = real(*args, **kw)
            return r
        f.__name__ = name
        return f


class _UfuncShim(object):
    def __init__(self, real):
        self._real = real

    def __call__(self, *args, **kw):
        if any(has_sym(a) or isinstance(a, SymArray) for a in args + tuple(kw.values())):
            return obj(args[0]).__array_ufunc__(self._real, '__call__', *args, **kw)
        return self._real(*args, **kw)

    def __getattr__(self, n):
        real = getattr(self._real, n)
        if n in ('reduce', 'outer', 'accumulate', 'at'):
            def f(*args, **kw):
                if any(has_sym(a) for a in args):
                    args = (obj(args[0]),) + args[1:]
                    return args[0].__array_ufunc__(self._real, n, *args, **kw)
                return real(*args, **kw)
            return f
        return real


def _any_text(x):
    for y in x:
        if isinstance(y, (str, bytes)):
            return True
        if isinstance(y, (list, tuple)) and _any_text(y):
            return True
    return False


class _Linalg(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy.linalg')

    def norm(self, *a, **kw):
        if has_sym(a[0]) or isinstance(a[0], SymArray):
            return f_norm(*a, **kw)
        return np.linalg.norm(*a, **kw)

    def __getattr__(self, n):
        return getattr(np.linalg, n)
