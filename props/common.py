"""Shared pieces of the harnesses."""
import numpy as np

from symex import arr as A
from symex.run import Inst  # noqa: F401

POMDP_MOD = 'task_models.lib.pomdp'


def names(prefix, n):
    return ['%s%d' % (prefix, i) for i in range(n)]


def pomdp_inputs(w, ns, na, no, tag='', rewards=True, start=True):
    """Arbitrary well-formed model parameters (T, O, R, start)."""
    T = w.stochastic(tag + 'T', na, ns, ns)
    O = w.stochastic(tag + 'O', na, ns, no)
    R = w.real_array(tag + 'R', (na, ns, ns, no)) if rewards else w.array(
        np.zeros((na, ns, ns, no)))
    b0 = w.prob_vector(tag + 'start', ns) if start else w.array(np.full((ns,), 1. / ns))
    return T, O, R, b0


def make_pomdp(w, ns, na, no, tag='', discount=None, rewards=True, start=True, named=True, **kw):
    T, O, R, b0 = pomdp_inputs(w, ns, na, no, tag, rewards, start)
    mod = w.load(POMDP_MOD)
    g = w.real(tag + 'gamma', 0, 1) if discount is None else discount
    if named:
        kw.setdefault('states', names('s', ns))
        kw.setdefault('actions', names('a', na))
        kw.setdefault('observations', names('o', no))
    m = mod.POMDP(T, O, R, b0, g, **kw)
    return m, (A.obj(T).tolist(), A.obj(O).tolist(), A.obj(R).tolist(), A.obj(b0).tolist(), g)


def joint(T, O, b, a, o):
    """Unnormalised posterior weights, from the definition."""
    ns = len(b)
    return [sum(b[i] * T[a][i][j] for i in range(ns)) * O[a][j][o] for j in range(ns)]


def snapshot(*arrays):
    return [A.obj(x).tolist() for x in arrays]


def flat(x):
    return list(A.base(A.obj(x)).flat)


def fixed(shape, prob):
    """Distinct-looking fixed numbers; rows sum to one when `prob`, with some zeros."""
    a = np.empty(shape, dtype=object)
    n = shape[-1]
    for k, i in enumerate(np.ndindex(*shape[:-1])):
        row = [float((k * 3 + j * 5) % 7 + (0 if prob and (k + 2 * j) % 5 == 0 else j + 1)) for j in range(n)]
        row = [x / (64. * max(1, n // 4)) for x in row]
        if prob:
            row[k % n] = 0.
            row[k % n] = 1. - sum(row)
        a[i] = row
    return a


def big_pomdp(w, ns, na, no, a=None, s=None, tag='', rows=True):
    """A larger model, fixed but for the transition row of (a, s), one observation row and one reward."""
    T, O, R, start = fixed((na, ns, ns), True), fixed((na, ns, no), True), \
        fixed((na, ns, ns, no), False), fixed((1, ns), True)[0]
    a = na - 1 if a is None else a
    s = ns - 1 if s is None else s
    if rows:
        T[a, s, :] = flat(w.prob_vector(tag + 'Trow', ns))
        O[a, ns - 1, :] = flat(w.prob_vector(tag + 'Orow', no))
    R[a, s, ns - 1, no - 1] = w.real(tag + 'R')
    vals = [x.tolist() for x in (T, O, R, start)]
    m = w.load(POMDP_MOD).POMDP(*([w.array(x) for x in (T, O, R, start)] + [0.9]),
                                states=names('s', ns), actions=names('a', na),
                                observations=names('o', no))
    return m, tuple(vals) + (0.9,)
