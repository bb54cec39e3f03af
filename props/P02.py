"""Well-formedness of models."""
import numpy as np

from .common import Inst, POMDP_MOD, flat, names

BOUNDS = ('sizes up to 2 states x 2 actions x 2 observations (3 in thorough): every value of all '
          'entries and of the discount, every shape of one array at a time with 0 to 4 axes of '
          'length 1 to 3, every list of up to 3 names over 3-name alphabets (strings, numbers, mixed, tuples), given or defaulted. '
          'Row sums within 1e-3 of one but not one are left open (float tolerance).')
ASSUMPTIONS = ['all arrays but the varied one are well formed in the shape instances']


def build(w, *a, **kw):
    try:
        return w.load(POMDP_MOD).POMDP(*a, **kw)
    except Exception:
        return None


def uniform(shape):
    return np.full(shape, 1. / shape[-1]) if len(shape) and shape[-1] else np.zeros(shape)


def values(w, ns, na, no, convention):
    T = w.real_array('T', (na, ns, ns))
    O = w.real_array('O', (na, ns, no))
    R = w.real_array('R', (na, ns, ns, no))
    start = w.real_array('start', (ns,))
    g = w.real('discount')
    rows = [start] + [T[a, s] for a in range(na) for s in range(ns)] \
        + [O[a, s] for a in range(na) for s in range(ns)]
    sums = [sum(flat(r)) for r in rows]
    before = [flat(x) for x in (T, O, R, start)]
    m = build(w, T, O, R, start, g, names('s', ns), names('a', na), names('o', no),
              values=convention)
    ok = [w.eq(s, 1.) for s in sums] + [g >= 0, g <= 1]
    bad = [w.disj([s > 1.001, s < 0.999]) for s in sums] + [g < 0, g > 1]
    if convention not in ('reward', 'cost'):
        w.check(m is None, 'unknown value convention is refused')
        return
    if m is None:
        w.check(w.neg(w.conj(ok)), 'well-formed models are accepted')
        return
    w.check(w.neg(w.disj(bad)), 'non-distributions and bad discounts are refused')
    w.check_all_eq(flat(m.T), before[0], 'accepted model exposes its inputs')
    w.check_all_eq(flat(m.O), before[1], 'accepted model exposes its inputs')
    r = before[2] if convention == 'reward' else [-x for x in before[2]]
    w.check_all_eq(flat(m.R), r, 'accepted model exposes its inputs')
    w.check_all_eq(flat(m.start), before[3], 'accepted model exposes its inputs')
    w.check(w.eq(m.discount, g), 'accepted model exposes its inputs')
    for x, y in zip((T, O, R, start), before):
        w.check_all_eq(flat(x), y, 'the arrays given are left alone')
    w.check(np.shape(m.R) == (na, ns, ns, no), 'accepted model exposes its inputs')


def undefined(w, value):
    """Entries that are no number."""
    arrs = dict(start=np.full(2, .5), T=np.full((2, 2, 2), .5), O=np.full((2, 2, 2), .5))
    which = w.pick('array', sorted(arrs))
    a = arrs[which].reshape(-1)
    a[w.int('at', 0, len(a) - 1).__index__()] = float(value)
    m = build(w, arrs['T'], arrs['O'], np.zeros((2, 2, 2, 2)), arrs['start'], .9)
    w.check(m is None, 'undefined probabilities are refused')


def shapes(w, which, named, top):
    ns, na, no = w.int('ns', 1, 2).__index__(), w.int('na', 1, 2).__index__(), w.int('no', 1, 2).__index__()
    right = dict(start=(ns,), T=(na, ns, ns), O=(na, ns, no), R=(na, ns, ns, no))
    rank = len(right[which])
    r = w.int('rank', max(0, rank - 1), rank + 1).__index__()
    shape = tuple(w.int('dim%d' % i, 1, top).__index__() for i in range(r))
    used = dict(right)
    used[which] = shape
    arrs = {k: w.array(uniform(v)) for k, v in used.items()}
    kw = {}
    if named:
        kw = dict(states=names('s', ns), actions=names('a', na), observations=names('o', no))
    m = build(w, arrs['T'], arrs['O'], arrs['R'], arrs['start'], 0.9, **kw)
    fits = shape == right[which]
    if not named and which == 'O':
        fits = shape[:2] == right['O'][:2] and len(shape) == 3 and shape[2] == no
    w.check((m is not None) == fits, 'arrays are accepted exactly in the right shape',
            info='%s of shape %s with %s' % (which, shape, right))
    if m is not None:
        w.check(m.states == (names('s', ns) if named else list(range(ns)))
                and m.actions == (names('a', na) if named else list(range(na)))
                and m.observations == (names('o', no) if named else list(range(no)))
                and (m.n_states, m.n_actions, m.n_observations) == (ns, na, no),
                'names are the given ones or 0..n-1')


ALPHABETS = dict(text=['x', 'y', 'z'], number=[0, 1, 2], mixed=['1', 1, 'one'], pairs=[('a', 1), ('a', 2), 'a'])


def naming(w, which, n, alphabet):
    """One dimension has size n; its names are any list of up to n+1 names."""
    size = dict(states=2, actions=2, observations=2)
    size[which] = n
    ns, na, no = size['states'], size['actions'], size['observations']
    k = w.int('count', 0, n + 1).__index__()
    lst = [w.pick('name%d' % i, ALPHABETS[alphabet][:max(2, n)]) for i in range(k)]
    given = iter(lst) if w.flag('iterator') else tuple(lst)
    m = build(w, w.array(uniform((na, ns, ns))), w.array(uniform((na, ns, no))),
              w.array(np.zeros((na, ns, ns, no))), w.array(uniform((ns,))), 1, **{which: given})
    good = k == n and len(set(lst)) == k
    w.check((m is not None) == good, 'names are accepted exactly when distinct and matching',
            info='%s=%s for size %d' % (which, lst, n))
    if m is not None:
        w.check(list(getattr(m, which)) == lst, 'names are exposed in order')


def long_naming(w, which, n):
    """Many names, any two of which may be the same."""
    size = dict(states=2, actions=2, observations=2)
    size[which] = n
    ns, na, no = size['states'], size['actions'], size['observations']
    i, j = w.int('i', 0, n - 1).__index__(), w.int('j', 0, n - 1).__index__()
    lst = ['n%d' % k for k in range(n)]
    lst[i] = lst[j]
    m = build(w, w.array(uniform((na, ns, ns))), w.array(uniform((na, ns, no))),
              w.array(np.zeros((na, ns, ns, no))), w.array(uniform((ns,))), 1, **{which: lst})
    w.check((m is not None) == (i == j), N[0], info='%s=%s for size %d' % (which, lst, n))
    if m is not None:
        w.check(list(getattr(m, which)) == lst, N[1])


V = ['well-formed models are accepted', 'non-distributions and bad discounts are refused',
     'accepted model exposes its inputs']
S = ['arrays are accepted exactly in the right shape', 'names are the given ones or 0..n-1']
N = ['names are accepted exactly when distinct and matching', 'names are exposed in order']


def instances(tier):
    out = []
    sizes = [(2, 1, 2), (1, 2, 1)] + ([(2, 2, 2), (3, 1, 2), (1, 1, 3)] if tier == 'thorough' else [])
    for ns, na, no in sizes:
        for c in ('reward', 'cost') + (('utility', 'rewards', 'cos', '', 'Cost', 'REWARD', None)
                                      if ns == sizes[0][0] else ()):
            out.append(Inst('values-%s-%dx%dx%d' % (c if c != '' else 'empty', ns, na, no), values,
                            V if c in ('reward', 'cost') else ['unknown value convention is refused'],
                            ns=ns, na=na, no=no, convention=c))
    for which in ('start', 'T', 'O', 'R'):
        for named in (True, False):
            out.append(Inst('shape-%s-%s' % (which, 'named' if named else 'default'), shapes, S,
                            which=which, named=named, top=3 if tier == 'thorough' else 2))
    for v in ('nan', 'inf'):
        out.append(Inst('undefined-' + v, undefined, ['undefined probabilities are refused'], value=v))
    for which in ('states', 'actions', 'observations'):
        for n in (2, 3):
            for al in sorted(ALPHABETS):
                out.append(Inst('names-%s-%d-%s' % (which, n, al), naming, N, which=which, n=n, alphabet=al))
        out.append(Inst('names-%s-many' % which, long_naming, N, which=which, n=7))
    return out
