"""Equality and hashing of values used as keys."""
from .common import Inst, flat

BOUNDS = ('all pairs of beliefs of 1 to 3 entries, vector states and conditions of 1 to 3 features '
          '(entries unknown reals, or unknown integers 0/1 for arrays of integers), those of 1100 entries of which one is unknown, boards of up to 3x3 '
          'with 2 of 3 parts (thorough 3) in any order and locations of any hash, pre/post '
          'actions over all pairs of 2-feature conditions, '
          'abstract and meta actions over a 2-name alphabet.')
ASSUMPTIONS = ['numbers of different types (int, float) that are equal have equal hashes (Python)']


def same(w, x, y, want, what):
    """x == y iff want; equal values have equal hashes."""
    e = (x == y)
    w.check(w.implies(e, want), '%s: equal only if the content is equal' % what)
    w.check(w.implies(want, e), '%s: equal if the content is equal' % what)
    eb = bool(e)
    w.check(bool(y == x) == eb and bool(x != y) != eb, '%s: equality is symmetric' % what)
    if eb:
        w.check(hash(x) == hash(y), '%s: equal values have equal hashes' % what)


def vector(w, name, n, kind):
    """An arbitrary array of n numbers; kind 'float' or 'int' (0/1 entries)."""
    if kind == 'float':
        return w.array(w.reals(name, n))
    import numpy as np
    return np.array([w.int('%s%d' % (name, i), 0, 1).__index__() for i in range(n)], dtype=int)


def content(w, x, y):
    x, y = flat(x), flat(y)
    return w.conj([len(x) == len(y)] + [w.eq(a, b) for a, b in zip(x, y)])


def beliefs(w, n, m, kinds):
    bel = w.load('task_models.lib.belief')
    import numpy as np
    out = []
    for name, k, kind in (('x', n, kinds[0]), ('y', m, kinds[1])):
        if kind == 'float':
            out.append(bel.ArrayBelief(w.prob_vector(name, k)))
        else:
            one = w.int(name, 0, k - 1).__index__()
            v = [int(i == one) for i in range(k)]
            out.append(bel.ArrayBelief(np.array(v) if kind == 'int' else v))
    x, y = out
    same(w, x, y, content(w, x.array, y.array), 'belief')
    w.check(not (x == 3) and bool(x != None), 'belief: different from other things')  # noqa: E711
    d = {x: 1}
    w.check((y in d) == bool(x == y), 'belief: works as a key')


def states(w, n, m, kinds):
    mod = w.load('task_models.state')
    x = mod.NDimensionalState(vector(w, 'x', n, kinds[0]))
    y = mod.NDimensionalState(vector(w, 'y', m, kinds[1]))
    same(w, x, y, content(w, x.get_features(), y.get_features()), 'vector state')
    w.check(not (x == 3), 'vector state: different from other things')


def condition(w, mod, name, n, kind):
    mask = vector(w, name + 'mask', n, 'int')
    val = vector(w, name + 'value', n, kind)
    m = [int(v) for v in mask]
    v = flat(val)
    for i in range(n):
        if not m[i]:
            w.assume(w.eq(v[i], 0))
    if kind == 'float':
        mask = mask.astype(float) if not w.symbolic else w.array([float(x) for x in m])
    return mod.Condition(mask, val), m, v


def conditions(w, n, kinds):
    mod = w.load('task_models.action')
    x, mx, vx = condition(w, mod, 'x', n, kinds[0])
    y, my, vy = condition(w, mod, 'y', n, kinds[1])
    same(w, x, y, w.conj([mx == my] + [w.eq(a, b) for a, b in zip(vx, vy)]), 'condition')
    a = mod.MatchAllCondition()
    same(w, a, mod.MatchAllCondition(), True, 'match-all condition')
    w.check(not (a == x) and not (x == a), 'condition: different from other things')


def actions(w, kinds):
    mod = w.load('task_models.action')
    cs = []
    for i, kind in enumerate(kinds):
        if kind == 'all':
            cs.append((mod.MatchAllCondition(), None))
        else:
            c, m, v = condition(w, mod, 'c%d' % i, 1, kind)
            cs.append((c, [m[0], v[0]]))
    x = mod.PrePostConditionAction(cs[0][0], cs[1][0], name='one')
    y = mod.PrePostConditionAction(cs[2][0], cs[3][0], name='two')

    def eq(a, b):
        if a is None or b is None:
            return a is b
        return w.conj([w.eq(p, q) for p, q in zip(a, b)])
    same(w, x, y, w.conj([eq(cs[0][1], cs[2][1]), eq(cs[1][1], cs[3][1])]), 'action')
    w.check(not (x == mod.Action()) and not (x == 3), 'action: different from other things')


def long(w, n, what):
    """Many numbers of which one is unknown."""
    bel, st, ac = w.load('task_models.lib.belief'), w.load('task_models.state'), w.load('task_models.action')
    k = w.pick('position', [0, 10, n // 2, n - 1])
    out, got = [], []
    for name in 'xy':
        v = [0. if i % 3 else 1. / n for i in range(n)]
        v[k] = w.real(name, 0, .25)
        v[k - 1] = 0.
        v[k - 1] = 1. - sum(v) if what == 'belief' else 0.
        got.append(list(v))
        if what == 'condition':
            mask = w.array([1.] * n)
            out.append(ac.Condition(mask, w.array(v)))
        else:
            out.append((bel.ArrayBelief if what == 'belief' else st.NDimensionalState)(w.array(v)))
    same(w, out[0], out[1], w.eq(got[0][k], got[1][k]), what)


class Loc(tuple):
    """A location with an arbitrary hash."""
    def __new__(cls, t, h):
        o = tuple.__new__(cls, t)
        o.h = h
        return o

    def __hash__(self):
        return self.h


def boards(w, np_, hashes):
    mod = w.load('task_models.snap_circuit')
    locs = [(0, 0, 0), (0, 1, 0), (1, 0, 2)]
    h = [w.pick('hash%d' % i, hashes) for i in range(3)]
    # nested hashing: make the hash of each placed part arbitrary too
    parts = [mod.SnapCircuitPart(i, 'p%d' % i) for i in range(3)]

    class Placed(tuple):
        def __hash__(self):
            return h[self[1].id]
    sets, cont = [], []
    for name in 'xy':
        order = []
        left = [0, 1, 2]
        for k in range(np_):
            i = w.pick('%s part%d' % (name, k), left) if name == 'y' else k
            left.remove(i)
            l = w.pick('%s loc%d' % (name, k), locs[:2])
            order.append(Placed((l, parts[i])))
        dims = w.pick('y board', [(2, 3), (3, 2)]) if name == 'y' else (2, 3)
        sets.append(mod.SnapCircuitState(dims, list(order)))
        cont.append((dims, sorted((i.id, l) for l, i in order)))
    same(w, sets[0], sets[1], cont[0] == cont[1], 'board state')
    w.check(not (sets[0] == 3), 'board state: different from other things')


def real_boards(w):
    """Plain location tuples, as used."""
    mod = w.load('task_models.snap_circuit')
    sets, cont = [], []
    for name in 'xy':
        order = []
        ids = w.pick('%s order' % name, [(0, 1), (1, 0)])
        for k in ids:
            loc = (w.int('%s%d row' % (name, k), 0, 1).__index__(), 0,
                   w.int('%s%d turn' % (name, k), 0, 1).__index__())
            order.append((loc, mod.SnapCircuitPart(k, w.pick('label%d%s' % (k, name), 'ab') if k else 'a')))
        sets.append(mod.SnapCircuitState((2, 2), order))
        cont.append(sorted((p.id, p.label, l) for l, p in order))
    same(w, sets[0], sets[1], cont[0] == cont[1], 'board state')


def named(w):
    mod = w.load('task_models.task')
    NAMES = ['a', 'b', 'a\u2192b', 'b\u2192a']

    def make(tag):
        kind = w.pick(tag + 'kind', ['plain', 'sequence', 'parallel', 'nested'])
        n1, n2 = w.pick(tag + 'n1', NAMES), w.pick(tag + 'n2', NAMES)
        A = mod.AbstractAction
        if kind == 'plain':
            nm = w.pick(tag + 'name', ['a', '(a||b)'])
            return A(nm), ('plain', nm)
        if kind == 'nested':
            inner = mod.MetaAction('sequence', [A(n1), A('b')])
            return mod.MetaAction('parallel', [inner, A(n2)]), ('nested', n1, n2)
        return mod.MetaAction(kind, [A(n1), A(n2)]), (kind, n1, n2)
    x, cx = make('x')
    y, cy = make('y')
    same(w, x, y, cx == cy, 'named action')


def labels(what, *more):
    return ['%s: equal only if the content is equal' % what, '%s: equal if the content is equal' % what,
            '%s: equal values have equal hashes' % what]


def instances(tier):
    th = tier == 'thorough'
    out = []
    K = [('float', 'float'), ('float', 'int'), ('int', 'list'), ('list', 'float')]
    for n in (2, 3) if th else (2,):
        for k in K:
            out.append(Inst('belief-%d-%s-%s' % (n, *k), beliefs, labels('belief'), n=n, m=n, kinds=k))
    out.append(Inst('belief-3-float-float', beliefs, labels('belief'), n=3, m=3, kinds=K[0]))
    out.append(Inst('belief-1-2', beliefs, [], n=1, m=2, kinds=K[0]))
    out.append(Inst('belief-2-3', beliefs, [], n=2, m=3, kinds=K[0]))
    for n in (1, 2) + ((3,) if th else ()):
        for k in (('float', 'float'), ('float', 'int'), ('int', 'int')):
            out.append(Inst('state-%d-%s-%s' % (n, *k), states, labels('vector state'), n=n, m=n, kinds=k))
            out.append(Inst('condition-%d-%s-%s' % (n, *k), conditions, labels('condition'), n=n, kinds=k))
    out.append(Inst('state-1-2', states, [], n=1, m=2, kinds=('float', 'float')))
    for k in [('float', 'float', 'float', 'float'), ('float', 'int', 'int', 'float'), ('all', 'int', 'all', 'int'),
              ('all', 'int', 'int', 'int'), ('int', 'all', 'int', 'int')]:
        out.append(Inst('action-' + '-'.join(k), actions, labels('action') if k.count('all') != 1 else [],
                        kinds=k))
    out.append(Inst('board-2', boards, labels('board state'), np_=2, hashes=(0, 8)))
    if th:
        out.append(Inst('board-3', boards, labels('board state'), np_=3, hashes=(0, 8)))
    for what in ('belief', 'vector state', 'condition'):
        out.append(Inst('long-%s' % what.replace(' ', '-'), long, labels(what), n=1100, what=what))
    out.append(Inst('board-plain', real_boards, labels('board state')))
    out.append(Inst('named-actions', named, labels('named action')))
    return out
