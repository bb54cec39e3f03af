"""Running averages of search nodes."""
from .common import Inst

BOUNDS = ('130 returns of which the last two are unknown, for factors 0, 1/2 and 1; every sequence of up to 5 (thorough 8) returns and every forgetting factor in [0, 1]; the '
          'limits by the smallest and largest return for up to 3 (thorough 4) returns; statistics used '
          'alone, as search nodes and through the node parameters of a search tree.')


def make(w, kind, alpha):
    mod = w.load('task_models.lib.pomcp')
    if kind == 'average':
        return mod._ValueAverage(alpha) if alpha is not None else mod._ValueAverage()
    if kind == 'node':
        return mod._SearchNode(alpha=alpha)
    bel = w.load('task_models.lib.belief')
    node = mod._SearchObservationNode(bel.ArrayBelief([1.]), 2, alpha=alpha)
    if kind == 'observation':
        return node
    return node.safe_get_child(1)


def sequence(w, kind, k, limits=False):
    alpha = w.real('alpha', 0, 1)
    s = make(w, kind, alpha)
    w.check(s.n_simulations == 0, 'no return is counted at first')
    w.check(w.eq(s.value, 0), 'the value is 0 at first')
    vs = []
    prev = 0
    for i in range(k):
        v = w.real('v%d' % i)
        s.update(v)
        vs.append(v)
        w.check(s.n_simulations == i + 1, 'every return is counted')
        new = s.value
        mean = (prev * i + v) / (i + 1)
        w.check(w.eq(new, (1 - alpha) * mean + alpha * v), 'weighting of the mean and the newest return')
        prev = new
    if limits:
        for j in range(k):
            w.assume(w.conj([vs[j] <= 1, vs[j] >= -1]))
        w.check(w.conj([w.le(s.value, 1), w.le(-1, s.value)]), 'within the smallest and largest return')


def bounded(w, k):
    """Stays in any interval holding all returns: one more return."""
    lo, hi = w.real('lo'), w.real('hi')
    alpha = w.real('alpha', 0, 1)
    s = make(w, 'average', alpha)
    for i in range(k):
        v = w.real('v%d' % i)
        w.assume(w.conj([lo <= v, v <= hi]))
        s.update(v)
        # the previous value is only known to be in the interval: induction
        w.check(w.conj([w.le(lo, s.value), w.le(s.value, hi)]), 'within the smallest and largest return')


def special(w, kind, k, alpha):
    s = make(w, kind, alpha)
    total = 0
    for i in range(k):
        v = w.real('v%d' % i)
        s.update(v)
        total = total + v
        w.check(s.n_simulations == i + 1, 'every return is counted')
        if alpha == 1:
            w.check(w.eq(s.value, v), 'full forgetting keeps the last return')
        else:
            w.check(w.eq(s.value * (i + 1), total), 'without forgetting the value is the mean')


def long(w, kind, alpha, k=130):
    """Many returns, the last ones unknown."""
    s = make(w, kind, alpha)
    value, n = 0., 0
    for i in range(k):
        v = float(i * 7 % 32) if i < k - 2 else w.real('v%d' % i)
        s.update(v)
        n += 1
        value = (1 - alpha) * (value * (n - 1) + v) / n + alpha * v
        w.check(s.n_simulations == n, 'every return is counted')
    # binary fractions of the exact value: a tolerance for floats
    w.check(w.conj([w.le(s.value, value + 1e-6), w.le(value, s.value + 1e-6)]),
            'weighting of the mean and the newest return')


def independent(w):
    """Two statistics do not share anything."""
    a, b = make(w, 'node', 0), make(w, 'node', 0)
    x, y = w.real('x'), w.real('y')
    a.update(x)
    b.update(y)
    a.update(y)
    w.check(w.eq(b.value, y) and b.n_simulations == 1, 'statistics are independent')


def tree(w):
    """The factor given to a search tree is the one its nodes use."""
    mod = w.load('task_models.lib.pomcp')

    class Model(object):
        n_actions = 2
        n_states = 2
        start = w.array([1., 0.])
        actions = ['a', 'b']
    alpha = w.real('alpha', 0, 1)
    t = mod._SearchTree(Model(), mod.NTransitionsHorizon.generator(None, n=2), 1.,
                        node_params={'alpha': alpha})
    x, y = w.real('x'), w.real('y')
    for n in (t.root, t.root.safe_get_child(0)):
        n.update(x)
        n.update(y)
        w.check(w.eq(n.value, (1 - alpha) * (x + y) / 2 + alpha * y), 'the tree passes the factor to its nodes')


def instances(tier):
    th = tier == 'thorough'
    out = []
    lab = ['every return is counted', 'weighting of the mean and the newest return']
    for kind in ('average', 'node', 'observation', 'action'):
        for k in (1, 3, 8 if th else 5):
            out.append(Inst('sequence-%s-%d' % (kind, k), sequence, lab, kind=kind, k=k))
        for al in (0, 1) + ((0.,) if kind == 'average' else ()):
            out.append(Inst('special-%s-%r' % (kind, al), special,
                            ['full forgetting keeps the last return' if al else
                             'without forgetting the value is the mean'], kind=kind, k=8 if th else 5, alpha=al))
    out.append(Inst('special-default', special, ['without forgetting the value is the mean'],
                    kind='average', k=4, alpha=None))
    for al in (0, .5, 1):
        out.append(Inst('long-%r' % al, long, lab, kind='node', alpha=al))
    for k in (1, 2, 3) + ((4,) if th else ()):
        out.append(Inst('bounds-%d' % k, bounded, ['within the smallest and largest return'], k=k))
    out.append(Inst('independent', independent, ['statistics are independent']))
    out.append(Inst('tree', tree, ['the tree passes the factor to its nodes']))
    return out
