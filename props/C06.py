"""Sharing of nodes in the belief-keyed search tree."""
from .common import Inst, flat
from .search import MCP_MOD, Fake

BOUNDS = ('every pair of histories of up to 2 steps (2 actions, 2 observations; in the quick tier pairs of two-step histories share their actions), every belief update '
          'function over beliefs of 2 states (3 for single steps), pairs of two-step histories of a model with 13 beliefs, all visited in between; nodes created by lookup or by '
          'search episodes of up to 2 transitions, in any order.')
ASSUMPTIONS = ['the belief update of the model is an arbitrary function of action, observation and '
               'belief (its exactness is P01)']


class Model(Fake):

    def __init__(self, w, ns, start=None):
        Fake.__init__(self, w, 2, 2, ns=ns, discount=0.)
        self.start = w.prob_vector('start', ns) if start is None else w.array(start)
        self.memo = []

    def belief_update(self, a, o, b):
        b = flat(b)
        for a2, o2, b2, r in self.memo:
            if (a2, o2) == (int(a), int(o)) and bool(self.w.all_eq(b, b2)):
                return self.w.array(list(r))
        r = flat(self.w.prob_vector('post%d' % len(self.memo), self.n_states))
        self.memo.append((int(a), int(o), b, r))
        return self.w.array(list(r))


def pair(w, ns, lengths, runner=False, episodes=0, fixed=False):
    mod = w.load(MCP_MOD)
    w.cheap_hash()
    m = Model(w, ns)
    if runner:
        p = mod.POMCPPolicyRunner(m, horizon=2, iterations=2, belief_values=True, logger=lambda *a: None)
        t = p.tree
    else:
        t = mod._ObservationLookupSearchTree(m, mod.NTransitionsHorizon.generator(m, n=episodes or 1), 0.)
    hs, bs, ns_ = [], [], []
    for k, l in enumerate(lengths):
        h, b = [], flat(m.start)
        for i in range(l):
            a = 0 if fixed else w.int('a%d_%d' % (k, i), 0, 1).__index__()
            o = w.int('o%d_%d' % (k, i), 0, 1).__index__()
            h += [a, o]
        hs.append(h)
    for e in range(1 if episodes else 0):
        t.simulate_from_node(t.root, action=hs[0][0] if hs[0] else 0)
    nodes = [t.get_node(h) for h in hs]
    for h in hs:
        b = flat(m.start)
        for a, o in zip(h[::2], h[1::2]):
            b = flat(m.belief_update(a, o, w.array(list(b))))
        bs.append(b)
    for n, b in zip(nodes, bs):
        w.check_all_eq(flat(n.belief.array), b, 'the node has the belief of its history')
    e = w.all_eq(bs[0], bs[1])
    if nodes[0] is nodes[1]:
        w.check(e, 'a node is shared only by histories of equal belief')
    else:
        w.check(w.neg(e), 'histories of equal belief share their node')
    v = w.real('v')
    c0, c1 = nodes[0].n_simulations, nodes[1].n_simulations
    nodes[0].update(v)
    w.check((nodes[1].n_simulations == c1 + 1) == (nodes[0] is nodes[1]), 'statistics are shared with the node')
    for h, n in zip(hs, nodes):
        w.check(t.get_node(h) is n, 'looking up twice gives the same node')


def many(w, steps):
    """A model with a dozen beliefs, visited all over before looking up two histories."""
    mod = w.load(MCP_MOD)
    m = Fake(w, 2, 2, discount=0.)
    m.start = w.array([0., 1.])

    def code(b):
        return int(round(float(flat(b)[0]) * 16))

    def succ(k, a, o):
        return (2 * k + 3 * int(a) + int(o) + 1) % 13
    m.belief_update = lambda a, o, b: w.array([succ(code(b), a, o) / 16., 1 - succ(code(b), a, o) / 16.])
    t = mod._ObservationLookupSearchTree(m, mod.NTransitionsHorizon.generator(m, n=1), 0.)
    hs = []
    for k in range(2):
        h = []
        for i in range(steps):
            h += [w.int('a%d_%d' % (k, i), 0, 1).__index__(), w.int('o%d_%d' % (k, i), 0, 1).__index__()]
        hs.append(h)
    nodes, codes = [], []
    first = t.get_node(hs[0])
    first.update(1.)
    for q in range(64):
        t.get_node([(q >> i) & 1 for i in range(6)]).update(0.)
    for h in hs:
        k = 0
        for a, o in zip(h[::2], h[1::2]):
            k = succ(k, a, o)
        codes.append(k)
        nodes.append(t.get_node(h))
        w.check_all_eq(flat(nodes[-1].belief.array), [k / 16., 1 - k / 16.], 'the node has the belief of its history')
    w.check((nodes[0] is nodes[1]) == (codes[0] == codes[1]), 'nodes are shared exactly by equal beliefs')
    w.check(nodes[0] is first, 'looking up again gives the same node')


def plain(w):
    """In the plain tree every history has its own node."""
    mod = w.load(MCP_MOD)
    m = Model(w, 2)
    t = mod._SearchTree(m, mod.NTransitionsHorizon.generator(m, n=1), 0.)
    hs = []
    for k in range(2):
        hs.append([w.int('%s%d' % (x, k), 0, 1).__index__() for x in 'ao'])
    x, y = t.get_node(hs[0]), t.get_node(hs[1])
    w.check((x is y) == (hs[0] == hs[1]), 'the plain tree shares by history')


def two(w):
    """Searches of their own have statistics of their own."""
    mod = w.load(MCP_MOD)
    w.cheap_hash()
    m = Model(w, 2)
    ts = [mod._ObservationLookupSearchTree(m, mod.NTransitionsHorizon.generator(m, n=1), 0.) for _ in range(2)]
    h = [w.int(x, 0, 1).__index__() for x in 'ao'] if w.flag('later') else []
    x, y = ts[0].get_node(h), ts[1].get_node(h)
    x.update(w.real('v'))
    w.check(y.n_simulations == 0, 'other searches share nothing')


def integers(w):
    """Beliefs given as integers and as floats are the same beliefs."""
    import numpy as np
    mod = w.load(MCP_MOD)
    m = Model(w, 2, start=[1., 0.])
    ints = w.flag('integers')
    m.belief_update = lambda a, o, b: (np.array([1, 0]) if int(a) == 0 else
                                       np.array([0, 1])) if ints else w.array([1. - int(a), int(a) * 1.])
    t = mod._ObservationLookupSearchTree(m, mod.NTransitionsHorizon.generator(m, n=1), 0.)
    x, y = t.get_node([0, 0]), t.get_node([1, 1])
    w.check(x is t.root, 'histories of equal belief share their node')
    w.check(y is not x and t.get_node([1, 0]) is y, 'a node is shared only by histories of equal belief')


def refused(w):
    mod = w.load(MCP_MOD)
    m = Fake(w, 2, 2, discount=0.)
    w.expect_raises(ValueError, lambda: mod.POMCPPolicyRunner(
        m, horizon=1, belief_values=True, belief='particle', logger=lambda *a: None),
        'particle beliefs are refused')


def instances(tier):
    th = tier == 'thorough'
    L = ['a node is shared only by histories of equal belief', 'histories of equal belief share their node',
         'the node has the belief of its history']
    out = []
    for ns in (2, 3):
        out.append(Inst('pair-1-1-%d' % ns, pair, L, ns=ns, lengths=(1, 1)))
        out.append(Inst('pair-0-1-%d' % ns, pair, L, ns=ns, lengths=(0, 1)))
    out.append(Inst('pair-0-2', pair, L, ns=2, lengths=(0, 2)))
    out.append(Inst('pair-1-2', pair, L, ns=2, lengths=(1, 2)))
    out.append(Inst('pair-2-2-fixed', pair, L, ns=2, lengths=(2, 2), fixed=True))
    out.append(Inst('runner-1-1', pair, L, ns=2, lengths=(1, 1), runner=True))
    out.append(Inst('episode-1-1', pair, L, ns=2, lengths=(1, 1), episodes=1))
    out.append(Inst('episode-1-2-fixed', pair, L, ns=2, lengths=(1, 2), episodes=2, fixed=True))
    out.append(Inst('many-2', many, ['nodes are shared exactly by equal beliefs'], steps=2))
    out.append(Inst('plain', plain, ['the plain tree shares by history']))
    out.append(Inst('two', two, ['other searches share nothing']))
    out.append(Inst('integers', integers, L[:2]))
    out.append(Inst('refused', refused, ['particle beliefs are refused']))
    if th:
        out.append(Inst('pair-2-2', pair, L, ns=2, lengths=(2, 2)))
        out.append(Inst('episode-1-2', pair, L, ns=2, lengths=(1, 2), episodes=2))
        out.append(Inst('pair-1-3', pair, L, ns=2, lengths=(1, 3)))
        out.append(Inst('pair-2-2-3', pair, L, ns=3, lengths=(2, 2)))
    return out
