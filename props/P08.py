"""Expansion of a belief-tracking policy into a graph."""
from .common import Inst, POMDP_MOD, flat
from .P07 import Abstract, best

BOUNDS = ('every start belief and every belief update over 2 states (thorough 3), with 1 or 2 '
          'observations, expansions capped at 1 or 2 nodes (thorough 3), a policy with 2 nodes choosing '
          'by belief; larger caps (2 to 5) with posteriors taken from a grid of 4 beliefs. ; on a runner already moved to any other belief. The tolerance of the statement is 1e-2 in Euclidean distance.')
ASSUMPTIONS = ['the belief update of the model is an arbitrary function (its exactness is P01)']


class Chain(Abstract):
    """Updates lead along given beliefs first, to any belief after that."""

    def lookup(self, a, o, b):
        k = (int(a), int(o), self.key(b))
        if k not in self.memo and len(self.memo) < len(self.chain):
            self.n += 1
            self.memo[k] = list(self.chain[len(self.memo)])
        return Abstract.lookup(self, a, o, b)


def expand(w, ns, no, cap, grid=None, moved=False, chain=None):
    mod = w.load(POMDP_MOD)
    m = (Chain if chain else Abstract)(w, mod, ns, 2, no, grid)
    if chain:
        m.chain = chain
        m.start = w.array([.5, .5])
    vals = [[float(i == j) for j in range(ns)] for i in range(2)]
    acts = ['a1', 'a0']
    p = mod.GraphPolicy(list(acts), m.observations, [[0] * no] * 2, w.array(vals), init=1)
    r = mod.GraphPolicyBeliefRunner(p, m)
    start = flat(m.start)
    if moved:
        # the runner was used before
        b = w.pick('moved to', grid) if grid else flat(w.prob_vector('moved to', ns))
        r.reset(belief=w.array(list(b)))
    g = r.visit(max_states=cap)
    n = len(g.actions)
    w.check(int(g.init) == 0 or n == 0, 'expansion starts at the start belief')
    nodes = [flat(x) for x in g.values]
    w.check(len(nodes) == n and n >= 1, 'one belief per node')
    w.check_all_eq(nodes[0], start, 'expansion starts at the start belief')
    w.check_conj([w.le(1e-4 * (1 - 1e-9), sum((x - y) * (x - y) for x, y in zip(a, b))) for i, a in enumerate(nodes) for b in nodes[:i]],
                 'nodes differ by the tolerance')
    tr = g.transitions.tolist()
    w.check(len(tr) == n and all(len(x) == no for x in tr), 'one transition per node and observation')
    w.check(list(g.observations) == list(m.observations), 'observations are those of the model')
    full = n <= cap
    used = {0}
    for i in range(n):
        k = 0 if g.actions[i] == acts[0] else 1
        w.check(g.actions[i] in acts, 'node actions are what the policy does')
        best(w, vals, nodes[i], k, 'node actions are what the policy does')
        for o in range(no):
            known = (m.actions.index(g.actions[i]), o, m.key(nodes[i])) in m.memo
            if tr[i][o] is None:
                if full or known:
                    w.check(m.lookup(m.actions.index(g.actions[i]), o, nodes[i]) is None,
                            'absent exactly when impossible')
                continue
            t = int(tr[i][o])
            nb = m.lookup(m.actions.index(g.actions[i]), o, nodes[i])
            w.check(nb is not None, 'absent exactly when impossible')
            w.check(0 <= t < n, 'transitions lead to nodes')
            used.add(t)
            d2 = sum((x - y) * (x - y) for x, y in zip(nodes[t], nb))
            w.check(w.le(d2, 1e-4), 'transitions lead to a node close to the posterior')
    w.check(used == set(range(n)), 'every node is reached')


L = ['expansion starts at the start belief', 'node actions are what the policy does',
     'absent exactly when impossible', 'transitions lead to a node close to the posterior',
     'every node is reached']


GRID = [(.25, .75), (.2578125, .7421875), (.625, .375), (1., 0.)]


FAR = [(.0, 1.), (.125, .875), (.25, .75), (.5, .5), (.75, .25)]


def instances(tier):
    th = tier == 'thorough'
    out = []
    for ns, no, cap in [(2, 1, 1), (2, 1, 2), (2, 2, 1)] + (
            [(3, 1, 1), (2, 1, 3), (2, 2, 2)] if th else []):
        out.append(Inst('expand-%d-%d-cap%d' % (ns, no, cap), expand, L, ns=ns, no=no, cap=cap))
    out.append(Inst('expand-moved-2-1-cap1', expand, L, ns=2, no=1, cap=1, moved=True))
    out.append(Inst('expand-moved-grid', expand, L, ns=2, no=1, cap=2, grid=GRID[:3], moved=True))
    out.append(Inst('expand-far-1-cap6', expand, L, ns=2, no=1, cap=6, grid=FAR))
    out.append(Inst('expand-chain-4', expand, L[:2] + L[3:], ns=2, no=1, cap=5, chain=[(0., 1.), (.125, .875), (.25, .75), (1., 0.)]))
    for no, cap in [(1, 3), (2, 2)] + ([(1, 5), (2, 3)] if th else []):
        out.append(Inst('expand-grid-%d-cap%d' % (no, cap), expand, L, ns=2, no=no, cap=cap, grid=GRID))
    return out
