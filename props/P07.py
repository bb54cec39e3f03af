"""The runner that tracks the belief, and its trajectory trees."""
import json

from .common import Inst, POMDP_MOD, flat, joint, make_pomdp, names

BOUNDS = ('every model with 2x2x2 (states x actions x observations; thorough 3x2x2), every value table '
          'of policies with 2 nodes, every start and reset belief, every sequence of up to 2 (thorough '
          '3) observations; trees of horizon 0 and 1 for every such model and of horizon 0 to 3 for '
          'models in which only the zero pattern and one value vary, to 5 when only the zero pattern does.')
ASSUMPTIONS = ['the rows of the model and the beliefs are exact probability vectors',
               'in instances marked abstract the belief update of the model is an arbitrary '
               'function (its exactness is P01)']


def policy(w, mod, nn, ns, actions, obs):
    V = w.real_array('v', (nn, ns))
    acts = [w.pick('node%d' % i, actions) for i in range(nn)]
    p = mod.GraphPolicy(list(acts), list(obs), [[None if (i + j) % 2 else 0 for j in range(len(obs))] for i in range(nn)], V, init=nn - 1)
    return p, acts, [list(flat(r)) for r in V]


def best(w, vals, b, i, label):
    sc = [sum(v * x for v, x in zip(row, b)) for row in vals]
    w.check_conj([w.le(s, sc[i]) for s in sc], label)


def follow(w, ns, na, no, steps):
    """Real belief updates along every observation sequence."""
    m, (T, O, R, b0, g) = make_pomdp(w, ns, na, no, rewards=False, discount=.9)
    mod = w.load(POMDP_MOD)
    # two nodes whose action choice does not depend on the belief: acts vary
    acts = [w.pick('node%d' % i, m.actions) for i in range(2)]
    V = w.array([[1.] * ns, [0.] * ns])
    p = mod.GraphPolicy(list(acts), m.observations, [[0] * no] * 2, V, init=1)
    r = mod.GraphPolicyBeliefRunner(p, m)
    bel = list(b0)
    if w.flag('reset'):
        b = w.prob_vector('b', ns)
        r.reset(belief=b)
        bel = flat(b)
    scale = 1
    ia = m.actions.index(acts[0])
    w.check_all_eq(flat(r.current_belief), bel, 'runs start at the given belief')
    for t in range(steps):
        w.check(r.get_action() == acts[0], 'action of the value-maximising node')
        o = w.int('obs%d' % t, 0, no - 1).__index__()
        post = joint(T, O, bel, ia, o)
        norm = sum(post)
        held = list(flat(r.current_belief))
        try:
            r.step(m.observations[o])
        except mod.Impossible:
            w.check(norm <= 0, 'impossible only if the observation has probability zero')
            w.check_all_eq(flat(r.current_belief), held, 'impossible step leaves the belief')
            return
        w.check(norm > 0, 'impossible observations are reported')
        x = flat(r.current_belief)
        for j in range(ns):
            w.check(w.eq_ratio(x[j], post[j], norm), 'belief is the exact posterior')
        bel = post
    w.check_all_eq(flat(m.start), b0, 'the model is unchanged')


class Abstract(object):
    """A model whose belief update is an arbitrary function of what it is given."""

    def __init__(self, w, mod, ns, na, no, grid=None):
        self.w, self.mod, self.ns, self.grid = w, mod, ns, grid
        self.actions, self.observations = names('a', na), names('o', no)
        self.n_actions, self.n_observations, self.n_states = na, no, ns
        self.start = w.array(list(w.pick('start', grid))) if grid else w.prob_vector('start', ns)
        self.memo = {}
        self.n = 0

    def key(self, b):
        return tuple(str(x) for x in flat(b))

    def lookup(self, a, o, b):
        """None or the posterior."""
        k = (int(a), int(o), self.key(b))
        if k not in self.memo:
            self.n += 1
            if self.w.flag('imp%d' % self.n):
                self.memo[k] = None
            elif self.grid:
                self.memo[k] = list(self.w.pick('post%d' % self.n, self.grid))
            else:
                self.memo[k] = flat(self.w.prob_vector('post%d' % self.n, self.ns))
        return self.memo[k]

    def belief_update(self, a, o, b):
        r = self.lookup(a, o, b)
        if r is None:
            raise self.mod.Impossible('impossible')
        return self.w.array(list(r))


def steps(w, ns, no, n):
    """Abstract updates, belief-dependent choice of node."""
    mod = w.load(POMDP_MOD)
    m = Abstract(w, mod, ns, 2, no)
    p, acts, vals = policy(w, mod, 2, ns, m.actions, m.observations)
    r = mod.GraphPolicyBeliefRunner(p, m)
    bel = flat(m.start)
    for t in range(n + 1):
        w.check_all_eq(flat(r.current_belief), bel, 'belief is what the model computes')
        best(w, vals, bel, int(r.current), 'node is value-maximising for the belief')
        w.check(r.get_action() == acts[int(r.current)], 'action of the value-maximising node')
        if t == n:
            break
        cur = int(r.current)
        o = w.int('obs%d' % t, 0, no - 1).__index__()
        want = m.lookup(m.actions.index(acts[cur]), o, bel)
        try:
            r.step(m.observations[o])
        except mod.Impossible:
            w.check(want is None, 'impossible exactly when the model says so')
            w.check(int(r.current) == cur, 'impossible step leaves the node')
            w.check_all_eq(flat(r.current_belief), bel, 'impossible step leaves the belief')
            continue
        w.check(want is not None, 'impossible exactly when the model says so')
        bel = want


def check_tree(w, m, acts, vals, tree, bel, horizon):
    label = 'trees follow the definition'
    w.check(set(tree) == {'belief', 'action', 'node', 'observations', 'children'}, label)
    w.check_all_eq(tree['belief'], bel, 'tree nodes hold the belief')
    i = int(tree['node'])
    best(w, vals, bel, i, 'tree nodes are value-maximising')
    w.check(tree['action'] == acts[i], 'tree nodes hold the action')
    want = []
    if horizon > 0:
        for o in range(len(m.observations)):
            nb = m.lookup(m.actions.index(acts[i]), o, bel)
            if nb is not None:
                want.append((o, nb))
    w.check(list(tree['observations']) == [m.observations[o] for o, _ in want],
            'trees list the possible observations',
            info='%s instead of %s' % (tree['observations'], want))
    w.check(len(tree['children']) == len(want), 'trees list the possible observations')
    for (o, nb), c in zip(want, tree['children']):
        check_tree(w, m, acts, vals, c, nb, horizon - 1)


class Line(Abstract):
    """Posteriors are given, only which observations are impossible is unknown."""

    def lookup(self, a, o, b):
        k = (int(a), int(o), self.key(b))
        if k not in self.memo:
            self.n += 1
            if (self.n < 8 or o == 0) and self.w.flag('imp%d' % self.n):
                self.memo[k] = None
            else:
                self.memo[k] = [self.n / 128., 1 - self.n / 128.]
        return self.memo[k]


def trees(w, ns, no, horizon, varied, line=False):
    mod = w.load(POMDP_MOD)
    m = (Line if line else Abstract)(w, mod, ns, 2, no)
    if varied:
        p, acts, vals = policy(w, mod, 2, ns, m.actions, m.observations)
    else:
        vals = [[1.] * ns, [0.] * ns]
        acts = ['a1', 'a0']
        p = mod.GraphPolicy(list(acts), m.observations, [[None if varied is None else 0] * no] * 2, w.array(vals), init=1)
    r = mod.GraphPolicyBeliefRunner(p, m)
    bel = flat(m.start)
    if not line and w.flag('reset'):
        b = w.prob_vector('b', ns)
        r.reset(belief=b)
        bel = flat(b)
    cur = int(r.current)
    t = r.trajectory_tree(horizon)
    check_tree(w, m, acts, vals, t, bel, horizon)
    w.check_all_eq(flat(r.current_belief), bel, 'building a tree leaves the belief')
    w.check(int(r.current) == cur, 'building a tree leaves the node')


def forest(w, ns, horizon, to_file, line=False):
    mod = w.load(POMDP_MOD)
    m = (Line if line else Abstract)(w, mod, ns, 2, 1)
    if ns == 2 and not line:
        p, acts, vals = policy(w, mod, 2, ns, m.actions, m.observations)
    else:
        vals = [[float(i == j) for j in range(ns)] for i in range(2)]
        acts = ['a1', 'a0']
        p = mod.GraphPolicy(list(acts), m.observations, [[0]] * 2, w.array(vals), init=1)
    r = mod.GraphPolicyBeliefRunner(p, m)
    support = [s for s, x in enumerate(flat(m.start)) if x > 0]
    if to_file:
        path = w.tmpdir() + '/trees.json'
        r.save_trajectories_from_starts(path, **({} if horizon == 5 else {'horizon': horizon}))
        with open(path) as f:
            res = (w.loader.stubs.get('json') or json).load(f)
    else:
        res = r.trajectory_trees_from_starts(horizon=horizon) if horizon != 5 else r.trajectory_trees_from_starts()
    w.check(set(res) == {'graphs'} and len(res['graphs']) == len(support),
            'one tree per possible start state',
            info='%d trees for %d start states' % (len(res.get('graphs', [])), len(support)))
    for s, t in zip(support, res['graphs']):
        check_tree(w, m, acts, vals, t, [1. if k == s else 0. for k in range(ns)], horizon)


F = ['runs start at the given belief', 'belief is the exact posterior',
     'impossible observations are reported', 'impossible step leaves the belief',
     'impossible only if the observation has probability zero']
S = ['belief is what the model computes', 'node is value-maximising for the belief',
     'impossible exactly when the model says so', 'impossible step leaves the belief']
T = ['tree nodes hold the belief', 'tree nodes are value-maximising', 'trees list the possible observations',
     'building a tree leaves the belief']


def instances(tier):
    th = tier == 'thorough'
    out = []
    for ns, na, no, st in [(2, 2, 2, 1), (2, 1, 2, 2)] + ([(3, 2, 2, 1), (2, 2, 2, 2)] if th else []):
        out.append(Inst('follow-%dx%dx%d-%d' % (ns, na, no, st), follow, F, ns=ns, na=na, no=no, steps=st))
    for ns, no, st in [(2, 2, 2), (3, 1, 2)] + ([(3, 2, 2), (2, 2, 3)] if th else []):
        out.append(Inst('abstract-steps-%dx%d-%d' % (ns, no, st), steps, S, ns=ns, no=no, n=st))
    for ns, no, h, v in [(2, 2, 0, True), (2, 2, 1, True), (2, 1, 2, True), (2, 2, 2, False), (2, 1, 3, False)] + (
            [(2, 3, 1, True), (2, 2, 2, True), (3, 3, 2, False)] if th else []):
        out.append(Inst('abstract-tree-%dx%d-%d%s' % (ns, no, h, '-values' if v else ''), trees, T, ns=ns,
                        no=no, horizon=h, varied=v))
    for ns in (2, 3):
        for f in (True, False):
            out.append(Inst('abstract-forest-%d-%s' % (ns, 'file' if f else 'dict'), forest,
                            ['one tree per possible start state'], ns=ns, horizon=1, to_file=f))
    out.append(Inst('abstract-tree-no-graph', trees, T, ns=2, no=2, horizon=1, varied=None))
    out.append(Inst('line-tree-3', trees, T[2:], ns=2, no=2, horizon=3, varied=False, line=True))
    out.append(Inst('line-tree-5', trees, T[2:], ns=2, no=1, horizon=5, varied=False, line=True))
    if th:
        out.append(Inst('line-tree-4', trees, T[2:], ns=2, no=2, horizon=4, varied=False, line=True))
    for f in (True, False):
        out.append(Inst('default-forest-%s' % f, forest, ['one tree per possible start state'], ns=2, horizon=5,
                        to_file=f, line=True))
    return out
