"""One episode of the Monte-Carlo search."""
from symex import engine as E

from .common import Inst, flat
from .search import MCP_MOD, Fake, nodes, stats, updated

BOUNDS = ('every sequence of up to 3 (thorough 4) episodes on a simulator with 2 actions and 2 '
          'observations whose rewards, observations and discount are unknown, horizons 0 to 3 (first episodes also 5), 1 or 2 '
          'rollouts, forgetting 0 or unknown, episodes started at the root or at deeper nodes, with a '
          'given first action or not; array and particle beliefs, and belief-keyed trees with arbitrary '
          'coincidences of beliefs; the law of the value of a new node for any belief of two states.')
ASSUMPTIONS = ['the simulator is an arbitrary function of its call number; beliefs are arbitrary '
               'distinct vectors (their values are P01 and B01)']


def close(w, x, y):
    return w.eq(x, y)


def same(x, y):
    """The very state a call returned."""
    return isinstance(x, int) and type(x) is not E.SymInt and int(x) == int(y)


def episode(w, t, m, node, action, alpha, horizon, rollouts, tag, draws, shared=False, failing=None):
    """Runs one episode and compares the statistics with the reference."""
    before = stats(t)
    links = {i: (list(n.children.items()) if isinstance(n.children, dict) else list(enumerate(n.children)))
             for i, (p, n) in nodes(t).items()}
    n0, d0 = len(m.calls), len(draws)
    belief0 = flat(node.belief.array)
    t.simulate_from_node(node, action=action)
    calls = m.calls[n0:]
    after = stats(t)
    # 1. the tree phase: follow the simulated steps down to the first missing node
    path = []
    cur, h, k = node, horizon, 0
    fresh = None
    while h > 0:
        w.check(k < len(calls), 'an episode goes on until the horizon')
        a, s, ns, o, r = calls[k]
        if k == 0 and action is not None:
            w.check(int(a) == action, 'the episode starts with the requested action')
        if k > 0:
            w.check(same(s, calls[k - 1][2]), 'each step starts where the previous one ended')
        act = cur.children[int(a)]
        w.check(act is not None, 'actions taken get a node')
        nxt = act.children.get(o)
        known = dict(links.get(id(act), [])).get(o) is not None
        path.append((cur, act, r))
        k += 1
        h -= 1
        if not known:
            fresh = (nxt, act, a, o)
            break
        cur = nxt
    # the first state is a particle of the belief of the node
    if horizon > 0 and draws[d0:] and draws[d0][0] == 'index' and draws[d0][2] is not None:
        w.check_all_eq(draws[d0][2], belief0, 'the first state is drawn from the belief of the node')
        w.check(w.eq(draws[d0][3], calls[0][1]), 'the episode starts from the state drawn')
    # 2. the rollouts
    expected = {i: [v[1], v[2]] for i, v in before.items()}
    ups = []
    if fresh is not None and fresh[0] is not None:
        new, act, a, o = fresh
        if not shared:
            w.check(id(new) not in before, 'the new node is new')
        want = m.beliefs.get((int(a), int(o), tuple(str(x) for x in flat(path[-1][0].belief.array))))
        if want is not None:
            w.check_all_eq(flat(new.belief.array), flat(want), 'the new node has the posterior belief')
        else:
            w.check(m.particle, 'the new node has the posterior belief')
        total = 0
        k += m.skip(n0 + k)
        if h > 0:
            for j in range(rollouts):
                disc, last = 1, None
                for i in range(h):
                    w.check(k < len(calls), 'rollouts go on until the horizon')
                    a, s, ns, o, r = calls[k]
                    if last is not None:
                        w.check(same(s, last), 'each step of a rollout starts where the previous one ended')
                    else:
                        w.check(not isinstance(s, int) or s < m.token or m.particle,
                                'rollouts start from a state drawn from the new belief')
                    last = ns
                    total = total + disc * r
                    disc = disc * m.discount
                    k += 1
            partial = total / rollouts
            ups.append((new, partial))
        else:
            partial = 0
            if shared and id(new) in before and not w.eq(before[id(new)][2], 0) is True:
                w.assume(w.eq(before[id(new)][2], 0))
    elif fresh is not None:
        w.check(bool(failing), 'a node is added for a new observation')
        k += m.skip(n0 + k)
        partial = 0
    else:
        partial = before[id(cur)][2]
    w.check(k == len(calls), 'the simulator is not called past the horizon')
    for obs_node, act, r in reversed(path):
        partial = r + m.discount * partial
        ups.append((act, partial))
        ups.append((obs_node, partial))
    for n, ret in ups:
        c, v = expected.get(id(n), (0, 0))
        expected[id(n)] = list(updated(c, v, alpha, ret))
    # 3. comparison with the tree after the episode
    created = [i for i in after if i not in before]
    allowed = {id(x[1]) for x in path} | ({id(fresh[0])} if fresh is not None else set())
    w.check(all(i in allowed for i in created), 'nothing but the nodes of the episode is added')
    obs_created = [i for i in created if not isinstance(after[i][0].children, dict)]
    w.check(len(obs_created) <= 1, 'at most one observation node is added')
    w.check(all(i in after for i in before), 'no node is lost')
    touched = {id(n) for n, _ in ups}
    for i, (n, c, v) in after.items():
        e = expected.get(i, (0, 0))
        where = 'of the nodes of the episode' if i in touched else 'of other nodes'
        w.check(c == e[0], 'visit counts ' + where, info='%s: %s visits, expected %s' % (tag, c, e[0]))
        w.check(close(w, v, e[1]), 'values ' + where, info=tag)
    for i, l in links.items():
        n = after[i][0]
        now = dict(n.children.items() if isinstance(n.children, dict) else enumerate(n.children))
        w.check(all(now.get(x) is c for x, c in l if c is not None), 'existing children stay')


def setup(w, horizon, rollouts, belief='array', alpha=0, shared=False, ns=2, particles=2):
    mod = w.load(MCP_MOD)
    m = Fake(w, 2, 2, ns=40 if belief == 'particle' else ns, discount=None)
    m.particle = belief == 'particle'
    if m.particle:
        m.token = 5
    m.skip = lambda i: 0
    al = w.real('alpha', 0, 1) if alpha is None else alpha
    draws = w.draw_log
    cls = mod._ObservationLookupSearchTree if shared else mod._SearchTree
    kw = {}
    if belief == 'particle':
        kw['belief_params'] = {'n_particles': particles}
    t = cls(m, mod.NTransitionsHorizon.generator(m, n=horizon), 0., rollout_it=rollouts, belief=belief,
            node_params={'alpha': al}, **kw)
    return mod, m, t, al, draws


def episodes(w, n, horizon, rollouts, alpha=0, forced=False):
    mod, m, t, al, draws = setup(w, horizon, rollouts, alpha=alpha)
    for k in range(n):
        action = None
        if forced and w.flag('forced%d' % k):
            action = w.int('first%d' % k, 0, 1).__index__()
        episode(w, t, m, t.root, action, al, horizon, rollouts, 'episode %d' % k, draws)


def rollout_law(w, rollouts, horizon):
    """Every rollout starts from a state drawn anew from the belief of the new node."""
    mod = w.load(MCP_MOD)
    p, g = w.real('p', 0, 1), w.real('gamma', 0, 1)
    rew = [w.real('r0', -10, 10), w.real('r1', -10, 10)]
    post = w.array([p, 1 - p])

    class Model(object):
        n_actions, n_states, n_observations = 1, 2, 1
        actions, observations, states = ['a'], ['o'], ['x', 'y']
        start = w.array([1., 0.])
        discount = g

        def sample_transition(self, a, s):
            return s, 0, rew[int(s)]

        def belief_update(self, a, o, b):
            return post

    def run():
        t = mod._SearchTree(Model(), mod.NTransitionsHorizon.generator(None, n=horizon + 1), 0.,
                            rollout_it=rollouts, node_params={'alpha': 0})
        t.simulate_from_node(t.root)
        return t.root.children[0].children[0].value
    scale = sum(g ** i for i in range(horizon)) if horizon > 1 else 1
    m1, m2 = 0, 0
    for wt, v in w.law(run):
        m1, m2 = m1 + wt * v, m2 + wt * v * v
    # moments of the mean of independent returns
    x, y = rew[0] * scale, rew[1] * scale
    mean, square = p * x + (1 - p) * y, p * x * x + (1 - p) * y * y
    n = rollouts
    w.check(w.eq(m1, mean), 'rollouts start from the new belief (mean)')
    w.check(w.eq(m2 * n * n, square * n + mean * mean * (n * (n - 1))), 'rollouts are independent of each other')


def prepared(w, horizon, rollouts, n=1):
    """Episodes in a tree all of whose first actions are explored."""
    mod, m, t, al, draws = setup(w, horizon, rollouts)
    for a in range(2):
        episode(w, t, m, t.root, a, al, horizon, rollouts, 'first', draws)
    for k in range(n):
        episode(w, t, m, t.root, None, al, horizon, rollouts, 'next', draws)


def deeper(w, horizon, n, both=False):
    """Episodes from the node of an executed history, then from the root."""
    mod, m, t, al, draws = setup(w, horizon, 1)
    a, o = w.int('ha', 0, 1).__index__(), w.int('ho', 0, 1).__index__()
    if not both and w.flag('warm'):
        episode(w, t, m, t.root, a, al, horizon, 1, 'root', draws)
    node = t.get_node([a, o])
    for k in range(n):
        episode(w, t, m, node, k if both else None, al, horizon, 1, 'deeper', draws)
    episode(w, t, m, t.root, a, al, horizon, 1, 'root again', draws)


def lookup(w, horizon, n):
    """Belief-keyed tree in which beliefs coincide in any way."""
    mod, m, t, al, draws = setup(w, horizon, 1, shared=True)
    pool = [[0.5, 0.5], [0.25, 0.75], [1., 0.]]
    real = m.belief_update

    def update(a, o, b):
        k = (int(a), int(o), tuple(str(x) for x in flat(b)))
        if k not in m.beliefs:
            m.beliefs[k] = w.array(w.pick('belief%d' % len(m.beliefs), pool))
        return m.beliefs[k]
    m.belief_update = update
    for k in range(n):
        episode(w, t, m, t.root, w.int('first%d' % k, 0, 1).__index__(), al, horizon, 1, 'lookup', draws,
                shared=True)


def particle(w, horizon, n, particles):
    """Particle beliefs: updating one consumes further simulator calls, and may fail."""
    mod, m, t, al, draws = setup(w, horizon, 1, belief='particle', particles=particles)
    bel = w.load('task_models.lib.belief')
    used = {}
    cls = type(t.root.belief)
    real = cls.successor

    def successor(self, model, a, o):
        k0 = len(m.calls)
        if w.flag('fail%d' % len(used)):
            used[k0] = 0
            raise bel.MaxSamplesReached(a, o, self)
        r = real(self, model, a, o)
        used[k0] = len(m.calls) - k0
        return r
    cls.successor = successor
    m.skip = lambda i: used.get(i, 0)
    state = {'phase': False}

    def fix_obs(k, a, s):
        # inside an update every simulated step gives the wanted observation
        return w.int('o%d' % k, 0, 1).__index__() if not m.updating else m.updating[-1]
    m.updating = []
    inner = cls.successor

    def outer(self, model, a, o):
        m.updating.append(o)
        try:
            return inner(self, model, a, o)
        finally:
            m.updating.pop()
    cls.successor = outer
    m.fix_obs = fix_obs
    for k in range(n):
        episode(w, t, m, t.root, w.int('first%d' % k, 0, 1).__index__(), al, horizon, 1, 'particle',
                draws, failing=True)


LAB = ['visit counts of the nodes of the episode', 'values of the nodes of the episode',
       'visit counts of other nodes', 'values of other nodes',
       'the simulator is not called past the horizon', 'the new node has the posterior belief']


def instances(tier):
    th = tier == 'thorough'
    out = [Inst('horizon-0', episodes, [], n=2, horizon=0, rollouts=1)]
    for h, r, n in ((1, 1, 3), (2, 1, 2), (2, 2, 2), (3, 1, 2), (5, 1, 1), (2, 5, 1)):
        out.append(Inst('episodes-h%d-r%d' % (h, r), episodes, LAB[:2] + LAB[4:], n=n, horizon=h, rollouts=r))
    for r, h in [(1, 1), (2, 1), (3, 1), (2, 2)] + ([(3, 2), (5, 1)] if th else []):
        out.append(Inst('rollout-law-%d-%d' % (r, h), rollout_law,
                        ['rollouts start from the new belief (mean)', 'rollouts are independent of each other'],
                        rollouts=r, horizon=h))
    out.append(Inst('forced', episodes, LAB, n=2, horizon=2, rollouts=1, forced=True))
    out.append(Inst('forgetting-1', episodes, LAB[:2] + LAB[4:], n=2, horizon=2, rollouts=1, alpha=None))
    out.append(Inst('forgetting-.5', episodes, LAB[:2] + LAB[4:], n=3, horizon=1, rollouts=1, alpha=.5))
    out.append(Inst('explored-h2', prepared, LAB, horizon=2, rollouts=1, n=1))
    out.append(Inst('explored-h1', prepared, LAB, horizon=1, rollouts=1, n=2))
    out.append(Inst('deeper', deeper, LAB, horizon=2, n=1))
    out.append(Inst('deeper-both', deeper, LAB, horizon=2, n=2, both=True))
    out.append(Inst('particle-h1', particle, LAB, horizon=1, n=2, particles=1))
    out.append(Inst('lookup', lookup, LAB, horizon=2, n=2))
    out.append(Inst('particle', particle, LAB[:2] + LAB[4:], horizon=2, n=1, particles=1))
    if th:
        out.append(Inst('episodes-h2-4', episodes, LAB, n=4, horizon=2, rollouts=1))
        out.append(Inst('explored-h3', prepared, LAB, horizon=3, rollouts=1, n=1))
        out.append(Inst('forced-3', episodes, LAB, n=3, horizon=2, rollouts=1, forced=True))
        out.append(Inst('deeper-2', deeper, LAB, horizon=2, n=2))
        out.append(Inst('particle-2', particle, LAB, horizon=2, n=2, particles=2))
        out.append(Inst('deeper-h3', deeper, LAB, horizon=3, n=2))
        out.append(Inst('lookup-3', lookup, LAB, horizon=2, n=3))
    return out
