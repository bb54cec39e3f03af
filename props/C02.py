"""Choice of the next action in the search tree."""
import math

from .common import Inst
from .search import MCP_MOD, Fake

BOUNDS = ('every value of 1 to 3 (thorough 4) actions and every exploration constant in [0, 1000], '
          'absolute or relative, visit counts from {missing, 1} for 5 actions and from {missing, 0, 1, 2, 7} per action and 0 or 3 more '
          'visits of the node; 12 actions of which one has an unknown value; selection inside a search episode after 2 to 4 episodes with unknown rewards.')
ASSUMPTIONS = ['logarithms and square roots of the (concrete) visit counts are compared with a '
               'tolerance of 1e-9']


def build(w, na, counts, extra):
    """A node with the given visits of each action."""
    mod = w.load(MCP_MOD)
    bel = w.load('task_models.lib.belief')
    node = mod._SearchObservationNode(bel.ArrayBelief(w.array([1.])), na, alpha=0)
    cs, vs = [], []
    for i in range(na):
        c = w.pick('count%d' % i, counts)
        cs.append(c)
        v = w.real('v%d' % i, -1000, 1000)
        vs.append(v)
        if c is None:
            continue
        child = node.safe_get_child(i)
        for k in range(c):
            child.update(v)
            node.update(v)
    for k in range(w.pick('extra', extra)):
        node.update(w.real('more%d' % k))
    n = node.n_simulations
    return node, cs, vs, n


def scores(w, cs, vs, n, c, relative):
    if relative:
        hi, lo = vs[0], vs[0]
        for v in vs[1:]:
            hi = w.ite(v > hi, v, hi)
            lo = w.ite(v < lo, v, lo)
        c = c * (hi - lo)
    return [v + c * math.sqrt(math.log(n) / k) for v, k in zip(vs, cs)]


def maximal(w, a, sc, label):
    a = int(a)
    w.check_conj([w.le(x, sc[a] + 1e-8) for x in sc], label)


def select(w, na, counts, relative, extra=(0, 3), explore=True):
    node, cs, vs, n = build(w, na, counts, extra)
    unexplored = [i for i in range(na) if not cs[i]]
    c = w.real('c', 0, 1000) if explore else 0
    if explore:
        outcomes = w.law(lambda: node.get_best_action(exploration=c, relative_exploration=relative))
    else:
        outcomes = w.law(lambda: node.get_best_action())
    if unexplored:
        p = {}
        for wt, a in outcomes:
            p[int(a)] = p.get(int(a), 0) + wt
        w.check(set(p) <= set(unexplored), 'an unexplored action is chosen while there is one')
        w.check_conj([w.eq(p.get(i, 0) * len(unexplored), 1) for i in unexplored],
                     'unexplored actions are equally likely')
        return
    sc = scores(w, cs, vs, n, c, relative)
    for wt, a in outcomes:
        maximal(w, a, sc, 'the action maximises value plus exploration term' if explore
                else 'without exploration the action has the best value')


def in_tree(w, relative, n, na=2):
    """The choice made inside an episode uses the constants of the tree."""
    mod = w.load(MCP_MOD)
    m = Fake(w, na, 1, discount=1.)
    c = w.real('c', 0, 1000)
    t = mod._SearchTree(m, mod.NTransitionsHorizon.generator(m, n=1), c, relative_exploration=relative,
                        node_params={'alpha': 0})
    tot, cnt = [0] * na, [0] * na
    for k in range(n):
        t.simulate_from_node(t.root)
        a, s, ns, o, r = m.calls[-1]
        w.assume(w.conj([r <= 1000, -1000 <= r]))
        a = int(a)
        if any(x == 0 for x in cnt):
            w.check(cnt[a] == 0, 'episodes first explore every action')
        else:
            sc = scores(w, cnt, [x / y for x, y in zip(tot, cnt)], sum(cnt), c, relative)
            maximal(w, a, sc, 'episodes take the optimistic action')
        cnt[a] += 1
        tot[a] = tot[a] + r


def wide(w, relative, miss):
    """Many actions, one of them of unknown value or, with `miss`, unexplored."""
    mod = w.load(MCP_MOD)
    bel = w.load('task_models.lib.belief')
    na = 12
    node = mod._SearchObservationNode(bel.ArrayBelief(w.array([1.])), na, alpha=0)
    k = w.pick('action', [0, 9, 10, 11])
    cs = [1 + (5 * i) % 4 for i in range(na)]
    vs = [((i * 7) % 12) / 4. for i in range(na)]
    vs[k] = w.real('v', -1000, 1000)
    out = (set(range(na)) - {k} if w.flag('most') else {k, 3, 11}) if miss else set()
    for i in range(na):
        for _ in range(0 if i in out else cs[i]):
            node.safe_get_child(i).update(vs[i])
            node.update(vs[i])
    c = w.real('c', 0, 1000)
    p = {}
    for wt, a in w.law(lambda: node.get_best_action(exploration=c, relative_exploration=relative)):
        p[int(a)] = p.get(int(a), 0) + wt
    if miss:
        w.check(set(p) <= out, 'an unexplored action is chosen while there is one')
        w.check_conj([w.eq(p.get(i, 0) * len(out), 1) for i in out], 'unexplored actions are equally likely')
        return
    sc = scores(w, cs, vs, sum(cs), c, relative)
    for a in p:
        maximal(w, a, sc, 'the action maximises value plus exploration term')


def runner(w, relative, given):
    """Constants of the planner."""
    mod = w.load(MCP_MOD)
    m = Fake(w, 2, 1, discount=1.)
    c = w.real('c', 0, 1000)
    kw = dict(exploration=c) if given else {}
    p = mod.POMCPPolicyRunner(m, horizon=1, iterations=2, relative_exploration=relative,
                              logger=lambda *a: None, **kw)
    if not given:
        c = 1 if relative else 100
    al = .001                # documented default of the nodes
    p.get_action(iterations=4)
    w.check(len(m.calls) == 4, 'one simulator call per episode of horizon one')
    a0, a1 = [int(x[0]) for x in m.calls[:2]]
    w.check(a0 != a1, 'episodes first explore every action')
    v, n = [0, 0], [0, 0]
    for k, (a, s, ns, o, r) in enumerate(m.calls):
        w.assume(w.conj([r <= 100, -100 <= r]))
        a = int(a)
        if k > 1:
            maximal(w, a, scores(w, n, v, k, c, relative), 'episodes take the optimistic action')
        v[a] = (1 - al) * (v[a] * n[a] + r) / (n[a] + 1) + al * r
        n[a] += 1


def instances(tier):
    th = tier == 'thorough'
    out = []
    U = ['an unexplored action is chosen while there is one', 'unexplored actions are equally likely']
    M = ['the action maximises value plus exploration term']
    for na in (2, 3) + ((4,) if th else ()):
        out.append(Inst('unexplored-%d' % na, select, U, na=na, counts=(None, 0, 2), relative=False, extra=(0, 3)))
        out.append(Inst('unexplored-rel-%d' % na, select, U, na=na, counts=(None, 0, 1), relative=True,
                        extra=(0,)))
    out.append(Inst('unexplored-5', select, U, na=5, counts=(None, 1), relative=False, extra=(0,)))
    for rel in (False, True):
        t = 'rel' if rel else 'abs'
        for na in (1, 2) + ((3,) if not rel or th else ()):
            out.append(Inst('explored-%s-%d' % (t, na), select, M, na=na,
                            counts=(1, 2, 7) if na < 3 or th else (1, 7), relative=rel))
        if rel:
            out.append(Inst('explored-rel-3-small', select, M, na=3, counts=(1, 2), relative=True, extra=(0,)))
        out.append(Inst('tree-%s-%d' % (t, 3), in_tree, ['episodes take the optimistic action'],
                        relative=rel, n=5 if th else 4))
        for given in (False, True):
            out.append(Inst('runner-%s-%s' % (t, 'given' if given else 'default'), runner,
                            ['episodes take the optimistic action'], relative=rel, given=given))
    for rel in (False, True):
        out.append(Inst('wide-%s' % ('rel' if rel else 'abs'), wide, M, relative=rel, miss=False))
    out.append(Inst('wide-unexplored', wide, U, relative=False, miss=True))
    out.append(Inst('greedy-3', select, ['without exploration the action has the best value'], na=3,
                    counts=(1, 2, 7), relative=False, explore=False))
    return out
