"""Export of search trees."""
import json
import math

import numpy as np

from .common import Inst, flat
from .search import MCP_MOD, Fake

BOUNDS = ('every tree built by up to 3 (thorough 4) search episodes of 1 or 2 transitions with unknown '
          'rewards and observations (2 or 3 actions, 1 to 3 observations; 12 actions and 11 observations for 2 episodes), plus nodes created by lookup and '
          'never visited; value, policy and quotient-belief exports; belief-keyed trees in which '
          'beliefs coincide in any way.')
ASSUMPTIONS = ['the shape of the exported dictionary is the one the visualisation reads: "observed" is a '
               'position in the list of observations of the parent']


class Quotient(object):
    """State codec of a supportive model of two nodes (one state each)."""

    def belief_quotient(self, array):
        w = Quotient.w
        a = flat(array)
        w.check(len(a) == 2, 'the belief quotient gets the belief')
        return w.array([a[1], a[0]])


def build(w, episodes, horizon, nobs=2, shared=False, alpha=0, na=2):
    mod = w.load(MCP_MOD)
    m = Fake(w, na, nobs, discount=.5)
    m._int_to_state = lambda s=0: Quotient()
    Quotient.w = w
    if nobs > 9:
        m.fix_obs = lambda k, a, s: w.pick('o%d' % k, [2, 9, 10][:3 - k])
    m.htm_names = ['n1', 'n0']
    if shared:
        pool = [[.5, .5], [.25, .75]]

        def update(a, o, b):
            k = (int(a), int(o), tuple(str(x) for x in flat(b)))
            if k not in m.beliefs:
                m.beliefs[k] = w.array(w.pick('belief%d' % len(m.beliefs), pool))
            return m.beliefs[k]
        m.belief_update = update
    p = mod.POMCPPolicyRunner(m, horizon=horizon, iterations=2, exploration=0, belief_values=shared,
                              logger=lambda *a: None)
    for k in range(episodes):
        if horizon == 2:      # rewards of deeper steps do not matter for the export
            a = k % 2 if k < 2 else w.int('first%d' % k, 0, 1).__index__()
            p.tree.simulate_from_node(p.tree.root, action=a)
        else:
            p.tree.simulate_from_node(p.tree.root, **({} if na == 2 else dict(
                action=w.int('first%d' % k, 0, na - 1).__index__() if na < 9 else
                w.pick('first%d' % k, [2, 10, 11][k:]))))
    what = w.pick('lookup', [None, 'action', 'observation']) if na < 9 and nobs < 9 else None
    if what == 'action':
        p.tree.root.safe_get_child(w.int('bare', 0, na - 1).__index__())
    elif what == 'observation':
        p.tree.get_node([w.int('ga', 0, na - 1).__index__(), w.int('go', 0, nobs - 1).__index__()])
    return mod, m, p


def text(w, mod, d):
    """Through strict JSON."""
    js = w.loader.stubs.get('json', json) if w.symbolic else json
    t = js.dumps(d, allow_nan=False)

    def refuse(x):
        raise ValueError(x)
    w.check(True, 'the export is strict JSON')
    return js.loads(t, parse_constant=refuse)


def number(w, got, want, label):
    if want is None:
        w.check(got is None, label, info=repr(got))
    else:
        w.check(got is not None and w.eq(got, want), label, info='%r instead of %r' % (got, want))


def compare_values(w, m, node, d, seen=None):
    number(w, d['value'], node.value, 'exported values are those of the nodes')
    w.check(d['visits'] == node.n_simulations, 'exported visit counts are those of the nodes')
    if isinstance(node.children, dict):
        names = [m.observations[int(o)] for o in node.children]
        w.check(list(d['observations']) == names and len(d['children']) == len(names),
                'observations are named in the order of the children')
        for c, x in zip(d['children'], node.children.values()):
            compare_values(w, m, x, c, seen)
        return
    w.check_all_eq(d['belief'], flat(node.belief.array), 'exported beliefs are those of the nodes')
    known = [(m.actions[i], c) for i, c in enumerate(node.children) if c is not None]
    if seen is not None:
        if id(node) in seen:
            w.check(d['children'] == [] and d['actions'] == [], 'shared nodes are expanded once')
            return
        seen.add(id(node))
    w.check(list(d['actions']) == [a for a, _ in known] and len(d['children']) == len(known),
            'actions are named in the order of the children')
    for c, (a, x) in zip(d['children'], known):
        compare_values(w, m, x, c, seen)


def values(w, **kw):
    mod, m, p = build(w, **kw)
    d = text(w, mod, p.tree.to_dict() if w.flag('tree') else
             p.trajectory_trees_from_starts(qvalue=True)['graphs'][0])
    compare_values(w, m, p.tree.root, d, set() if kw.get('shared') else None)


def explored(node):
    return [i for i, c in enumerate(node.children) if c is not None and c.n_simulations > 0]


def compare_policy(w, m, node, d, quotient=False, seen=None, position=None):
    number(w, d['value'], node.value, 'exported values are those of the nodes')
    w.check(d['visits'] == node.n_simulations, 'exported visit counts are those of the nodes')
    b = flat(node.belief.array)
    w.check_all_eq(d['belief'], [b[1], b[0]] if quotient else b, 'exported beliefs are those of the nodes')
    w.check(d['observed'] == position, 'children are labelled by their position')
    ex = explored(node)
    w.check(d['action'] in m.actions, 'the exported action is named')
    a = m.actions.index(d['action'])
    if len(ex) == m.n_actions:
        w.check_conj([w.le(c.value, node.children[a].value) for c in node.children],
                     'the exported action is the best one')
    else:
        w.check(a not in ex, 'the exported action is the one the planner would try')
    n = node.n_simulations
    for i in range(m.n_actions):
        c = node.children[i]
        k = c.n_simulations if c is not None else 0
        w.check(d['child_visits'][i] == k, 'exported visit counts are those of the nodes')
        number(w, d['values'][i], c.value if k else None, 'exported values are those of the actions')
        e = d['exploration_terms'][i]
        w.check(e is None if not k else e is not None and abs(e - math.sqrt(math.log(n) / k)) < 1e-9,
                'exported exploration terms', info=repr(e))
    w.check(len(d['values']) == len(d['child_visits']) == len(d['exploration_terms']) == m.n_actions,
            'one value per action')
    if seen is not None:
        if id(node) in seen:
            w.check(not d.get('children'), 'shared nodes are expanded once')
            return
        seen.add(id(node))
    ch = node.children[a].children if node.children[a] is not None else {}
    w.check(list(d['observations']) == [m.observations[int(o)] for o in ch] and
            len(d['children']) == len(ch), 'observations are named in the order of the children')
    for i, (c, x) in enumerate(zip(d['children'], ch.values())):
        compare_policy(w, m, x, c, quotient, seen, i)


def exported(w, p, mod, quotient):
    path = w.tmpdir() + '/tree.json'
    if quotient is None:
        mod.export_pomcp(p, path)
    else:
        mod.export_pomcp(p, path, belief_as_quotient=quotient)
    js = w.loader.stubs.get('json', json) if w.symbolic else json

    def refuse(x):
        raise ValueError(x)
    with open(path) as f:
        return js.loads(f.read(), parse_constant=refuse)


def policies(w, mode, **kw):
    mod, m, p = build(w, **kw)
    if mode == 'tree':
        d = text(w, mod, p.tree.to_dict(as_policy=True))
    elif mode == 'runner':
        g = p.trajectory_trees_from_starts()['graphs']
        w.check(len(g) == 1, 'one graph')
        d = text(w, mod, g[0])
    else:
        d = exported(w, p, mod, mode == 'quotient')
        w.check(list(d['actions']) == m.actions and
                list(d['states']) == (m.htm_names if mode == 'quotient' else m.states) and
                d['exploration'] == 0 and d['relative_exploration'] is False and len(d['graphs']) == 1,
                'names and constants are exported')
        d = d['graphs'][0]
    compare_policy(w, m, p.tree.root, d, mode == 'quotient', set() if kw.get('shared') else None)


def instances(tier):
    th = tier == 'thorough'
    out = []
    V = ['exported values are those of the nodes', 'actions are named in the order of the children',
         'observations are named in the order of the children', 'exported beliefs are those of the nodes']
    PL = ['exported values are those of the actions', 'the exported action is the best one',
          'children are labelled by their position', 'exported exploration terms']
    sizes = [(0, 1, 2), (1, 1, 3), (2, 1, 2), (2, 2, 2)] + ([(3, 1, 2)] if not th else
                                                           [(3, 1, 3), (4, 1, 2), (3, 2, 2)])
    for e, h, o in sizes:
        out.append(Inst('values-%d-%d-%d' % (e, h, o), values, V[:1] if e < 1 else V, episodes=e, horizon=h,
                        nobs=o))
        for mode in ('tree', 'runner', 'file', 'quotient'):
            if mode in ('runner', 'file') and (e, h) != (2, 1) or mode == 'quotient' and e > 2 and not th:
                continue
            out.append(Inst('%s-%d-%d-%d' % (mode, e, h, o), policies, PL[2:] if e < 2 else PL, mode=mode,
                            episodes=e, horizon=h, nobs=o))
    out.append(Inst('values-12x11', values, V, episodes=2, horizon=1, nobs=11, na=12))
    out.append(Inst('quotient-12x11', policies, PL[2:], mode='quotient', episodes=1, horizon=1, nobs=11, na=12))
    out.append(Inst('tree-2x11', policies, PL[2:], mode='tree', episodes=3, horizon=1, nobs=11))
    for mode in ('tree', 'quotient'):
        out.append(Inst('%s-three-actions' % mode, policies, PL[2:], mode=mode, episodes=2 if th else 1, horizon=1,
                        nobs=1, na=3))
    out.append(Inst('values-shared', values, V, episodes=2, horizon=2, shared=True))
    out.append(Inst('policy-shared', policies, PL, mode='tree', episodes=2, horizon=2, shared=True))
    return out
