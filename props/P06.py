"""Execution of graph policies."""
from .common import Inst, POMDP_MOD, flat, names

BOUNDS = ('node choice: every value table and belief with up to 3 nodes x 3 states (thorough 4x3). '
          'Walks: every graph with 2x2, 3x1 and 2x1 nodes x observations (thorough 3x2, 4x1), missing '
          'successors included, every initial node and every sequence of 2 to 4 observations; 12 nodes '
          'and 11 observations with one unknown row.')
ASSUMPTIONS = ['beliefs are exact probability vectors']


def best(w, vals, b, i, label):
    """Node i has the largest value for belief b."""
    score = [sum(v * p for v, p in zip(row, b)) for row in vals]
    for k in range(len(vals)):
        w.check(w.le(score[k], score[i]), label, info='node %d instead of %d' % (i, k))


def choose(w, nn, ns, given):
    """Initial and reset nodes."""
    mod = w.load(POMDP_MOD)
    actions = names('a', nn)
    V = w.real_array('v', (nn, ns))
    vals = [list(flat(r)) for r in V]
    start = w.prob_vector('start', ns)
    kw = dict(init=w.int('init', 0, nn - 1).__index__()) if given else {}
    p = mod.GraphPolicy(list(actions), ['o'], [[k] for k in range(nn)], V, start=start, **kw)
    init = int(p.init)
    if given:
        w.check(init == kw['init'], 'the given initial node is used')
    else:
        best(w, vals, flat(start), init, 'initial node has maximal value')
    r = mod.GraphPolicyRunner(p)
    w.check(int(r.current) == init, 'runs start at the initial node')
    if w.symbolic and not given:
        return
    b = w.prob_vector('belief', ns)
    r.reset(belief=b)
    best(w, vals, flat(b), int(r.current), 'reset node has maximal value')
    w.check(r.get_action() == actions[int(r.current)], 'action of the current node')
    w.check(int(p.init) == init, 'running leaves the policy alone')
    r.reset()
    w.check(int(r.current) == init, 'reset returns to the initial node')


def wide(w, nn, given):
    """Many nodes, one of them with unknown values."""
    mod = w.load(POMDP_MOD)
    actions = names('a', nn)
    rows = [[((i * 5) % 7) / 4., ((i * 3 + 2) % 11) / 8.] for i in range(nn)]
    k = w.pick('node', [0, 9, 10, nn - 1])
    rows[k] = [w.real('x'), w.real('y')]
    start = w.prob_vector('start', 2)
    kw = dict(init=w.int('init', 0, nn - 1).__index__()) if given else {}
    p = mod.GraphPolicy(list(actions), ['o'], [[i] for i in range(nn)], w.array([list(r) for r in rows]), start=start, **kw)
    if given:
        w.check(int(p.init) == kw['init'], 'the given initial node is used')
        r = mod.GraphPolicyRunner(p)
        w.check(r.get_action() == actions[kw['init']], 'action of the current node')
        r.reset(belief=w.array([1., 0.]))
        best(w, rows, [1., 0.], int(r.current), 'reset node has maximal value')
    else:
        best(w, rows, flat(start), int(p.init), 'initial node has maximal value')


def walk(w, nn, no, steps, big=False):
    mod = w.load(POMDP_MOD)
    acts = ['go', 'stay', 'wait', 'back']
    actions = [acts[i % 4] for i in range(nn)]
    obs = names('o', no)
    if big:
        # one unknown row in a fixed graph
        tr = [[None if (i + j) % 7 == 3 else (i * 5 + j * 3 + 1) % nn for j in range(no)] for i in range(nn)]
        tr[nn - 2] = [None if j < 1 and w.flag('none%d' % j) else w.int('next%d' % j, 0, nn - 1) if j > no - 3 else (j * 4) % nn
                      for j in range(no)]
    else:
        tr = [[None if w.flag('none%d_%d' % (i, j)) else w.int('next%d_%d' % (i, j), 0, nn - 1)
               for j in range(no)] for i in range(nn)]
    V = w.array([[float(i), 1.] for i in range(nn)])
    init = w.pick('init', [0, nn - 2]) if big else w.int('init', 0, nn - 1).__index__()
    p = mod.GraphPolicy(list(actions), list(obs), [list(x) for x in tr], V, init=init)
    r = mod.GraphPolicyRunner(p)
    cur = init
    for t in range(steps):
        w.check(r.get_action() == actions[cur], 'action of the current node')
        o = w.pick('obs%d' % t, [0, 1, no - 2, no - 1]) if big else w.int('obs%d' % t, 0, no - 1).__index__()
        nxt = tr[cur][o]
        try:
            r.step(obs[o])
        except mod.Impossible:
            w.check(nxt is None, 'impossible exactly when no successor is listed')
            break
        w.check(nxt is not None, 'impossible exactly when no successor is listed')
        nxt = nxt.__index__()
        w.check(int(r.current) == nxt, 'successor listed for node and observation')
        cur = nxt
    else:
        w.check(r.get_action() == actions[cur], 'action of the current node')
    w.check(int(p.init) == init, 'running leaves the policy alone')
    r.reset()
    w.check(int(r.current) == init, 'reset returns to the initial node')
    w.check(r.get_action() == actions[init], 'action of the current node')


W = ['action of the current node', 'impossible exactly when no successor is listed',
     'successor listed for node and observation', 'reset returns to the initial node']


def instances(tier):
    out = []
    th = tier == 'thorough'
    for nn, ns in [(1, 2), (2, 1), (2, 2), (3, 2), (3, 3)] + ([(4, 2), (4, 3)] if th else []):
        for given in (True, False):
            out.append(Inst('choose-%dx%d-%s' % (nn, ns, 'init' if given else 'start'), choose,
                            ['the given initial node is used', 'reset node has maximal value',
                             'reset returns to the initial node'] if given else
                            ['initial node has maximal value'], nn=nn, ns=ns, given=given))
    for nn, no, st in [(2, 2, 2), (3, 1, 3), (1, 2, 2), (2, 1, 4), (1, 3, 2), (2, 3, 1)] + (
            [(2, 2, 3), (3, 2, 2), (4, 1, 4)] if th else []):
        out.append(Inst('walk-%dx%d-%d' % (nn, no, st), walk, W, nn=nn, no=no, steps=st))
    out.append(Inst('walk-12x11-2', walk, W, nn=12, no=11, steps=2, big=True))
    for given in (True, False):
        out.append(Inst('choose-12-%s' % ('init' if given else 'start'), wide,
                        ['the given initial node is used'] if given else ['initial node has maximal value'], nn=12, given=given))
    return out
