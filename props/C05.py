"""The online planner follows the executed history."""
from .common import Inst, flat
from .search import MCP_MOD, Fake, updated

BOUNDS = ('every history of up to 2 (thorough 3) actions of the planner, each followed by a known '
          'observation, an unknown one, an observation whose belief update fails, no step or a reset, '
          '4 steps (thorough 5) with one action; on simulators with 2 actions and 2 observations and unknown rewards, 2 or 3 episodes of one '
          'transition per action; two histories of 2 steps (thorough also 3 and 2, or three histories) without search, with a reset between; array, particle (1 particle) and belief-keyed planners.')
ASSUMPTIONS = ['estimates of nodes after longer episodes are C03']


class Reference(object):

    def __init__(self, m):
        self.m = m
        self.history = []
        self.acted = None
        self.stats = {}
        self.belief = {(): flat(m.start)}

    def node(self):
        return tuple(self.history)


def act(w, p, m, ref, iterations, given, draws, alpha=.001, check_draw=True):
    k0, d0 = len(m.calls), len(draws)
    name = p.get_action(iterations=iterations) if given else p.get_action()
    calls = m.calls[k0:]
    w.check(len(calls) == iterations, 'the requested number of episodes is run')
    st = ref.stats.setdefault(ref.node(), {})
    dd = [d for d in draws[d0:] if d[0] == 'index' and d[2] is not None]
    for k, (a, s, ns, o, r) in enumerate(calls):
        st[int(a)] = updated(*(st.get(int(a), (0, 0)) + (alpha, r)))
    if check_draw and len(dd) == iterations:
        for d, c in zip(dd, calls):
            w.check_all_eq(d[2], ref.belief[ref.node()], 'episodes start from the belief of the history')
            w.check(w.eq(d[3], c[1]), 'episodes start from the belief of the history')
    w.check(name in m.actions, 'the action returned is named')
    i = m.actions.index(name)
    w.check(set(st) == set(range(m.n_actions)), 'every action is explored')
    w.check_conj([w.le(v, st[i][1]) for n, v in st.values()], 'the action returned has the best estimate', info='%s %s %s' % (ref.history, i, st))
    ref.acted = i


def consistent(w, p, ref):
    w.check([int(x) for x in p.history] == ref.history, 'the history lists actions and observations')
    w.check_all_eq(flat(p.belief.array), ref.belief[ref.node()], 'the belief is the posterior of the history')


def observe(w, p, m, ref, o):
    """A step that succeeds."""
    b = ref.belief[ref.node()]
    p.step(m.observations[o])
    ref.history = ref.history + [ref.acted, o]
    ref.belief[ref.node()] = flat(m.beliefs[(ref.acted, o, tuple(str(x) for x in b))])


def planner(w, m, exploration=0, **kw):
    mod = w.load(MCP_MOD)
    return mod, mod.POMCPPolicyRunner(m, horizon=1, exploration=exploration, logger=lambda *a: None, **kw)


def histories(w, length, iterations, lookup=False, extra_reset=False, exploration=0):
    mod = w.load(MCP_MOD)
    pom = w.load('task_models.lib.pomdp')
    m = Fake(w, 2, 2, discount=0.)
    m.fix_obs = lambda k, a, s: k % 2
    mod, p = planner(w, m, iterations=iterations, belief_values=lookup,
                     exploration=exploration)
    ref = Reference(m)
    consistent(w, p, ref)
    w.check(p.actions == m.actions and p.observations == m.observations, 'names are those of the model')
    for t in range(length):
        kind = w.pick('op%d' % t, ['act', 'step first', 'reset'] if length == 1 or extra_reset else ['act'])
        if kind == 'reset':
            p.reset()
            ref.history, ref.acted = [], None
            consistent(w, p, ref)
        if kind == 'step first':
            if ref.acted is None:
                w.expect_raises(ValueError, lambda: p.step(m.observations[0]), 'stepping before acting is refused')
                consistent(w, p, ref)
        act(w, p, m, ref, iterations, t == 1, w.draw_log)
        consistent(w, p, ref)
        kind = w.pick('step%d' % t, ['o0', 'o1', 'unknown', 'fails', 'none'])
        if kind == 'unknown':
            w.expect_raises(ValueError, lambda: p.step('no such observation'), 'unknown observations are refused')
        elif kind == 'fails':
            def fail(a, o, b):
                raise pom.Impossible('impossible')
            o = w.int('fails%d' % t, 0, 1).__index__()
            old, m.fail = m.fail, fail
            try:
                observe(w, p, m, ref, o)
                w.check(True, 'a failing update is reported')
            except pom.Impossible:
                w.check(True, 'a failing update is reported')
            finally:
                m.fail = old
        elif kind != 'none':
            observe(w, p, m, ref, int(kind[1]))
        consistent(w, p, ref)
    if (length == 1 or extra_reset) and w.flag('more'):
        act(w, p, m, ref, iterations, True, w.draw_log)
    p.reset()
    ref.history, ref.acted = [], None
    consistent(w, p, ref)
    w.expect_raises(ValueError, lambda: p.step(m.observations[0]), 'stepping before acting is refused')
    consistent(w, p, ref)


def back(w):
    """The same history again after a reset finds the same node and its statistics."""
    m = Fake(w, 2, 2, discount=0.)
    m.fix_obs = lambda k, a, s: 0
    mod, p = planner(w, m, iterations=2)
    ref = Reference(m)
    act(w, p, m, ref, 2, False, w.draw_log)
    o = w.int('obs', 0, 1).__index__()
    observe(w, p, m, ref, o)
    a0 = ref.history[0]
    act(w, p, m, ref, 2, False, w.draw_log)
    node = p.tree.get_node(p.history)
    p.reset()
    ref.history = []
    act(w, p, m, ref, 2, False, w.draw_log)
    observe(w, p, m, ref, w.int('obs again', 0, 1).__index__())
    consistent(w, p, ref)
    if ref.history == [a0, o]:
        w.check(p.tree.get_node(p.history) is node, 'the same history finds the same node')
    else:
        w.check(p.tree.get_node(p.history) is not node, 'other histories have other nodes')
    act(w, p, m, ref, 2, False, w.draw_log)


def particles(w, n):
    """Particle planner whose simulator only ever gives one observation."""
    bel = w.load('task_models.lib.belief')
    m = Fake(w, 2, 2, ns=2000, discount=0.)
    m.token = 3
    m.fix_obs = lambda k, a, s: 0
    real = m.sample_transition
    mod, p = planner(w, m, iterations=2, belief='particle', belief_params={'n_particles': n})
    p.get_action()
    node, b = list(p.history), p.belief
    kind = w.pick('kind', ['fails', 'unknown', 'works'])
    if kind == 'fails':
        k0 = len(m.calls)
        w.expect_raises(bel.MaxSamplesReached, lambda: p.step('o1'), 'no particle: reported')
    elif kind == 'unknown':
        w.expect_raises(ValueError, lambda: p.step('o7'), 'unknown observations are refused')
    if kind != 'works':
        w.check(list(p.history) == node and p.belief is b, 'a failed step changes nothing')
    p.step('o0')
    w.check(len(p.history) == 2 and p.history[1] == 0, 'the history lists actions and observations')
    parts = [i for i, x in enumerate(flat(p.belief.array)) if x != 0]
    ends = {c[2] for c in m.calls if c[3] == 0 and int(c[0]) == int(p.history[0])}
    w.check(bool(parts) and set(parts) <= ends, 'the belief is made of end states of the executed action')


def resets(w):
    m = Fake(w, 2, 2, discount=0.)
    mod, p = planner(w, m, iterations=2)
    m.fix_obs = lambda k, a, s: 0
    ref = Reference(m)
    act(w, p, m, ref, 2, False, w.draw_log)
    observe(w, p, m, ref, 0)
    w.expect_raises(NotImplementedError, lambda: p.reset(belief=[.5, .5]), 'resetting to a belief is refused')
    consistent(w, p, ref)


def deep(w, steps):
    """Longer histories of a planner with one action."""
    m = Fake(w, 1, 2, discount=0.)
    m.fix_obs = lambda k, a, s: 0
    mod, p = planner(w, m, iterations=1)
    ref = Reference(m)
    for t in range(steps):
        act(w, p, m, ref, 1, False, w.draw_log)
        observe(w, p, m, ref, w.int('obs%d' % t, 0, 1).__index__())
        consistent(w, p, ref)
    act(w, p, m, ref, 1, False, w.draw_log)


def no_episode(w):
    """No episode is a number of episodes too."""
    m = Fake(w, 2, 2, discount=0.)
    m.fix_obs = lambda k, a, s: 0
    mod, p = planner(w, m, iterations=2)
    w.check(p.get_action(iterations=0) in m.actions and not m.calls, 'the requested number of episodes is run')
    ref = Reference(m)
    act(w, p, m, ref, 2, False, w.draw_log)
    act(w, p, m, ref, 0, True, w.draw_log)


def passes(w, lengths):
    """Several histories after each other, without any search."""
    m = Fake(w, 2, 2, discount=0.)
    mod, p = planner(w, m, iterations=2)
    ref = Reference(m)
    for n, length in enumerate(lengths):
        for t in range(length):
            ref.acted = m.actions.index(p.get_action(iterations=0))
            kind = w.pick('step%d.%d' % (n, t), ['o0', 'o1', 'unknown'] if t + 1 == length and not n else ['o0', 'o1'])
            if kind == 'unknown':
                w.expect_raises(ValueError, lambda: p.step('no such observation'), 'unknown observations are refused')
            else:
                observe(w, p, m, ref, int(kind[1]))
            consistent(w, p, ref)
        if n + 1 < len(lengths):
            p.reset()
            ref.history, ref.acted = [], None
            consistent(w, p, ref)


def instances(tier):
    th = tier == 'thorough'
    L = ['episodes start from the belief of the history', 'the action returned has the best estimate',
         'the belief is the posterior of the history', 'stepping before acting is refused',
         'unknown observations are refused', 'a failing update is reported']
    out = [Inst('histories-1', histories, L, length=1, iterations=2),
           Inst('histories-1-3', histories, L, length=1, iterations=3, exploration=3),
           Inst('histories-2', histories, L, length=2, iterations=2),
           Inst('histories-keyed', histories, L, length=2, iterations=2, lookup=True),
           Inst('back', back, ['the same history finds the same node', 'other histories have other nodes']),
           Inst('particles-1', particles, ['no particle: reported', 'a failed step changes nothing'], n=1),
           Inst('deep-4', deep, L[:3], steps=5 if th else 4),
           Inst('passes-2-2', passes, ['the belief is the posterior of the history', 'unknown observations are refused'],
                lengths=(2, 2)),
           Inst('no-episode', no_episode, ['the requested number of episodes is run']),
           Inst('resets', resets, ['resetting to a belief is refused'])]
    if th:
        out += [Inst('passes-3-2', passes, ['the belief is the posterior of the history'], lengths=(3, 2)),
                Inst('passes-1-2-1', passes, ['the belief is the posterior of the history'], lengths=(1, 2, 1)),
                Inst('histories-3', histories, L, length=3, iterations=2),
                Inst('histories-2-reset', histories, L, length=2, iterations=3, extra_reset=True)]
    return out
