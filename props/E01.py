"""Evaluated episodes."""
import datetime

from .common import Inst

MOD = 'task_models.evaluation'
MP = 'task_models.utils.multiprocess'
BOUNDS = ('episodes of up to 3 (thorough 5) transitions of any simulator (every state new, unknown rewards, any '
          'observation, final at any point) under any policy with 2 actions, unknown discount, unknown simulator calls '
          'of the policy, horizons -1 to 3 (thorough 5); up to 6 transitions of which 4 change and reward nothing; supportive models without randomness under the scripted '
          'policy; evaluations of up to 3 episodes.')
ASSUMPTIONS = ['the start state is not final', 'the time reported by ps is a stand-in (E03)',
               'processes are replaced by calls in order (E02)']


class Model(object):

    def __init__(self, w, discount=None, fixed=False, stays=False):
        self.w, self.stays = w, stays
        self.actions, self.observations = ['a', 'a b'], ['o', 'a']
        self.n_actions = self.n_observations = 2
        self.discount = w.real('gamma', 0, 1) if discount is None else discount
        self.fixed = fixed
        self.calls = []
        self.starts = []
        self.last = None
        self.n_simulator_calls = 5 if fixed else w.int('earlier calls', 0, 100)

    def sample_start(self):
        s = 100 + len(self.starts)
        self.starts.append(s)
        return s

    def sample_transition(self, a, s, *args, **kw):
        k = len(self.calls)
        self.n_simulator_calls += 1
        o = self.w.int('o%d' % k, 0, 1).__index__() if k >= self.stays else 0
        r = k * 10 - 2.625 if self.fixed else self.w.real('r%d' % k)
        new = 1000 + k
        if self.stays:   # fixed rewards, nothing new for some time
            r = 0. if k < self.stays else .0625
            new = s if k < self.stays else new
        if k >= self.stays and self.w.flag('final%d' % k):
            self.last = new
        self.calls.append((a, s, new, o, r))
        return new, o, r

    def is_final(self, s):
        return s == self.last

    def _int_to_state(self, s=0):
        m = self

        class State(object):
            def is_final(self):
                return m.is_final(s)

            def __str__(self):
                return '<%s>' % s
        return State()


class Policy(object):

    def __init__(self, w, m, fixed=False):
        self.w, self.m, self.fixed = w, m, fixed
        self.log, self.taken = [], []

    def reset(self):
        self.log.append('reset')

    def get_action(self, iterations=None):
        k = len(self.taken)
        self.m.n_simulator_calls += 7 if self.fixed else self.w.int('calls%d' % k, 0, 1000)
        a = self.w.int('a%d' % k, 0, 1).__index__() if k >= self.m.stays else 1
        self.taken.append(a)
        self.log.append('act')
        return self.m.actions[a]

    def step(self, observation):
        self.log.append(observation)


def powers(rewards, gamma):
    out, f = 0, 1
    for r in rewards:
        out, f = out + f * r, f * gamma
    return out


SECONDS = 93725 + .5


def setup(w, seconds=SECONDS):
    mp = w.load(MP)
    mp.get_process_elapsed_time = lambda *a, **kw: datetime.timedelta(seconds=seconds)
    return mp


def judge(w, m, p, rep, calls, log, taken, start, n, undiscounted, before, after, last):
    """The report of an episode of the given simulator calls."""
    w.check(log[:1] == ['reset'] and log.count('reset') == 1, 'the policy is reset first')
    w.check(log[1:] == [x for c in calls for x in ('act', m.observations[c[3]])], 'the policy sees the observations')
    w.check([c[0] for c in calls] == taken, 'the actions of the policy are executed')
    w.check([c[1] for c in calls] == [start] + [c[2] for c in calls][:-1] if calls else True,
            'transitions follow each other')
    k = len(calls)
    end = any(c[2] == last for c in calls)
    w.check(all(c[2] != last for c in calls[:-1]), 'the episode stops at the first final state')
    w.check(end if k < max(n, 0) else k == max(n, 0), 'the episode stops at the horizon or when final')
    w.check(list(rep['states']) == [start] + [c[2] for c in calls] and list(rep['actions']) == [c[0] for c in calls] and
            list(rep['observations']) == [c[3] for c in calls] and len(rep['rewards']) == k, 'the report is the episode')
    w.check_conj([w.eq(x, c[4]) for x, c in zip(rep['rewards'], calls)], 'the report is the episode')
    w.check(w.eq(rep['return'], powers([c[4] for c in calls], 1 if undiscounted else m.discount)),
            'the return is discounted from the first reward on')
    w.check(w.eq(rep['simulator-calls'], after - before), 'simulator calls are counted')
    w.check(w.eq(rep['elapsed-time'], SECONDS), 'the time is that of the process')


def episode(w, most, logged=False, kind='any', discount=None, stays=0):
    setup(w)
    mod = w.load(MOD)
    m = Model(w, discount=discount, fixed=logged, stays=stays)
    p = Policy(w, m, fixed=logged)
    n = w.int('horizon', stays - 1, most)
    before = m.n_simulator_calls
    logs = []
    un = kind == 'undiscounted'
    kw = {'discount': False} if un else {'discount': True} if kind == 'discounted' else {}
    if logged:
        kw['logger'] = logs.append
    rep = mod.simulate_one_evaluation(m, p, n, **kw)
    if logged:
        w.check(len(logs) >= 1, 'the summary is logged')
    judge(w, m, p, rep, m.calls, p.log, p.taken, m.starts[0], n.__index__(), un, before, m.n_simulator_calls, m.last)
    w.check(len(m.starts) == 1, 'the report is the episode')


def supportive(w, legs, most):
    """The real model and the scripted policy."""
    setup(w)
    mod = w.load(MOD)
    sup, task, pol = w.load('task_models.supportive'), w.load('task_models.task'), w.load('task_models.policy')

    class Quiet(sup.SupportivePOMDP):
        calls = []

        def sample_start(self):
            s = self._int_to_state()
            s.set_preference(0, 1)
            return s.to_int()

        def sample_transition(self, a, s, random=True):
            out = sup.SupportivePOMDP.sample_transition(self, a, s, random=False)
            self.calls.append((a, s) + tuple(out))
            return out
    m = Quiet(task.SequentialCombination([task.LeafCombination(sup.AssembleLeg('leg-%d' % i)) for i in range(legs)]),
              discount=w.real('gamma', 0, 1))
    m.calls = Quiet.calls
    m.r_subtask, m.cost_hold, m.cost_get = w.real('subtask'), w.real('hold'), w.real('get')
    p = pol.PolicyLongSupportiveSequence(m)
    log, act, step, reset = [], p.get_action, p.step, p.reset
    taken = []

    def get_action(*a, **kw):
        x = act(*a, **kw)
        taken.append(m.actions.index(x))
        log.append('act')
        return x
    p.get_action = get_action
    p.step = lambda o: (log.append(o), step(o))
    p.reset = lambda: (log.append('reset'), reset())
    n = w.int('horizon', 0, most)
    before = m.n_simulator_calls
    rep = mod.simulate_one_evaluation(m, p, n)
    last = [c[2] for c in m.calls if m.is_final(c[2])]
    start = m.calls[0][1] if m.calls else rep['states'][0]
    judge(w, m, p, rep, m.calls, log, taken, start, n.__index__(), False, before, m.n_simulator_calls,
          last[0] if last else None)


def several(w, n, most, logged=False):
    mp = setup(w)
    m = Model(w, discount=.5 if logged else None, fixed=logged)
    p = Policy(w, m, fixed=logged)
    done, logs = [], []
    kw = {'logger': logs.append} if logged else {}

    def repeat(func, k):
        for _ in range(k):
            c, l, t, b = len(m.calls), len(p.log), len(p.taken), m.n_simulator_calls
            rep = func()
            done.append((rep, m.calls[c:], p.log[l:], p.taken[t:], b, m.n_simulator_calls, m.last))
        return [d[0] for d in done]
    mp.repeat = repeat
    mod = w.load(MOD)
    hz = w.int('horizon', 0, most)
    out = mod.evaluate(m, p, n, hz, **kw) if w.flag('positional') else mod.evaluate(m, p, n, max_horizon=hz, **kw)
    w.check(not logged or len(logs) >= n, 'the summary is logged')
    w.check(len(done) == n and len(out) == n and all(x is d[0] for x, d in zip(out, done)), 'every episode is reported')
    for k, (rep, calls, log, taken, before, after, last) in enumerate(done):
        judge(w, m, p, rep, calls, log, taken, m.starts[k], hz.__index__(), False, before, after,
              last if any(c[2] == last for c in calls) else None)


def instances(tier):
    th = tier == 'thorough'
    k = 5 if th else 3
    L = ['the policy is reset first', 'the policy sees the observations', 'the report is the episode',
         'the return is discounted from the first reward on', 'simulator calls are counted',
         'the episode stops at the first final state', 'the episode stops at the horizon or when final']
    return [Inst('any', episode, L, most=k), Inst('discounted', episode, L, most=2, kind='discounted'),
            Inst('undiscounted', episode, L, most=2, kind='undiscounted'),
            Inst('logged', episode, L + ['the summary is logged'], most=2, logged=True, discount=.5),
            Inst('staying', episode, L, most=6, logged=False, discount=.5, stays=4),
            Inst('several-logged', several, L + ['every episode is reported', 'the summary is logged'], n=2, most=1, logged=True),
            Inst('supportive-1', supportive, L, legs=1, most=12),
            Inst('supportive-2', supportive, L, legs=2, most=12),
            Inst('several', several, L + ['every episode is reported'], n=2, most=2 if th else 1), Inst('several-3', several, L[:4] + ['every episode is reported'], n=3, most=1),
            Inst('none', several, ['every episode is reported'], n=0, most=2)]
