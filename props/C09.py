"""Trajectories played by the planner."""
import re

from .common import Inst, names

MOD = 'task_models.lib.pomcp'
BOUNDS = ('trajectories of up to 4 (thorough 6) transitions of any simulator (every state new, distinct rewards, any observations, final at any '
          'point, also at the start), and of two trajectories of up to 2 in a row, under any policy with 2 actions and 2 observations; the beliefs and their summaries are opaque.')
ASSUMPTIONS = ['every reported transition is one message that names states, action, observation and reward',
               'the messages reporting beliefs and the total are not judged beyond the numbers they hold']


class State(object):
    def __init__(self, m, s):
        self.m, self.s = m, s

    def __str__(self):
        return '<state %s>' % self.s

    def belief_quotient(self, b):
        self.m.asked.append(('quotient', b))
        return [.25, .75]

    def belief_preferences(self, b):
        self.m.asked.append(('preferences', b))
        return [.5, .125][:self.m.n_preferences]


class Model(object):

    def __init__(self, w, most, preferences):
        self.w, self.most, self.n_preferences = w, most, preferences
        self.actions, self.observations = names('act', 2), names('obs', 2)
        self.n_actions = self.n_observations = 2
        self.calls, self.asked, self.finals = [], [], set()
        if w.flag('final at the start'):
            self.finals.add(100)

    def sample_start(self):
        return 100

    def sample_transition(self, a, s, *args, **kw):
        k = len(self.calls)
        o = self.w.int(self.tag + 'o%d' % k, 0, 1).__index__()
        r = (k + 1) * (-8.5, 3., 10., 1.25)[k % 4]
        ns = 1000 + k
        if k + 1 >= self.most or self.w.flag(self.tag + 'final%d' % k):
            self.finals.add(ns)
        self.calls.append((a, s, ns, o, r))
        return ns, o, r

    def is_final(self, s):
        return s in self.finals

    def _int_to_state(self, s=0):
        return State(self, s)


class Belief(object):
    def __init__(self, k):
        self.array = 'array %d' % k


def play(w, most, times=1, preferences=2):
    pomcp = w.load(MOD)
    m = Model(w, most, preferences)
    log = []

    class Runner(pomcp.POMCPPolicyRunner):
        def reset(self, belief=None):
            log.append('reset')

        def get_action(self, iterations=None):
            k = len([x for x in log if isinstance(x, tuple)])
            a = w.int(m.tag + 'a%d' % k, 0, 1).__index__()
            log.append(('act', a))
            return m.actions[a]

        def step(self, o):
            log.append(o)

        @property
        def belief(self):
            return Belief(len(m.calls))

    class Tree(object):
        model = m
    r = Runner.__new__(Runner)
    r.tree = Tree()
    for t in range(times):
        m.tag = 'then ' * t
        m.calls, m.asked, m.finals = [], [], m.finals & {100}
        del log[:]
        lines = []
        r.run_trajectory(logger=lambda *a: lines.append(a[0] % a[1:] if len(a) > 1 else str(a[0])))
        w.check(log[:1] == ['reset'] and log.count('reset') == 1, 'the planner is reset first')
        w.check(log[1:] == [x for c in m.calls for x in (('act', c[0]), m.observations[c[3]])],
                'the actions of the planner are executed and observations returned')
        w.check([c[1] for c in m.calls] == ([100] + [c[2] for c in m.calls])[:len(m.calls)], 'transitions follow each other')
        last = ([100] + [c[2] for c in m.calls])
        w.check(m.is_final(last[-1]) and not any(m.is_final(s) for s in last[:-1]), 'the trajectory ends with the first final state')
        shown = [l for l in lines if '<state' in l]
        w.check(len(shown) == len(m.calls), 'every transition is reported')
        for l, (a, s, ns, o, rw) in zip(shown, m.calls):
            for x in ('<state %d>' % s, m.actions[a], '<state %d>' % ns, m.observations[o]):
                w.check(x in l, 'every transition is reported', l)
            w.check(l.index('<state %d>' % s) < l.index('<state %d>' % ns), 'every transition is reported', l)
            rest = re.sub(r'<state \d+>|act\d|obs\d', ' ', l)
            w.check(any(abs(float(x) - rw) < 1e-6 for x in re.findall(r'-?\d+\.?\d*', rest)), 'every transition is reported', l)
        w.check([x for x in m.asked if x[0] == 'quotient'] == [('quotient', 'array %d' % (k + 1)) for k in range(len(m.calls))] and
                [x for x in m.asked if x[0] == 'preferences'] == [('preferences', 'array %d' % (k + 1)) for k in range(len(m.calls))],
                'beliefs reported are those after the observation')
        total = sum(c[4] for c in m.calls)
        w.check(any(abs(float(x) - total) < 1e-4 for x in re.findall(r'-?\d+\.?\d*', lines[-1])), 'the total reward is reported',
                lines[-1])


def instances(tier):
    L = ['the planner is reset first', 'every transition is reported', 'the total reward is reported',
         'the trajectory ends with the first final state', 'beliefs reported are those after the observation']
    return [Inst('play', play, L, most=6 if tier == 'thorough' else 4),
            Inst('again', play, L, most=2, times=2, preferences=1)]
