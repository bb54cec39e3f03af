"""The scripted supportive policy."""
from .common import Inst

MOD = 'task_models.policy'
BOUNDS = ('any number of subtasks up to 3 (thorough 4), or up to 13 (16) if all goes well, an unknown of the solver, actions and observations '
          'in several orders; every sequence of observations with up to 2 (thorough 3; 1 for more than one subtask, '
          'thorough 2 for more than two) answers other than the expected one (failures anywhere, not-found, unexpected, unknown), actions asked once or twice, a reset '
          'at any one point; up to 50 steps, 6 (9) failures in a row anywhere, another policy used in between; real models of 1 to 3 legs.')
ASSUMPTIONS = ['an action is asked before each observation', 'what the policy does after it reported an unexpected '
               'observation is not judged']
TOOLS = ['screws', 'screwdriver', 'joints']
ORDERS = {'usual': ['wait', 'hold H', 'hold V', 'ask hold', 'bring joints', 'clear joints', 'bring leg',
                    'bring screwdriver', 'clear screwdriver', 'bring screws', 'clear screws'],
          'mixed': ['clear screws', 'bring leg', 'hold V', 'bring screws', 'clear joints', 'hold H', 'bring top',
                    'bring joints', 'clear screwdriver', 'wait', 'clear leg', 'bring screwdriver']}
OBS = {'usual': ['none', 'fail', 'not-found', 'yes', 'no'], 'mixed': ['yes', 'fail', 'none', 'not-found']}


class Model(object):

    def __init__(self, w, order, most, n=None):
        self.order = order
        self.actions, self.observations = list(ORDERS[order]), list(OBS[order])
        self.n_actions, self.n_observations = len(self.actions), len(self.observations)
        self.n_htm_states = (w.int('subtasks', 0, most) if n is None else n) + 2


def protocol(n):
    """The actions, each to be repeated until it succeeds."""
    for t in TOOLS:
        yield 'bring ' + t, ('none', 'not-found')
    k = 0
    while k < n:
        yield 'bring leg', ('none', 'not-found')
        yield 'hold H', ('none',)
        k = k + 1
    for t in TOOLS:
        yield 'clear ' + t, ('none', 'not-found')
    while True:
        yield 'wait', ('none', 'not-found')


def run(w, order='usual', most=2, deviations=2, steps=20, reset=None, legs=None, failing=0):
    mod = w.load(MOD)
    if legs is None:
        m = Model(w, order, most)
    else:
        sup, task = w.load('task_models.supportive'), w.load('task_models.task')
        m = sup.SupportivePOMDP(task.SequentialCombination(
            [task.LeafCombination(sup.AssembleLeg('leg-%d' % i)) for i in range(legs)]))
    n = m.n_htm_states - 2 if legs is None else legs
    p = mod.PolicyLongSupportiveSequence(m)
    other = mod.PolicyLongSupportiveSequence(Model(w, sorted(ORDERS)[order == 'mixed'], 1, 1))
    w.check(list(p.actions) == list(m.actions) and list(p.observations) == list(m.observations),
            'names are those of the model')
    w.expect_raises(ValueError, lambda: p.step('none'), 'stepping before acting is refused')
    w.check(list(p.history) == [], 'the history lists what was executed')
    script, history, waits = protocol(n), [], 0
    want, good = next(script)
    left = deviations
    at = None if reset is None else w.pick('reset at', list(range(reset + 1)))
    twice = None if reset is not None else w.pick('asked twice', [None, 0, 4])
    stuck = w.pick('fails from', list(range(0, steps // 2, 3))) if failing else None
    for t in range(steps):
        if at == t:
            p.reset()
            w.check(list(p.history) == [], 'a reset starts again')
            w.expect_raises(ValueError, lambda: p.step('none'), 'stepping before acting is refused')
            script, history, waits = protocol(n), [], 0
            want, good = next(script)
        a = p.get_action()
        if twice == t:
            a = p.get_action()
        if t % 4 == 1:
            # another policy is used in between
            b = other.get_action()
            other.step('none')
            mo = other.model
            w.check(list(other.observations) == OBS[mo.order] and list(other.history[t // 4 * 2:]) == [
                ORDERS[mo.order].index(b), OBS[mo.order].index('none')], 'policies are separate')
        w.check(a == want, 'a reset starts again' if at is not None and t >= at else
                'the protocol is followed', info='%s expected %s %s' % (a, want, history))
        usual = 'none'
        options = [usual] + ([o for o in m.observations + ['unknown'] if o != usual] if left else [])
        o = w.pick('o%d' % t, options) if len(options) > 1 else usual
        if failing and stuck <= t < stuck + failing:
            o = 'fail'
        elif o != usual:
            left -= 1
        if o == 'unknown':
            w.expect_raises(ValueError, lambda: p.step(o), 'unknown observations are refused')
            w.check(list(p.history) == history, 'the history lists what was executed')
            continue
        history = history + [m.actions.index(a), m.observations.index(o)]
        if o != 'fail' and o not in good:
            w.expect_raises(p.UnexpectedObservation, lambda: p.step(o), 'unexpected observations are reported')
            w.check(list(p.history) == history, 'the history lists what was executed')
            return
        p.step(o)
        w.check(list(p.history) == history, 'the history lists what was executed')
        if o != 'fail':
            if want == 'wait':
                waits += 1
                if waits == 2:
                    return
            want, good = next(script)


def instances(tier):
    th = tier == 'thorough'
    L = ['the protocol is followed', 'the history lists what was executed', 'unexpected observations are reported',
         'unknown observations are refused', 'stepping before acting is refused']
    out = [Inst(o, run, L, order=o, most=2 if th else 1, deviations=3 if th else 2, steps=22) for o in ORDERS]
    out.append(Inst('more', run, L, most=3, deviations=1, steps=22))
    out.append(Inst('many', run, L[:2], most=16 if th else 13, deviations=0, steps=50))
    out.append(Inst('failing', run, L[:2], most=2, deviations=0, steps=26, failing=9 if th else 6))
    out.append(Inst('reset', run, L + ['a reset starts again'], most=1, deviations=1, reset=10, steps=22))
    out += [Inst('legs-%d' % k, run, L, legs=k, deviations=1, steps=20) for k in (1, 2, 3)]
    if th:
        out.append(Inst('long', run, L, most=4, deviations=2, steps=26))
    return out
