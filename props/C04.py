"""Ends of episodes."""
from .common import Inst
from .search import MCP_MOD, Fake

BOUNDS = ('horizons of -1 to 4 (symbolic) over every sequence of up to 4 transitions (thorough 6) between '
          'any states of supportive tasks of 1 to 3 steps, copied at any point with any continuation '
          'of copy and original; episodes of the search with every kind of horizon of 0 to 3, with 1 or '
          '2 rollouts.')
ASSUMPTIONS = ['a final task stays final']

SUP_MOD = 'task_models.supportive'
EVA_MOD = 'task_models.evaluation'


def supportive(w, steps=2):
    sup, task = w.load(SUP_MOD), w.load('task_models.task')
    acts = [sup.AssembleLeg('leg %d' % i) for i in range(steps - 1)] + [sup.BringTop()]
    leaves = [task.LeafCombination(a) for a in acts]
    return sup.SupportivePOMDP(leaves[0] if steps == 1 else task.SequentialCombination(leaves))


def make(w, kind, m, n, through=False):
    if kind == 'transitions':
        cls = w.load(MCP_MOD).NTransitionsHorizon
        return cls.generator(m, n=n)() if through else cls(n)
    cls = w.load(SUP_MOD).NHTMHorizon if kind == 'htm' else \
        w.load(EVA_MOD).FinishedOrNTransitionsHorizon
    return cls.generator(m, n=n)() if through else cls(m, n)


class Reference(object):
    """What the horizon should say."""

    def __init__(self, w, kind, n, last):
        self.w, self.kind, self.n, self.last = w, kind, n, last
        self.count = 0
        self.final = False

    def copy(self):
        r = Reference(self.w, self.kind, self.n, self.last)
        r.count, r.final = self.count, self.final
        return r

    def step(self, h, new_h):
        w = self.w
        if self.kind == 'htm':
            self.count = self.count + w.ite(w.neg(w.eq(h, new_h)), 1, 0)
        else:
            self.count += 1
        if self.kind != 'transitions':
            self.final = w.disj([self.final, w.eq(new_h, self.last)])

    def reached(self):
        return self.w.disj([self.count >= self.n, self.final])


def state(w, m, name):
    """An arbitrary state; (task node, integer)."""
    k = m.n_states // m.n_htm_states
    h = w.int(name + 'node', 0, m.n_htm_states - 1)
    r = w.int(name + 'rest', 0, k - 1)
    return h, h * k + r


def sequence(w, kind, length, steps, through):
    m = supportive(w, steps)
    last = m.n_htm_states - 1
    n = w.int('n', -1, 4)
    hor = make(w, kind, m, n, through)
    ref = Reference(w, kind, n, last)
    w.check(iff(w, hor.is_reached(), n <= 0), 'reached from the start only for no step')
    h, s = state(w, m, 's')
    where = w.pick('copied after', range(length + 1))
    both = []
    for t in range(length + 1):
        if t == where:
            both = [(hor.copy(), ref.copy(), 'copy')]
            same(w, both[0][0], both[0][1], 'a copy behaves as the original')
        if t == length:
            break
        # the original only, the copy only or both go on
        nh, ns = state(w, m, 't%d' % t)
        w.assume(w.implies(w.eq(h, last), w.eq(nh, last)))
        a = w.pick('a%d' % t, (0, 1)) if t == 0 else 0
        who = w.pick('who%d' % t, (0, 1, 2)) if both else 0
        # each only continues from its own state: keep the one state for both
        if who in (0, 2):
            hor.decrement(a, s, ns, 0)
            ref.step(h, nh)
        if both and who in (1, 2):
            both[0][0].decrement(a, s, ns, 0)
            both[0][1].step(h, nh)
        same(w, hor, ref, 'reached exactly when the steps are over')
        if both:
            same(w, both[0][0], both[0][1], 'a copy behaves as the original')
        h, s = nh, ns


def iff(w, a, b):
    return w.conj([w.implies(a, b), w.implies(b, a)])


def same(w, hor, ref, label):
    w.check(iff(w, hor.is_reached(), ref.reached()), label)


def generators(w, kind):
    """Horizons made by one generator are independent."""
    m = supportive(w, 2)
    n = w.int('n', 1, 2)
    mod = w.load(MCP_MOD)
    cls = {'transitions': lambda: mod.NTransitionsHorizon, 'htm': lambda: w.load(SUP_MOD).NHTMHorizon,
           'final': lambda: w.load(EVA_MOD).FinishedOrNTransitionsHorizon}[kind]()
    g = cls.generator(m, n=n)
    a, b = g(), g()
    k = m.n_states // m.n_htm_states
    a.decrement(0, 0, k, 0)
    a.decrement(0, k, 2 * k, 0)
    w.check(bool(a.is_reached()), 'reached exactly when the steps are over')
    w.check(not bool(b.is_reached()) and not bool(g().is_reached()), 'generated horizons are independent')


class Model(Fake):
    """Arbitrary task nodes; the rest of the state does not change."""

    def __init__(self, w, real):
        Fake.__init__(self, w, 1, 1, ns=2, discount=1.)
        self.real, self.k = real, real.n_states // real.n_htm_states
        self._int_to_state = real._int_to_state
        self.n_htm_states = real.n_htm_states
        self.moving, self.idle = False, 0

    def sample_transition(self, a, s):
        last = self.n_htm_states - 1
        nh = w_int(self.w, 'node%d' % len(self.calls), 0, last)
        h = s // self.k if type(s) is int else 0
        self.w.assume(h != last or nh == last)
        if self.moving:          # at most one idle transition per episode, or it could last for ever
            self.idle += nh == h
            self.w.assume(self.idle <= 1 or nh != h)
        ns = nh * self.k
        self.calls.append((a, s, ns, 0, 0.))
        return ns, 0, 0.


def w_int(w, name, lo, hi):
    return w.int(name, lo, hi).__index__()


def episodes(w, kind, n, rollouts, episodes_):
    mod = w.load(MCP_MOD)
    real = supportive(w, 1)
    m = Model(w, real)
    last = real.n_htm_states - 1
    m.moving = kind == 'htm'
    gen = {'transitions': lambda: mod.NTransitionsHorizon, 'htm': lambda: w.load(SUP_MOD).NHTMHorizon,
           'final': lambda: w.load(EVA_MOD).FinishedOrNTransitionsHorizon}[kind]().generator(m, n=n)
    p = mod.POMCPPolicyRunner(m, horizon=gen if kind != 'transitions' or w.flag('generator') else n,
                              iterations=episodes_, rollout_it=rollouts, logger=lambda *a: None)
    depth = 0
    for e in range(episodes_):
        m.idle = 0
        k0 = len(m.calls)
        p.get_action(iterations=1)
        calls = m.calls[k0:]
        ref = Reference(w, kind, n, last)
        i = 0

        def one(r, c):
            s = c[1] if type(c[1]) is int and c[1] >= m.k else 0
            r.step(s // m.k, c[2] // m.k)
        while i < e + 1 and i < len(calls) and not bool(ref.reached()):
            one(ref, calls[i])
            i += 1
        d = i
        short = bool(ref.reached())
        if not short:
            for j in range(rollouts):
                r = ref.copy()
                first = True
                while not bool(r.reached()):
                    w.check(i < len(calls), 'episodes go on until the horizon')
                    c = calls[i]
                    if first:
                        c = (c[0], 0, c[2])
                        # a rollout starts from a state drawn from the belief, in the first node
                    one(r, c)
                    first = False
                    i += 1
        w.check(i == len(calls), 'the simulator is not called past the horizon')


def refused(w):
    mod = w.load(MCP_MOD)
    m = Fake(w, 2, 2, discount=1.)
    bad = w.pick('horizon', [None, 'ten', 1.5, [3]])
    w.expect_raises(ValueError, lambda: mod.POMCPPolicyRunner(m, horizon=bad, logger=lambda *a: None),
                    'other horizons are refused')


def instances(tier):
    th = tier == 'thorough'
    out = []
    for kind in ('transitions', 'htm', 'final'):
        for steps in (1, 2, 3) if kind != 'transitions' else (1,):
            for through in (False, True):
                if kind == 'htm' and not th and steps != 2 - through:
                    continue
                out.append(Inst('sequence-%s-%d%s' % (kind, steps, '-generated' if through else ''), sequence,
                                ['a copy behaves as the original', 'reached exactly when the steps are over'],
                                kind=kind, length=5 if th else 3, steps=steps, through=through))
        out.append(Inst('generator-' + kind, generators, ['generated horizons are independent'], kind=kind))
        for n in (0, 1, 2) + ((3,) if kind != 'htm' or th else ()):
            for r in (1, 2):
                if kind == 'htm' and n > 1 and not th:
                    continue
                out.append(Inst('episodes-%s-%d-%d' % (kind, n, r), episodes,
                                ['the simulator is not called past the horizon'], kind=kind, n=n,
                                rollouts=r, episodes_=2 if n < 3 or th else 1))
    out.append(Inst('refused', refused, ['other horizons are refused']))
    return out
