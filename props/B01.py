"""Particle beliefs."""
from symex import engine as E

from .common import Inst, flat

BOUNDS = ('1 to 3 particles over 2 states (thorough 3 states, 4 particles); a simulator whose matching outcomes '
          'come at unknown calls (any of the first 3, any of the last 3 within the sampling budget '
          'of 100 per particle, just after it, or never), with unknown end states and unknown draws; '
          '6 and 8 particles of which all but the last one or two are found early; for one particle the matching call is any of 1 to 101; frequencies also of 20, 100 and 300 '
          'particles, all but the last two of them fixed.')
ASSUMPTIONS = ['the simulator is an arbitrary one: every call returns an unknown end state and an '
               'observation that matches at unknown calls',
               'as many matching calls as particles, or fewer',
               'in a series of rejected calls only the first and last particle drawn are unknown (the '
               'law of these draws is checked separately)']


class Simulator(object):
    def __init__(self, w, ks, n_states, wanted, step, lead=0):
        self.lead = lead
        self.step = step
        self.w, self.ks, self.n_states, self.wanted = w, ks, n_states, wanted
        self.calls = []
        self.found = []

    def sample_transition(self, a, s):
        n = len(self.calls) + 1
        self.calls.append((a, s))
        if n > 1000:
            raise RuntimeError('runaway sampling')
        hit = n in self.ks
        if hit:
            s2 = n % self.n_states if len(self.found) < self.lead else \
                self.w.int('end%d_%d' % (self.step, n), 0, self.n_states - 1).__index__()
            self.found.append(s2)
            return s2, self.wanted, 0.
        # non-matching outcomes: a state that is never a valid particle
        return self.n_states - 1 if n % 2 else 0, self.wanted + 1 + n % 2, 1.


def update(w, n, near, ns, chain, lead=0):
    bel = w.load('task_models.lib.belief')
    start = [w.int('particle%d' % i, 0, ns - 1).__index__() if i < 2 - bool(lead) else 0 for i in range(n)]
    it = iter(start)
    b = bel.ParticleBelief(lambda: next(it), ns, n_particles=n)
    w.check(sorted(int(x) for x in b.part_states) == sorted(start), 'initial particles are those sampled')
    check_array(w, b.array, start, ns)
    budget = 100 * n
    for step in range(chain):
        ks = []
        for i in range(n):
            if i < lead:
                ks.append(3 * i + 2)
                continue
            k = w.int('hit%d_%d' % (step, i), 1, budget + 1)
            if lead:
                w.assume(w.disj([w.eq(k, 3 * lead + 5), k >= budget]))
            if near:
                w.assume(w.disj([k <= near, k > budget - near]))
            if i:
                w.assume(w.disj([k > ks[-1], k > budget]))
            ks.append(k.__index__())
        obs, act = 1, 1
        sim = Simulator(w, ks, ns, obs, step, lead)
        old = list(start)

        def fixed(m):
            # the choice of the particle a long series of rejected transitions starts from is fixed
            c = len(sim.calls)
            return c % m if lead or 1 <= c < budget - 1 else None
        w.fixed_draw = fixed
        try:
            b2 = b.successor(sim, act, obs)
        except bel.MaxSamplesReached:
            b2 = None
        w.fixed_draw = None
        calls = sim.calls
        w.check(len(calls) <= budget, 'the model is sampled within the budget')
        w.check(all(c[0] == act for c in calls), 'the model is sampled with the action')
        w.check(all(any(int(c[1]) == x for x in set(old)) for c in calls),
                'transitions start from particles of the belief')
        if b2 is None:
            w.check(not sim.found, 'failure only if no particle was found')
            w.check(len(calls) == budget, 'failure only after the whole budget')
            return
        w.check(bool(sim.found), 'failure if no particle was found')
        parts = [int(x) for x in b2.part_states]
        w.check(len(parts) == n, 'exactly the configured number of particles')
        w.check(all(x in sim.found for x in parts), 'particles are end states of matching transitions')
        w.check(len(sim.found) >= n or len(calls) == budget, 'copies only once the budget is used up')
        w.check(len(calls) == min(budget, ks[-1]), 'no more transitions than needed')
        w.check(all(parts.count(x) >= sim.found.count(x) for x in set(sim.found)),
                'every particle found is held')
        w.check([int(x) for x in b.part_states] == old, 'the previous belief is unchanged')
        check_array(w, b2.array, parts, ns)
        w.check(b2.n_particles == n and b2.n_states == ns, 'sizes are kept')
        b, start = b2, parts


def check_array(w, arr, parts, ns):
    x = flat(arr)
    w.check(len(x) == ns and all(w.eq(x[i] * len(parts), parts.count(i)) for i in range(ns)),
            'the belief array is the particle frequencies')


def many(w, n, ns):
    """Large beliefs: all but the last particles are fixed."""
    bel = w.load('task_models.lib.belief')
    start = [i * i % ns if i % 3 else 0 for i in range(n - 2)]
    start += [w.int('particle%d' % i, 0, ns - 1).__index__() for i in range(2)]
    it = iter(start)
    b = bel.ParticleBelief(lambda: next(it), ns, n_particles=n)
    w.check([int(x) for x in b.part_states] == start, 'initial particles are those sampled')
    check_array(w, b.array, start, ns)


def law(w, n, ns):
    """Samples of a belief and copies made to fill up are uniform."""
    bel = w.load('task_models.lib.belief')
    start = [w.int('particle%d' % i, 0, ns - 1).__index__() for i in range(n)]
    it = iter(start)
    b = bel.ParticleBelief(lambda: next(it), ns, n_particles=n)
    tot = {}
    for wt, r in w.law(lambda: int(b.sample())):
        tot[r] = tot.get(r, 0) + wt
    for s in range(ns):
        w.check(w.eq(tot.get(s, 0) * n, start.count(s)), 'sampling follows the particle frequencies')


U = ['the model is sampled within the budget', 'transitions start from particles of the belief',
     'failure only if no particle was found', 'exactly the configured number of particles',
     'particles are end states of matching transitions',
     'the belief array is the particle frequencies']


def instances(tier):
    th = tier == 'thorough'
    out = [Inst('all-calls-1', update, U, n=1, near=0, ns=2, chain=1),
           Inst('near-1-chain', update, U, n=1, near=2, ns=2, chain=2),
           Inst('near-2', update, U, n=2, near=2, ns=2, chain=1),
           Inst('near-2-3', update, U, n=2, near=2, ns=3, chain=1),
           Inst('near-3', update, U, n=3, near=1, ns=2, chain=1)]
    if th:
        out += [Inst('near-2-chain', update, U, n=2, near=1, ns=2, chain=2),
                Inst('near-2-3-3', update, U, n=2, near=3, ns=3, chain=1),
                Inst('near-3-2', update, U, n=3, near=2, ns=2, chain=1),
                Inst('near-4', update, U, n=4, near=2, ns=2, chain=1)]
    out.append(Inst('lead-8', update, U[:2] + U[3:], n=8, near=0, ns=3, chain=1, lead=6))
    out.append(Inst('lead-6-chain', update, U[:2] + U[3:], n=6, near=0, ns=2, chain=2, lead=5))
    for n, ns in [(20, 3), (100, 3), (300, 2)]:
        out.append(Inst('many-%d' % n, many, ['initial particles are those sampled',
                                              'the belief array is the particle frequencies'], n=n, ns=ns))
    for n in (1, 2, 3) + ((4, 5) if th else ()):
        out.append(Inst('law-%d' % n, law, ['sampling follows the particle frequencies'], n=n, ns=3))
    return out
