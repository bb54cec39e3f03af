"""Sampling laws."""
from .common import Inst, big_pomdp, POMDP_MOD, flat, make_pomdp

BOUNDS = ('every model with up to 3x2x3 and 4x1x2 (states x actions x observations; thorough '
          'up to 5x2x4), every action and state: the exact law over all outcomes of all random draws, '
          'compared as polynomials in the unknown probabilities; larger models '
          '(5x2x4, 3x2x6) with fixed numbers but for one row of each kind and one reward; and the '
          'law of a second sample (2x2x2, 3x1x2), after the model was smoothed or not.')
ASSUMPTIONS = ['numpy.random.choice draws with the probabilities it is given and fails if they are '
               'no distribution (its contract); uniform draws are ideal']


def law_of(w, f):
    """{outcome: total weight}, and everything that came with an outcome."""
    tot, extra = {}, {}
    for wt, r in w.law(f):
        key, rest = r
        tot[key] = tot.get(key, 0) + wt
        extra.setdefault(key, []).append(rest)
    return tot, extra


def transition(w, ns, na, no, big=False):
    m, (T, O, R, b0, g) = big_pomdp(w, ns, na, no) if big else make_pomdp(w, ns, na, no, discount=.9 if big or not w.flag('undiscounted') else w.pick('discount', [0., 1.]), start=False)
    a = w.int('a', 0, na - 1).__index__()
    s = w.int('s', 0, ns - 1).__index__()

    def f():
        s2, o, r = m.sample_transition(a, s)
        return (int(s2), int(o)), r
    tot, extra = law_of(w, f)
    for key in tot:
        w.check(0 <= key[0] < ns and 0 <= key[1] < no, 'outcomes are states and observations')
    for s2 in range(ns):
        for o in range(no):
            w.check(w.eq(tot.get((s2, o), 0), T[a][s][s2] * O[a][s2][o]),
                    'law of (end state, observation)')
            for r in extra.get((s2, o), []):
                w.check(w.eq(r, R[a][s][s2][o]), 'reward of the sampled transition')
    w.check_all_eq(flat(m.T), [x for p in T for q in p for x in q], 'model unchanged')


def again(w, ns, na, no, smooth):
    """The law is that of the present model, whatever was sampled before."""
    m, (T, O, R, b0, g) = make_pomdp(w, ns, na, no, discount=.9, start=False, rewards=False)
    a1 = w.int('a1', 0, na - 1).__index__()
    s1 = w.int('s1', 0, ns - 1).__index__()
    law_of(w, lambda: (tuple(int(x) for x in m.sample_transition(a1, s1)[:2]), None))
    if smooth:
        m.randomize(.25)
    a = w.int('a', 0, na - 1).__index__()
    s = w.int('s', 0, ns - 1).__index__()
    tot, _ = law_of(w, lambda: (tuple(int(x) for x in m.sample_transition(a, s)[:2]), None))
    e = .25 if smooth else 0.
    for s2 in range(ns):
        for o in range(no):
            p = (T[a][s][s2] + e) * (O[a][s2][o] + e)
            w.check(w.eq(tot.get((s2, o), 0) * ((1 + ns * e) * (1 + no * e)), p),
                    'law of a later sample')


def start(w, ns):
    m, (T, O, R, b0, g) = make_pomdp(w, ns, 1, 1, discount=.9, rewards=False)
    tot, _ = law_of(w, lambda: (int(m.sample_start()), None))
    for s in range(ns):
        w.check(w.eq(tot.get(s, 0), b0[s]), 'law of the start state')
    w.check(all(0 <= k < ns for k in tot), 'start states are states')


def belief(w, ns):
    bel = w.load('task_models.lib.belief')
    b = w.prob_vector('b', ns)
    b0 = flat(b)
    B = bel.ArrayBelief(b)
    tot, _ = law_of(w, lambda: (int(B.sample()), None))
    for s in range(ns):
        w.check(w.eq(tot.get(s, 0), b0[s]), 'law of a belief sample')


def instances(tier):
    q = [(2, 2, 2), (3, 1, 2), (2, 1, 3), (3, 2, 3), (4, 1, 2)] + (
        [(2, 3, 4), (5, 2, 4), (6, 1, 3)] if tier == 'thorough' else [])
    out = [Inst('transition-%dx%dx%d' % s, transition,
                ['law of (end state, observation)', 'reward of the sampled transition'],
                ns=s[0], na=s[1], no=s[2]) for s in q]
    for z in [(5, 2, 4), (3, 2, 6)] + ([(9, 2, 3)] if tier == 'thorough' else []):
        out.append(Inst('big-%dx%dx%d' % z, transition,
                        ['law of (end state, observation)', 'reward of the sampled transition'],
                        ns=z[0], na=z[1], no=z[2], big=True))
    for s in (False, True):
        for z in [(2, 2, 2), (3, 1, 2)] + ([(3, 2, 3)] if tier == 'thorough' else []):
            out.append(Inst('again-%dx%dx%d%s' % (z + ('-smoothed' if s else '',)), again,
                            ['law of a later sample'], ns=z[0], na=z[1], no=z[2], smooth=s))
    for n in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6):
        out.append(Inst('start-%d' % n, start, ['law of the start state'], ns=n))
        out.append(Inst('belief-%d' % n, belief, ['law of a belief sample'], ns=n))
    return out
