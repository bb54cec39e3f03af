"""Belief summaries of supportive models."""
from .common import Inst, flat

MOD = 'task_models.supportive'
BOUNDS = ('all beliefs (every entry a symbolic probability, no normalisation needed) over states with 1 to 8 '
          'and 18 task nodes, 0 to 5 preferences, 0 to 2 body features and 0 to 2 objects; summaries asked '
          'from any state object and from the model.')
ASSUMPTIONS = []


class Leaf(object):
    pass


def summaries(w, nh, npf, nb, no, model):
    mod = w.load(MOD)
    n = nh * 2 ** (npf + nb + no)
    S = mod._SupportivePOMDPState
    s = S(nh, npf, nb, no, s=w.pick('state', sorted({0, n // 2, n - 1})))
    b = w.real_array('b', (n,))
    old = list(flat(b))
    q = s.belief_quotient(b)
    # membership decided by the features the states report
    st = [S(nh, npf, nb, no, s=i) for i in range(n)]
    w.check_all_eq(q, [sum((x for x, t in zip(old, st) if t.htm == h), 0) for h in range(nh)],
                   'the task summary is the marginal over task nodes')
    p = s.belief_preferences(b)
    want = [sum((x for x, t in zip(old, st) if t.has_preference(i)), 0) for i in range(npf)]
    w.check(len(p) == npf, 'one number per preference')
    for x, y in zip(p, reversed(want)):
        w.check(w.eq(x, y), 'preference summaries are marginals')
    w.check_all_eq(b, old, 'the belief is left as it was')


def wrong(w):
    S = w.load(MOD)._SupportivePOMDPState
    s = S(3, 1, 1, 1)
    for n in (23, 25, 12):
        w.expect_raises(Exception, lambda: s.belief_quotient(w.array([0.] * n)), 'other sizes are refused')


def instances(tier):
    out = []
    sizes = [(1, 1, 0, 0), (3, 1, 1, 1), (2, 2, 0, 1), (2, 3, 0, 0), (3, 0, 1, 1), (2, 1, 2, 1), (2, 2, 1, 2), (2, 4, 0, 1), (18, 1, 0, 1),
             (4, 1, 1, 0), (8, 2, 0, 1), (2, 5, 1, 0)]
    if tier == 'thorough':
        sizes += [(3, 3, 1, 2), (4, 2, 1, 3), (5, 1, 1, 4)]
    for k in sizes:
        L = ['the task summary is the marginal over task nodes'] + (
            ['preference summaries are marginals'] if k[1] else [])
        out.append(Inst('-'.join(map(str, k)), summaries, L, nh=k[0], npf=k[1], nb=k[2], no=k[3], model=False))
    out.append(Inst('wrong', wrong, ['other sizes are refused']))
    return out
