"""Bayes update of beliefs."""
from .common import Inst, big_pomdp, POMDP_MOD, flat, joint, make_pomdp, snapshot

BOUNDS = ('every model with 2x2x2, 3x1x2, 2x1x3, 3x2x2, 2x2x3, 4x1x2, 2x3x2 (states x actions x '
          'observations; thorough up to 6x1x2 and 4x3x3), every belief, action and observation; '
          'transition, observation and belief probabilities are unknown reals, action and '
          'observation unknown indices. Also 7x2x2 (thorough up to 20x1x2) models with fixed numbers but for one unknown transition row, observation row and a belief over three of the states. Also a second update (2x2x2), after the model was smoothed or not. Larger spaces are outside the claim.')
ASSUMPTIONS = ['the rows of the model and the belief are exact probability vectors']


def update(w, ns, na, no, via, big=False):
    if big:
        m, (T, O, R, b0, g) = big_pomdp(w, ns, na, no)
    else:
        m, (T, O, R, b0, g) = make_pomdp(w, ns, na, no, rewards=False, start=False, discount=1.)
    mod = w.load(POMDP_MOD)
    bel = w.load('task_models.lib.belief')
    if big:
        x = flat(w.prob_vector('b', 3))
        b = w.array([x[0]] + [0.] * (ns - 3) + x[1:])
    else:
        b = w.prob_vector('b', ns)
    a = w.int('a', 0, na - 1)
    o = w.int('o', 0, no - 1)
    before = snapshot(b, m.T, m.O)
    raised = False
    try:
        if via == 'model':
            nb = m.belief_update(a, o, b)
        else:
            B = bel.ArrayBelief(b)
            nb = B.successor(m, a, o)
            w.check_all_eq(B.array, before[0], 'belief object unchanged')
            w.check_all_eq(nb.to_list(), nb.array, 'belief as list')
            nb = nb.array
    except mod.Impossible:
        raised = True
    a, o = a.__index__(), o.__index__()
    post = joint(T, O, before[0], a, o)
    norm = sum(post)
    if raised:
        w.check(norm <= 0, 'impossible is reported only for zero-probability observations')
    else:
        w.check(norm > 0, 'zero-probability observations are reported as impossible')
        x = flat(nb)
        w.check(len(x) == ns, 'posterior has one entry per state')
        for j in range(ns):
            w.check(w.eq_ratio(x[j], post[j], norm), 'posterior = normalised product')
            w.check(w.le(0., x[j]), 'posterior is non-negative')
        w.check(w.eq(sum(x), 1.), 'posterior sums to one')
    after = snapshot(b, m.T, m.O)
    for x, y in zip(before, after):
        w.check_all_eq(y, x, 'inputs unchanged')


def again(w, ns, na, no, smooth, sure=False):
    """The update is that of the present model, whatever was asked before."""
    if smooth:
        T = w.stochastic('T', na, ns, ns)
        O = [[[1. / 4, 3. / 4] if (i + j) % 2 else [1., 0.] for i in range(ns)] for j in range(na)]
        m = w.load(POMDP_MOD).POMDP(T, w.array(O), w.array([[[[0.] * no] * ns] * ns] * na),
                                    w.array([1. / ns] * ns), 1.)
        T = snapshot(T)[0]
    else:
        m, (T, O, R, b0, g) = make_pomdp(w, ns, na, no, rewards=False, start=False, discount=1.)
    mod = w.load(POMDP_MOD)
    try:
        m.belief_update(w.int('a1', 0, na - 1).__index__(), w.int('o1', 0, no - 1).__index__(),
                        w.array([1. / ns] * ns) if not sure else w.array([0.] * (ns - 1) + [1.]))
    except mod.Impossible:
        pass
    e = 0.
    if smooth:
        m.randomize(.25)
        e = .25
    a = w.int('a', 0, na - 1).__index__()
    o = w.int('o', 0, no - 1).__index__()
    b = w.array([.25] + [.75 / (ns - 1)] * (ns - 1)) if not sure else w.array([0.] * (ns - 1) + [1.])
    bl = flat(b)
    # rows of the smoothed model up to common factors
    T = [[[x + e for x in r] for r in q] for q in T]
    O = [[[x + e for x in r] for r in q] for q in O]
    post = joint(T, O, bl, a, o)
    norm = sum(post)
    try:
        x = flat(m.belief_update(a, o, b))
    except mod.Impossible:
        w.check(norm <= 0, 'a later impossible observation has probability zero')
        return
    w.check(norm > 0, 'a later impossible observation is reported')
    for j in range(ns):
        w.check(w.eq_ratio(x[j], post[j], norm), 'a later posterior = normalised product')


LABELS = ['impossible is reported only for zero-probability observations',
          'zero-probability observations are reported as impossible',
          'posterior = normalised product', 'posterior is non-negative', 'posterior sums to one',
          'inputs unchanged']


def instances(tier):
    sizes = [(2, 2, 2), (3, 1, 2), (2, 1, 3), (3, 2, 2), (2, 2, 3), (4, 1, 2), (2, 3, 2)]
    if tier == 'thorough':
        sizes += [(3, 3, 3), (5, 1, 2), (6, 1, 2), (4, 3, 3), (5, 2, 3)]
    out = [Inst('%s-%dx%dx%d' % (via, ns, na, no), update, LABELS, ns=ns, na=na, no=no, via=via)
            for ns, na, no in sizes for via in ('model', 'belief-object')]
    for ns, na, no in [(7, 2, 2)] + ([(12, 2, 3), (20, 1, 2)] if tier == 'thorough' else []):
        out.append(Inst('big-%dx%dx%d' % (ns, na, no), update, LABELS[1:], ns=ns, na=na, no=no, via='model',
                        big=True))
    for s in (False, True):
        for ns, na, no in [(2, 2, 2)] + ([(3, 2, 2)] if tier == 'thorough' else []):
            out.append(Inst('again-%dx%dx%d%s' % (ns, na, no, '-smoothed' if s else ''), again,
                            ['a later posterior = normalised product'], ns=ns, na=na, no=no, smooth=s))
    out.append(Inst('again-sure-2x2x2-smoothed', again, ['a later posterior = normalised product'], ns=2, na=2, no=2,
                    smooth=True, sure=True))
    return out
