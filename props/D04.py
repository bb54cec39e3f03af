"""The hold-and-release model."""
from . import collab
from .common import Inst

MOD = 'task_models.hold_and_release'
BOUNDS = 'the whole model for every probability and every cost.'
ASSUMPTIONS = ['the probability of finishing is in [0, 1]']
WAIT, ACT, COM = range(3)


def model(w, default=False):
    cw, cf, cc = w.real('wait'), w.real('failure'), w.real('communication')
    p = .2 if default else w.real('p', 0, 1)
    mod = w.load(MOD)
    m = mod.hold_and_release_pomdp(cw, cf, cc) if default else mod.hold_and_release_pomdp(cw, cf, cc, proba_finish=p)
    w.check(list(m.actions) == ['wait', 'physical', 'communicate'] and list(m.states) == ['zero', 'one', 'final'] and
            list(m.observations) == ['nothing', 'doing', 'done'] and m.discount == 1, 'the model is as documented')
    T, O, R = collab.entries(m.T), collab.entries(m.O), collab.entries(m.R)
    w.check_conj([w.eq(x, y) for x, y in zip(collab.entries(m.start), [1, 0, 0])], 'the human starts working')
    for a in range(3):
        want = [[1 - p, p, 0], [0, 0, 1] if a == ACT else [0, 1, 0], [0, 0, 1]]
        for s, label in enumerate(['the human finishes with the given probability', 'acting is needed to go on',
                                   'the end stays']):
            w.check_conj([w.eq(x, y) for x, y in zip(T[a][s], want[s])], label)
            w.check_conj([w.conj([w.le(0, x), w.le(x, 1)]) for x in T[a][s]] + [w.eq(sum(T[a][s]), 1)],
                         'probabilities are proper')
        for t in range(3):
            o = 0 if a == WAIT else [1, 2, 0][t]
            w.check_conj([w.eq(x, int(i == o)) for i, x in enumerate(O[a][t])], 'progress is observed unless waiting')
        for s in range(3):
            cost = cw if a == WAIT else cc if a == COM else cf if s == 0 else 0
            label = 'only acting too early costs the failure' if a == ACT else 'waiting and asking have their cost'
            w.check_conj([w.eq(-r, cost) for t in range(3) for r in R[a][s][t]], label)


def instances(tier):
    L = ['the human finishes with the given probability', 'acting is needed to go on', 'the end stays',
         'probabilities are proper', 'progress is observed unless waiting', 'only acting too early costs the failure']
    return [Inst('any', model, L), Inst('default', model, L, default=True)]
