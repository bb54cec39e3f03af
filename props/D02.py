"""Observations and costs of the generated collaboration models."""
from . import collab, tasks
from .common import Inst
from .D01 import AF, AI, FIXED, PHY, TI, first, setup, shape

BOUNDS = ('all task trees of one level of up to 2 parts and fixed trees of 2 and 3 levels of up to 8 leaf '
          'occurrences (thorough: 12), after other conversions with the same and other options, unknown durations, costs and rewards and all flags.')
ASSUMPTIONS = ['durations are positive; leaves have distinct names',
               'in structured models the cost of telling the intention of a step out of that step is not judged']
NONE, YES, NO, ERR, DONE = range(5)


def measures(w, text=None, level=None, flags=(), symbolic=False):
    spec = tasks.parse(text) if text else tasks.choose(w, level, 'top', leaf=True)
    if flags == 'any':
        flags = [f for f in ('deterministic', 'structured', 'loop', 'reward_state', 'subtask') if w.flag(f)]
    c = setup(w, spec, flags, symbolic, False, rewards=True)
    shape(w, c)
    O, R = collab.entries(c.m.O), collab.entries(c.m.R)
    n_o = len(c.m.observations)
    st, det = 'structured' in c.flags, 'deterministic' in c.flags
    rs, loop = 'reward_state' in c.flags, 'loop' in c.flags
    for a in range(c.n_a):
        x = c.steps[(a - 1) // 4] if a else None
        own = (a - 1) % 4 + 1 if a else None
        for s in range(c.n_s):
            k = 3 * c.index[id(x)] if x else None
            nxt = {first(c, y) for y, _ in x.next} if x else ()
            if s == c.end and rs:
                o, label = NONE, 'nothing is observed after the reward'
            elif s == c.done and (rs or loop):
                o, label = DONE, 'the end is observed'
            elif a == 0:
                o, label = NONE, 'nothing is observed on wait'
            elif own == PHY:
                o, label = NONE if s in nxt else ERR, 'physical errors are observed'
            elif own == AI:
                o = YES if s == k + 1 else NO if s == k + 2 else ERR if st else NONE
                label = 'intentions are answered'
            elif own == TI:
                o, label = ERR if st and s != k + 2 else NONE, 'telling is not answered'
            elif det:
                o, label = YES if s in nxt else NO if s == k + 1 else ERR, 'questions about the end are answered'
            else:
                after = {c.done} | {3 * c.index[id(y)] + j for y in x.after for j in range(3)}
                o, label = YES if s in after else NO, 'questions about the end are answered'
            w.check_conj([w.eq(O[a][s][i], int(i == o)) for i in range(n_o)], label)
    for a in range(c.n_a):
        own = (a - 1) % 4 + 1 if a else None
        conds = {}
        for s in range(c.n_s):
            for t in range(c.n_s):
                if s == c.end:
                    label = 'the end costs the intrinsic cost or is rewarded'
                    cost = c.intr if a else 0 if rs else -c.end_reward
                elif s == c.done:
                    label = 'only waiting is rewarded'
                    cost = c.intr if a else -c.end_reward
                else:
                    x = c.steps[s // 3]
                    mine = a and (a - 1) // 4 == s // 3
                    label = 'actions cost their duration and the intrinsic cost'
                    cost = c.durations[a] + (c.intr if a else 0)
                    if mine and own == PHY and s % 3 == 2:
                        cost = c.dur[x.leaf][1] + c.intr
                        label = 'robot actions cost their own duration'
                    if st and own == TI:
                        if not mine:
                            continue
                        label = 'wrong telling is costly in structured models'
                        cost = c.tell + c.intr if s % 3 == 0 and t in (s + 1, s + 2) else 100
                    if 'subtask' in c.flags and t // 3 != s // 3:
                        cost = cost - c.subtask
                conds.setdefault(label, []).extend(w.eq(-r, cost) for r in R[a][s][t])
        for label in conds:
            w.check_conj(conds[label], label)


LABELS = ['nothing is observed on wait', 'physical errors are observed', 'intentions are answered',
          'questions about the end are answered', 'actions cost their duration and the intrinsic cost',
          'robot actions cost their own duration', 'the end costs the intrinsic cost or is rewarded']


def instances(tier):
    th = tier == 'thorough'
    out = [Inst('one-any-flags', measures, LABELS, text='.', flags='any', symbolic=True),
           Inst('two-any-flags', measures, LABELS, text='seq(., .)', flags='any'),
           Inst('two-symbolic', measures, LABELS, text='seq(., .)', symbolic=True),
           Inst('one-level', measures, LABELS, level=(2,)),
           Inst('one-level-loop', measures, LABELS, level=(2,), flags=('loop', 'reward_state'))]
    F = [(), ('deterministic',), ('loop', 'subtask'), ('deterministic', 'loop'), ('reward_state', 'subtask'),
         ('loop', 'reward_state', 'structured'), ('deterministic', 'reward_state', 'subtask', 'structured')]
    for i, t in enumerate(FIXED if th else FIXED[:2] + ['seq(alt(., .), par(., .))'] + FIXED[3:]):
        for j, f in enumerate(F if th else [F[i % 7], F[(i + 3) % 7]]):
            out.append(Inst('fixed-%d-%s' % (i, '+'.join(f)), measures, LABELS, text=t, flags=f))
    for i, t in enumerate(['seq(., ., ., ., .)', 'seq(., alt(., ., .), .)', 'seq(., ., ., ., ., ., alt(., .))']):
        for f in F if th else [F[3 * i % 6]]:
            out.append(Inst('wide-%d-%s' % (i, '+'.join(f)), measures, LABELS, text=t, flags=f))
    if th:
        for i, t in enumerate(['par(., ., .)', 'alt(par(., .), seq(., par(., .)))', 'seq(par(., .), par(., .), .)']):
            for f in F[1:3]:
                out.append(Inst('big-%d-%s' % (i, '+'.join(f)), measures, LABELS, text=t, flags=f))
        out.append(Inst('two-levels', measures, LABELS, level=(2, 1), flags='any'))
    return out
