"""Dynamics of the generated collaboration models."""
from symex import arr as A

from . import collab, tasks
from .common import Inst

BOUNDS = ('all task trees of one level of up to 2 parts and fixed trees of 2 and 3 levels of up to 8 leaf '
          'occurrences (thorough: 12), after other conversions with the same and other options, unknown failure and refusal probabilities, probabilities of '
          'alternatives, durations (for one and two occurrences; fixed distinct ones beyond) and all flags.')
ASSUMPTIONS = ['durations are positive; leaves have distinct names; probabilities are in [0, 1]',
               'exp is any increasing positive function with value 1 at 0']
EPS = 1e-9      # of fixed durations
WAIT, PHY, AI, TI, AF = range(5)


class Setting(object):
    pass


def before_spec():
    s = tasks.parse('seq(., alt(., .))')
    s.given = s.children[1].given = True
    for x in s.children[1].children + s.children[:1]:
        x.given = False
    return s


def setup(w, spec, flags, symbolic, given, rewards=False):
    """The generated model and what it was made of."""
    mod = w.load(collab.T2P)
    w.share_terms()
    c = Setting()
    c.flags = flags
    n = len(spec.leaves())
    c.names = ['Do Part %d of THE whole Thing to do' % i for i in range(n)]
    if symbolic:
        pos = lambda nm: w.real(nm, 0.01, 1000)   # noqa: E731
        c.dur = [(pos('hum%d' % i), pos('rob%d' % i), pos('err%d' % i)) for i in range(n)]
        c.wait, c.ask, c.tell = pos('wait'), pos('ask'), pos('tell')
    else:
        c.dur = [(2. + i, 3.5 + i, 5.25 + 2 * i) for i in range(n)]
        c.wait, c.ask, c.tell = 1., 2.25, 1.75
    c.fail = [w.real('fail%d' % i, 0, 1) for i in range(n)]
    c.no = [w.real('no%d' % i, 0, 1) for i in range(n)]
    c.intr = w.real('intrinsic') if rewards else 0.5
    c.end_reward = w.real('end reward') if rewards else 10.
    c.subtask = (w.real('subtask reward') if rewards else 3.) if 'subtask' in flags else None
    probas = collab.alternatives(w, spec, given)
    # other conversions come before
    other = mod.HTMToPOMDP(3., 4., 5., intr_cost=6., end_reward=7., deterministic=True, structured=True, loop=True,
                           reward_state=len(flags) % 2 == 0, subtask_reward=8.)
    small = collab.task_of(w, before_spec(), lambda i: mod.CollaborativeAction(
        'Earlier %d' % i, (1., 2., 3.), fail_probability=.3, no_probability=.6), lambda s: [.25, .75])
    other.task_to_pomdp(small)
    acts = [mod.CollaborativeAction(c.names[i], c.dur[i], fail_probability=c.fail[i], no_probability=c.no[i])
            for i in range(n)]
    task = collab.task_of(w, spec, acts.__getitem__, probas)
    h2p = mod.HTMToPOMDP(c.wait, c.ask, c.tell, intr_cost=c.intr, end_reward=c.end_reward,
                         deterministic='deterministic' in flags, structured='structured' in flags,
                         loop='loop' in flags, reward_state='reward_state' in flags,
                         subtask_reward=c.subtask)
    h2p.task_to_pomdp(small)
    acts[0].fail_proba, acts[0].no_proba = .5, .125
    other.task_to_pomdp(task)
    h2p.task_to_pomdp(task)
    acts[0].fail_proba, acts[0].no_proba = c.fail[0], c.no[0]
    c.m = h2p.task_to_pomdp(task)
    w.check(all(a.name == c.names[i] and tuple(a.durations) == tuple(c.dur[i]) and a.fail_proba is c.fail[i] and
                a.no_proba is c.no[i] for i, a in enumerate(acts)), 'the task is left as it was')
    c.steps, c.entry = collab.steps_of(spec, probas)
    k = len(c.steps)
    c.index = {id(x): i for i, x in enumerate(c.steps)}
    c.n_s = 3 * k + 1 + ('reward_state' in flags)
    c.n_a = 4 * k + 1
    c.end = c.n_s - 1                   # last state
    c.done = 3 * k                      # entered after the last step
    c.durations = [c.wait]
    for x in c.steps:
        c.durations += [c.dur[x.leaf][2], c.ask, c.tell, c.ask]
    return c


def first(c, x):
    return c.done if x == 'end' else 3 * c.index[id(x)]


def shape(w, c):
    m = c.m
    names = []
    for x in c.steps:
        r = 'do-part-%d-of-the-whole-thing-to-do%s' % (x.leaf, ''.join('-order-%d' % i for i in x.suffix))
        names.append(r)
    want = [p + r for r in names for p in ('init-', 'H-', 'R-')]
    want += (['end-reward'] if 'reward_state' in c.flags else []) + ['end']
    w.check(list(m.states) == want, 'states are three per step and the end')
    want = ['wait'] + [p + r for r in names for p in ('phy-', 'com-ask-intention-', 'com-tell-intention-',
                                                      'com-ask-finished-')]
    w.check(list(m.actions) == want, 'actions are to wait and four per step')
    obs = ['none', 'yes', 'no', 'error'] + (['done'] if {'loop', 'reward_state'} & set(c.flags) else [])
    w.check(list(m.observations) == obs, 'observations are the documented ones')
    w.check(m.discount == 1, 'costs are not discounted')


def dynamics(w, text=None, level=None, flags=(), symbolic=False, given=True):
    spec = tasks.parse(text) if text else tasks.choose(w, level, 'top', leaf=True)
    if flags == 'any':
        flags = [f for f in ('deterministic', 'structured', 'loop', 'reward_state', 'subtask') if w.flag(f)]
    c = setup(w, spec, flags, symbolic, given)
    shape(w, c)
    m = c.m
    start = [0] * c.n_s
    for x, p in c.entry:
        start[first(c, x)] += p
    w.check_conj([w.eq(a, b) for a, b in zip(collab.entries(m.start), start)], 'tasks start at their first steps')
    T = collab.entries(m.T)
    det = 'deterministic' in c.flags
    for a in range(c.n_a):
        for s in range(c.n_s):
            want = [0] * c.n_s
            if s == c.end:
                label = 'the end stays or returns to the start'
                if 'loop' in c.flags:
                    want = start
                else:
                    want[s] = 1
            elif s == c.done:
                label = 'the reward state leads to the end'
                want[c.end] = 1
            else:
                x = c.steps[s // 3]
                own = (a - 1) % 4 + 1 if a and (a - 1) // 4 == s // 3 else None
                k = 3 * (s // 3)
                if s % 3 == 0:
                    label = 'intentions are asked or told'
                    if own == AI:
                        want[k + 1], want[k + 2] = 1 - c.no[x.leaf], c.no[x.leaf]
                    elif own == TI:
                        want[k + 2] = 1
                    else:
                        want[k] = 1
                else:
                    if s % 3 == 1:
                        label = 'the human finishes with time'
                        if det:
                            stay = 0 if own == AF else 1
                        else:
                            stay = A.s_exp(-c.durations[a] / c.dur[x.leaf][0])
                    else:
                        label = 'the robot succeeds unless it fails'
                        stay = c.fail[x.leaf] if own == PHY else 1
                    want[s] = stay
                    for y, p in x.next:
                        want[first(c, y)] += (1 - stay) * p
            w.check_conj([w.eq(p, q) for p, q in zip(T[a][s], want)], label)
            t = sum(T[a][s])
            w.check_conj([w.conj([w.le(-EPS, p), w.le(p, 1 + EPS)]) for p in T[a][s]] +
                         [w.le(1 - EPS, t), w.le(t, 1 + EPS)], 'next states are distributed properly')


def unknown_node(w):
    mod = w.load(tasks.TASK_MOD)
    for m in (collab.T2P, collab.BNX):
        h = w.load(m).HTMToPOMDP(*([1., 2., 3.] + ([['x']] if m == collab.BNX else [])))
        t = mod.HierarchicalTask(mod.Combination([], name='x'))
        w.expect_raises(ValueError, lambda: h.task_to_pomdp(t), 'unknown combinations are refused')


FIXED = ['seq(., alt(., .))', 'alt(., alt(., .), .)', 'seq(alt(., alt(., .)), par(., .))', 'par(seq(., .), .)',
         'seq(par(., .), .)', 'alt(seq(., .), .)', 'seq(., seq(., .), .)']
LABELS = ['next states are distributed properly', 'intentions are asked or told', 'the human finishes with time',
          'the robot succeeds unless it fails', 'the end stays or returns to the start',
          'tasks start at their first steps']


def instances(tier):
    th = tier == 'thorough'
    out = [Inst('one-any-flags', dynamics, LABELS, text='.', flags='any', symbolic=True),
           Inst('two-any-flags', dynamics, LABELS, text='seq(., .)', flags='any'),
           Inst('two-symbolic', dynamics, LABELS, text='seq(., .)', symbolic=True),
           Inst('alternatives-symbolic', dynamics, LABELS, text='alt(., .)', symbolic=True, flags=('loop',)),
           Inst('one-level', dynamics, LABELS, level=(2,)),
           Inst('one-level-loop', dynamics, LABELS, level=(2,), flags=('loop', 'reward_state'), given=False),
           Inst('unknown', unknown_node, ['unknown combinations are refused'])]
    F = [(), ('deterministic',), ('loop',), ('deterministic', 'loop'), ('reward_state',), ('loop', 'reward_state'),
         ('deterministic', 'reward_state', 'subtask', 'structured')]
    for i, t in enumerate(FIXED):
        for j, f in enumerate(F if th else [F[i % 7], F[(i + 1) % 7]]):
            out.append(Inst('fixed-%d-%s' % (i, '+'.join(f)), dynamics, LABELS, text=t, flags=f))
    BIG = ['par(., ., .)', 'alt(par(., .), seq(., par(., .)))', 'seq(par(., .), par(., .), .)']
    for i, t in enumerate(BIG):
        for f in F[:3] if th else [F[0]] if i else []:
            out.append(Inst('big-%d-%s' % (i, '+'.join(f)), dynamics, LABELS, text=t, flags=f))
    WIDE = ['seq(., ., ., ., .)', 'seq(., alt(., ., .), .)', 'seq(., ., ., ., ., ., alt(., .))', 'alt(., ., ., ., ., .)']
    for i, t in enumerate(WIDE):
        for f in F[:3] if th else [F[2 * i % 4]]:
            out.append(Inst('wide-%d-%s' % (i, '+'.join(f)), dynamics, LABELS, text=t, flags=f))
    if th:
        out.append(Inst('two-levels', dynamics, LABELS, level=(2, 1), flags='any'))
    return out
