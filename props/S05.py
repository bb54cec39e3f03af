"""Start states and action tables of the supportive model."""
from . import tasks
from .common import Inst
from .S03 import flips, read, model

MOD = 'task_models.supportive'
BOUNDS = ('tasks of 1 to 3 leaves with up to 2 conditions each of unknown kind on objects chosen in every '
          'way among 3, plus the tasks of S03; unknown start rates and preference probabilities in [0, 1] '
          'for 1 and 2 preferences; with another model of the class built before or after; the exact law of the start state.')
ASSUMPTIONS = []


def start(w, task, prefs, zero=None):
    m, t = model(w, task, {} if zero is None else {'p_changed_by_human': zero}, prefs)
    ps = [w.real('pref%d' % i, 0, 1) for i in range(prefs)]
    m.p_preferences = ps
    want = {}
    init = list(m.htm_init)
    for h in init:
        for x, objs in flips([0] * len(m.objects), m.p_changed_by_human):
            todo = [(x, ())]
            for p in ps:
                todo = [(y * q, v + (b,)) for y, v in todo for q, b in ((p, 1), (1 - p, 0))]
            for y, v in todo:
                k = (h, v, (0,), objs)
                want[k] = want.get(k, 0) + y * (1. / len(init))
    got = {}
    for wt, s in w.law(lambda: m.sample_start()):
        w.check(0 <= int(s) < m.n_states, 'start states are states')
        k = read(m, int(s)).key()
        got[k] = got.get(k, 0) + wt
    for k in set(want) | set(got):
        w.check(w.eq(got.get(k, 0), want.get(k, 0)), 'the law of the start state', info=str(k))


def initial(w, text):
    """The initial steps are the first steps of the executions."""
    mod, tm = w.load(MOD), w.load(tasks.TASK_MOD)
    spec = tasks.parse(text)

    def action(i):
        a = mod.SupportedAction('act-%d' % i)
        a.hold, a.conditions = None, []
        return a
    m = mod.SupportivePOMDP(tasks.build(tm, spec, action))
    m.p_changed_by_human = 0.
    m.p_preferences = [0.]
    first = sorted(e[0] for e in tasks.executions(spec))
    got = {}
    n = 0
    for wt, s in w.law(lambda: m.sample_start()):
        i = int(tasks.base(m.htm_nodes[read(m, int(s)).htm].action.name).split('-')[1])
        got[i] = got.get(i, 0) + wt
    nodes = [int(tasks.base(m.htm_nodes[h].action.name).split('-')[1]) for h in m.htm_init]
    for i in set(first) | set(got):
        w.check(w.eq(got.get(i, 0), nodes.count(i) / float(len(nodes))), 'start steps are drawn uniformly')
    w.check(set(got) == set(first), 'start steps are the first steps of executions')


def tables(w, leaves, n_cond, prefs=1, many=False):
    mod, tm = w.load(MOD), w.load(tasks.TASK_MOD)
    names = ['x', 'y', 'z'] if not many else ['leg', 'Leg', 'leg ', 'top-1', 'clear leg', '', 'bring']
    conds = []
    used = 0
    for i in range(leaves):
        cs = []
        for j in range(w.pick('n%d' % i, list(range(n_cond[i] + 1))) if not many else n_cond[i]):
            # objects are numbered by first use
            o = w.pick('o%d_%d' % (i, j), list(range(min(used + 1, 3)))) if not many else min(used, 6)
            used = max(used, o + 1)
            cs.append((w.int('c%d_%d' % (i, j), 0, 2) if not many or (i + j) % 2 else (i + j) % 3, names[o]))
        conds.append(cs)

    def action(i):
        a = mod.SupportedAction('act-%d' % i)
        a.hold, a.conditions = None, conds[i]
        return a

    class M(mod.SupportivePOMDP):
        preferences = ['hold', 'other'][:prefs]
    def other(name):
        a = mod.SupportedAction(name)
        a.hold, a.conditions = 'h', [(mod.USES, 'z'), (mod.CONSUMES, 'w'), (mod.USES, 'x')]
        return M(tm.SequentialCombination([tm.LeafCombination(a)], name='U'))
    when = w.pick('another model', ['no', 'before', 'after']) if leaves < 3 else 'no'
    if when == 'before':
        other('before')
    m = M(tm.SequentialCombination([tm.LeafCombination(action(i)) for i in range(leaves)], name='T'),
          discount=w.real('discount', 0, 1))
    if when == 'after':
        other('after')
    seen = [o for o in names if any(o == x for cs in conds for _, x in cs)]
    w.check(sorted(m.objects) == sorted(seen), 'objects are those of the conditions')
    clear = {}
    for o in seen:
        # used, or possibly not consumed
        c = w.disj([w.disj([w.eq(k, mod.USES), w.eq(k, mod.CONSUMES_SOME)]) for cs in conds for k, x in cs
                    if x == o])
        clear[o] = bool(c)
    want = ['wait', 'hold H', 'hold V', 'ask hold']
    for o in m.objects:
        want += ['bring ' + o] + (['clear ' + o] if clear[o] else [])
    w.check(sorted(m.actions) == sorted(want), 'actions are those of the objects',
            info='%s instead of %s' % (m.actions, want))
    w.check(m.n_actions == len(want), 'the number of actions is that of their names')
    w.check(m.n_states == (leaves + 2) * 2 ** (prefs + 1 + len(seen)), 'the number of states')
    w.check(m.n_observations == len(m.observations) == 5, 'the number of observations')
    w.check(list(m.features) == ['HTM'] + ['%s-preference' % p for p in m.preferences] + ['holding'] +
            list(m.objects), 'features are named in order')
    for a, n in enumerate(m.actions):
        if n.split(' ')[0] not in ('bring', 'clear'):
            continue
        verb, o = n.split(' ', 1)
        k = list(m.objects).index(o)
        s = m._int_to_state(0)
        if verb == 'clear':
            for i in range(len(m.objects)):
                s.set_object(i, 1)
        [(wt, (ns, obs, r))] = w.law(lambda: m.sample_transition(a, s.to_int(), random=False))
        after = read(m, int(ns)).objs
        w.check(m.observations[obs] == 'none' and
                all(b == ((i == k) if verb == 'bring' else (i != k)) for i, b in enumerate(after)),
                'object actions act on the object they name')
    for k in range(len(m.objects)):
        w.check(m.actions[m._bring(k)] == 'bring ' + m.objects[k], 'the action tables agree')
        w.check(m._obj_from_action(m._bring(k)) == k and m._is_bring(m._bring(k)), 'the action tables agree')
        if clear[m.objects[k]]:
            w.check(m.actions[m._clear(k)] == 'clear ' + m.objects[k], 'the action tables agree')
            w.check(m._obj_from_action(m._clear(k)) == k and not m._is_bring(m._clear(k)),
                    'the action tables agree')
        else:
            w.expect_raises(ValueError, lambda: m._clear(k), 'objects that are not cleared have no action')


def instances(tier):
    th = tier == 'thorough'
    out = []
    for t, p in (('one', 1), ('one', 2), ('bare', 1), ('alt', 1), ('par', 2), ('three', 1)):
        out.append(Inst('start-%s-%d' % (t, p), start, ['the law of the start state'], task=t, prefs=p))
    for z in (0., 1.):
        out.append(Inst('start-%d' % z, start, ['the law of the start state'], task='one', prefs=1, zero=z))
    for k, t in enumerate(['seq(., .)', 'alt(., ., .)', 'par(., seq(., .), .)', 'alt(seq(., .), par(., .))',
                           'seq(alt(., .), .)', 'alt(., par(., .), ., seq(., .), .)']):
        out.append(Inst('initial-%d' % k, initial, ['start steps are drawn uniformly',
                                                    'start steps are the first steps of executions'], text=t))
    out.append(Inst('start-wide', start, ['the law of the start state'], task='wide', prefs=1))
    T = ['actions are those of the objects', 'the number of actions is that of their names',
         'object actions act on the object they name', 'the action tables agree']
    out.append(Inst('tables-2', tables, T, leaves=2, n_cond=(2, 1)))
    out.append(Inst('tables-many', tables, T, leaves=4, n_cond=(2, 2, 1, 2), many=True))
    out.append(Inst('tables-3', tables, T, leaves=3, n_cond=(1, 1, 1), prefs=2))
    if th:
        out.append(Inst('tables-2-2', tables, T, leaves=2, n_cond=(2, 2)))
        out.append(Inst('tables-3-2', tables, T, leaves=3, n_cond=(2, 1, 1)))
    return out
