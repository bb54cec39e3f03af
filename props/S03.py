"""Law of supportive transitions."""
import itertools

from symex import engine as E

from . import tasks
from .common import Inst

MOD = 'task_models.supportive'
BOUNDS = ('every state and action of supportive models of seven tasks (1 to 4 leaves, 0 to 3 or 8 objects, 1 or 2 '
          'preferences, sequences, alternatives and parallel parts, all kinds of conditions, the same '
          'object in several conditions of a step), with unknown rates in (0, 1) or equal to 0 or 1, '
          'unknown rewards and costs; the exact law over all outcomes of all draws; random and '
          'non-random calls, rewards dependent or not on the preference.')
ASSUMPTIONS = ['rates of answers and of failing undesired holds are those of the code (0.98, 0.9, 0.95)']

USES, CONSUMES, SOME = 'uses', 'consumes', 'some'


class Task(object):
    def __init__(self, text, leaves, succs, init, objects):
        """leaves: (hold, [(condition, object)]); succs by leaf after expansion."""
        self.text, self.leaves, self.succs, self.init, self.objects = text, leaves, succs, init, objects


TASKS = {
    'one': Task('.', [('h', [(USES, 'x'), (CONSUMES, 'y')])], None, None, ['x', 'y']),
    'bare': Task('seq(., .)', [(None, []), ('v', [])], None, None, []),
    'seq': Task('seq(., .)', [('h', [(USES, 'x'), (USES, 'y')]), ('v', [(CONSUMES, 'x'), (SOME, 'y')])],
                None, None, ['x', 'y']),
    'alt': Task('seq(., alt(., .))', [(None, [(SOME, 'x')]), ('h', [(CONSUMES, 'x'), (USES, 'x')]),
                                      ('v', [])], None, None, ['x']),
    'three': Task('seq(., .)', [('h', [(USES, 'a'), (CONSUMES, 'b'), (SOME, 'c')]), (None, [(CONSUMES, 'c')])],
                  None, None, ['a', 'b', 'c']),
    'many': Task('seq(., ., .)', [('h', [(USES, 'a'), (SOME, 'b'), (USES, 'c'), (CONSUMES, 'd'), (USES, 'e'), (SOME, 'f')]),
                                  ('v', [(USES, 'g'), (USES, 'a'), (SOME, 'h')]), (None, [])], None, None, list('abcdefgh')),
    'wide': Task('alt(., ., ., seq(., .), .)', [(None, [(USES, 'x')])] + [('h', [])] * 5, None, None, ['x']),
    'par': Task('par(., .)', [('h', [(CONSUMES, 'x')]), ('v', [])], None, None, ['x']),
}


def model(w, name, rates, prefs=1, independent=False):
    mod = w.load(MOD)
    tm = w.load(tasks.TASK_MOD)
    t = TASKS[name]
    kinds = {USES: mod.USES, CONSUMES: mod.CONSUMES, SOME: mod.CONSUMES_SOME}

    def action(i):
        a = mod.SupportedAction('act-%d' % i)
        a.hold, conds = t.leaves[i]
        a.conditions = [(kinds[c], o) for c, o in conds]
        return a

    class M(mod.SupportivePOMDP):
        preferences = ['hold', 'other'][:prefs]
        p_preferences = [.3, .4][:prefs]
    m = M(tm.HierarchicalTask(tasks.build(tm, tasks.parse(t.text), action)).root, discount=.9)
    for n in ('p_fail', 'p_consume_all', 'p_changed_by_human', 'p_change_preference'):
        v = rates.get(n, 'in')
        if v == 'in':
            v = w.real(n, 0, 1)
            w.assume(w.conj([0 < v, v < 1]))
        setattr(m, n, v)
    for n in ('r_subtask', 'r_final', 'r_preference', 'cost_get', 'cost_intrinsic', 'cost_hold'):
        setattr(m, n, w.real(n))
    m.reward_independent_preference = independent
    return m, t


def split(draws, p, x):
    """[(weight, value)]: x with probability p."""
    return [(p, True), (1 - p, False)]


class State(object):

    def __init__(self, htm, prefs, body, objs):
        self.htm, self.prefs, self.body, self.objs = htm, tuple(prefs), tuple(body), tuple(objs)

    def key(self):
        return (self.htm, self.prefs, self.body, self.objs)

    def with_obj(self, i, v):
        o = list(self.objs)
        o[i] = v
        return State(self.htm, self.prefs, self.body, o)


def read(m, s):
    _s = m._int_to_state(s)
    return State(int(_s.htm), [int(_s.has_preference(i)) for i in range(len(m.preferences))],
                 [int(_s.has_body_feature(0))], [int(_s.has_object(i)) for i in range(len(m.objects))])


def flips(bits, p):
    """Every outcome of independent flips."""
    out = [(1, ())]
    for b in bits:
        nxt = []
        for wt, done in out:
            if not E.is_zero(p):
                nxt.append((wt * p, done + (1 - b,)))
            if not E.is_one(p):
                nxt.append((wt * (1 - p), done + (b,)))
        out = nxt
    return out


def chance(p):
    return [(wt, v) for wt, v in ((p, True), (1 - p, False)) if not E.is_zero(wt)]


def expected(m, t, a, st, random):
    """The documented law: [(weight, (state, observation, reward))]."""
    out = []
    if random:
        starts = [(x * y, State(st.htm, pr, st.body, ob)) for x, ob in flips(st.objs, m.p_changed_by_human)
                  for y, pr in flips(st.prefs, m.p_change_preference)]
    else:
        starts = [(1, st)]
    names = list(m.objects)
    n = len(m.htm_nodes)
    clean, final = n, n + 1
    an = m.actions[a]
    for wt, s in starts:
        if an in ('wait', 'hold H', 'hold V'):
            hold = an != 'wait'
            r = -m.cost_hold if hold else 0
            if s.htm == final:
                out.append((wt, s, 'none', r))
            elif s.htm == clean:
                if hold:
                    out.append((wt, s, 'fail', r))
                else:
                    for o in s.objs:
                        if o:
                            r = r - m.cost_get
                    out.append((wt, State(final, s.prefs, s.body, s.objs), 'none', r + m.r_final))
            else:
                i = int(tasks.base(m.htm_nodes[s.htm].action.name).split('-')[1])
                need, conds = t.leaves[i]
                goes = [(1, True)]
                if hold and s.prefs[0] and {'h': 'hold H', 'v': 'hold V'}.get(need) == an:
                    r = r + m.r_preference
                elif hold:
                    goes = chance(.98) if random else [(1, True)]
                    goes = [(x, not v) for x, v in goes]
                for x, go in goes:
                    if not go:
                        out.append((wt * x, s, 'fail', r))
                        continue
                    rr = r + m.r_subtask
                    if m.reward_independent_preference and not s.prefs[0]:
                        rr = rr + m.r_preference - m.cost_hold
                    succ = list(m.htm_succs[s.htm])
                    for h in succ:
                        todo = [(wt * x * (1. / len(succ)), State(h, s.prefs, s.body, s.objs), rr)]
                        for c, o in conds:
                            k = names.index(o)
                            nxt = []
                            for y, q, v in todo:
                                if not q.objs[k]:
                                    v = v - m.cost_get
                                if c == CONSUMES:
                                    nxt.append((y, q.with_obj(k, 0), v))
                                elif c == USES:
                                    nxt.append((y, q.with_obj(k, 1), v))
                                else:
                                    for z, used in chance(m.p_consume_all):
                                        nxt.append((y * z, q.with_obj(k, 0 if used else 1), v))
                            todo = nxt
                        out += [(y, q, 'none', v) for y, q, v in todo]
        elif an == 'ask hold':
            p, o = (.9, 'yes') if s.prefs[0] else (.95, 'no')
            for x, v in (chance(p) if random else [(1, True)]):
                out.append((wt * x, s, o if v else 'none', -m.cost_intrinsic))
        else:
            verb, o = an.split(' ')
            k, v = names.index(o), int(verb == 'bring')
            if s.objs[k] == v:
                out.append((wt, s, 'not-found', -m.cost_intrinsic))
            else:
                for x, failed in (chance(m.p_fail) if random else [(1, False)]):
                    out.append((wt * x, s if failed else s.with_obj(k, v), 'fail' if failed else 'none',
                                -m.cost_intrinsic))
    return out


def same(w, a, b):
    c = w.eq(a, b)
    if isinstance(c, E.Sym):
        return E.z3.is_true(E.z3.simplify(E.zbool(c), som=True)) or E.proved_equal(a, b)
    return bool(c)


def transition(w, task, rates={}, prefs=1, independent=False, random=True, part=None, acts=(0, 1), sparse=False):
    m, t = model(w, task, rates, prefs, independent)
    a = w.pick('a', list(range(acts[0], m.n_actions, acts[1])))
    bits = prefs + 1 + len(m.objects)
    htm = w.pick('htm', list(range(m.n_htm_states)))
    code = htm
    if sparse:
        # objects are all there or all missing but for a few
        odd = w.pick('odd', [(), (0, 5), (1, 3, 4), (2, 6), (7,)])
        rest = w.pick('rest', [0, 1])
        for i in range(bits):
            j = bits - 1 - i
            code = 2 * code + (w.pick('bit%d' % i, [0, 1]) if i < prefs else 0 if i == prefs
                               else 1 - rest if j in odd else rest)
        bits = 0
    for i in range(bits):
        code = 2 * code + (0 if part is not None and i == prefs else w.pick('bit%d' % i, [0, 1]))
    st = read(m, code)
    w.check(st.htm == htm, 'states read as composed')
    before = m.n_simulator_calls
    f = (lambda: m.sample_transition(a, code)) if random else (
        lambda: m.sample_transition(a, code, random=False))
    got = w.law(f)
    w.check(m.n_simulator_calls == before + len(got), 'calls are counted')
    groups = {}       # (state, observation) -> [[reward, weight difference]]

    def add(key, r, wt):
        for g in groups.setdefault(key, []):
            if same(w, g[0], r):
                g[1] = g[1] + wt
                return
        groups[key].append([r, wt])
    for wt, (ns, o, r) in got:
        w.check(0 <= int(ns) < m.n_states and 0 <= int(o) < m.n_observations, 'outcomes are valid')
        add((read(m, int(ns)).key(), m.observations[int(o)]), r, wt)
    for wt, s, o, r in expected(m, t, a, st, random):
        add((s.key(), o), r, -wt)
    for k, gs in groups.items():
        for r, wt in gs:
            w.check(w.eq(wt, 0), 'the law of the transition is the documented one',
                    info='%s from %s: %s with reward %s' % (m.actions[a], st.key(), k, r))


def finals(w, task):
    m, t = model(w, task, {})
    s = w.pick('s', list(range(m.n_states)))
    w.check(bool(m.is_final(s)) == (read(m, s).htm == len(m.htm_nodes) + 1),
            'final states are those of the last task node')


def instances(tier):
    th = tier == 'thorough'
    L = ['the law of the transition is the documented one']
    out = []
    for n in ('one', 'bare', 'seq', 'alt', 'par'):
        out.append(Inst('law-' + n, transition, L, task=n, independent=n in ('one', 'par')))
    for k in range(4):
        out.insert(0, Inst('law-three-%d' % k, transition, L, task='three', part=None if th else 0, acts=(k, 4)))
        out.insert(0, Inst('law-prefs-%d' % k, transition, L, task='one', prefs=2, part=0, acts=(k, 4)))
    for v in (0, 1):
        r = {n: float(v) for n in ('p_fail', 'p_consume_all', 'p_changed_by_human', 'p_change_preference')}
        for n in ('one', 'seq', 'alt') + (('three',) if th else ()):
            out.append(Inst('law-%s-%d' % (n, v), transition, L, task=n, rates=r))
    for n in ('seq', 'alt', 'par'):
        out.append(Inst('fixed-' + n, transition, L, task=n, random=False, independent=n == 'seq'))
    quiet = {'p_changed_by_human': 0., 'p_change_preference': 0.}
    for k in range(4):
        out.insert(0, Inst('law-many-%d' % k, transition, L, task='many', rates=quiet, sparse=True, acts=(k, 4)))
    out.append(Inst('fixed-sure', transition, L, task='one', random=False, rates={n: 1. for n in (
        'p_fail', 'p_changed_by_human', 'p_change_preference')}))
    out.append(Inst('final', finals, ['final states are those of the last task node'], task='seq'))
    return out
