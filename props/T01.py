"""Paths of task graphs."""
from .common import Inst

MOD = 'task_models.task'
BOUNDS = ('paths of up to 5 elements (thorough 7) of any types at any place over 1- and 2-feature states and '
          'pre/post actions with unknown masks and values, and of up to 4 or 24 (thorough 6, 40) actions of unknown verdict; histories '
          'of up to 2 added paths (thorough 3), invalid ones included, of up to 3 states of one unknown feature '
          'and 2 or 3 actions, queried with any path of up to 3 states; 14 (thorough 30) ways out of one state.')
ASSUMPTIONS = ['paths are lists; masks are 0/1 arrays and masked values are zero, as Condition demands']


def modules(w):
    return w.load(MOD), w.load('task_models.state'), w.load('task_models.action')


def cond(w, act, name, n):
    if w.flag(name + 'any'):
        return act.MatchAllCondition(), lambda f: True
    m = [w.int('%smask%d' % (name, i), 0, 1) for i in range(n)]
    v = [w.ite(w.eq(m[i], 1), w.real('%sv%d' % (name, i)), 0) for i in range(n)]
    c = act.Condition(w.array(m), w.array(v))
    return c, lambda f: w.conj([w.disj([w.eq(m[i], 0), w.eq(f[i], v[i])]) for i in range(n)])


def fresh(w, tg):
    """What is observable of a task graph."""
    return ({s: set(t) for s, t in tg.transitions.items() if t}, set(tg.initial), set(tg.terminal))


def validity(w, length, n):
    task, st, act = modules(w)
    w.cheap_hash()
    k = w.pick('length', list(range(length + 1)))
    path, kinds = [], []
    for i in range(k):
        # mostly the right kind, one place may be anything
        kinds.append('sa'[i % 2])
    if k:
        bad = w.pick('odd place', [None] + list(range(k)))
        if bad is not None:
            kinds[bad] = w.pick('odd kind', [x for x in 'saxn' if x != kinds[bad]])
    feats, conds = {}, {}
    for i, kd in enumerate(kinds):
        if kd == 's':
            feats[i] = w.reals('f%d.' % i, n)
            path.append(st.NDimensionalState(w.array(feats[i])))
        elif kd == 'a':
            pre, fp = cond(w, act, 'pre%d' % i, n)
            post, fq = cond(w, act, 'post%d' % i, n)
            path.append(act.PrePostConditionAction(pre, post))
            conds[i] = (fp, fq)
        else:
            path.append('other' if kd == 'x' else None)
    want = kinds == ['sa'[i % 2] for i in range(k)] and (k == 0 or k % 2 == 1)
    if want:
        want = w.conj([w.conj([conds[i][0](feats[i - 1]), conds[i][1](feats[i + 1])])
                       for i in range(1, k, 2)])
    got = bool(task.check_path(path))
    w.check(want if got else w.neg(want), 'valid paths are the admissible ones')
    tg = task.TaskGraph()
    for f in (tg.add_path, tg.has_path):
        try:
            f(list(path))
            ok = True
        except ValueError:
            ok = False
        w.check(ok == got, 'invalid paths are refused')
    if not got:
        w.check(fresh(w, tg) == ({}, set(), set()), 'a refused path changes nothing')
    else:
        w.check(bool(tg.has_path(path)), 'added paths are contained')


def verdicts(w, n, k=None):
    """Actions with unknown verdicts: each is about its own transition."""
    task, st, act = modules(w)
    w.cheap_hash()

    class Any(act.Action):
        def __init__(self, i):
            act.Action.__init__(self, 'act%d' % i)
            self.verdict, self.seen = w.bool('verdict%d' % i), []

        def check(self, pre, post):
            self.seen.append((pre, post))
            return self.verdict
    k = w.pick('transitions', list(range(1, n + 1))) if k is None else k
    states = [st.NDimensionalState(w.array([float(i)])) for i in range(k + 1)]
    acts = [Any(i) for i in range(k)]
    path = [states[0]]
    for a, s in zip(acts, states[1:]):
        path += [a, s]
    got = bool(task.check_path(path))
    w.check(all(p is states[i] and q is states[i + 1] for i, a in enumerate(acts) for p, q in a.seen),
            'actions judge their own transition')
    want = w.conj([a.verdict for a in acts])
    w.check(want if got else w.neg(want), 'valid paths are the admissible ones')
    tg = task.TaskGraph()
    if not got:
        w.expect_raises(ValueError, lambda: tg.add_path(path), 'invalid paths are refused')
        w.check(fresh(w, tg) == ({}, set(), set()), 'a refused path changes nothing')
        return
    tg.add_path(path)
    w.check(fresh(w, tg) == ({s: {(a, d)} for s, a, d in zip(states, acts, states[1:])}, {states[0]},
                             {states[-1]}), 'a graph has the transitions added to it')
    w.check(bool(tg.has_path(path)), 'added paths are contained')
    if k > 1:
        i = w.pick('gap', list(range(k)))
        tg.remove_transition(states[i], acts[i], states[i + 1])
        w.check(not tg.has_path(path), 'contained paths are the ones made of added transitions')


def membership(w, added, length, states, acts, invalid=False):
    task, st, act = modules(w)
    w.cheap_hash()
    pool_a = [act.PrePostConditionAction(act.MatchAllCondition(), act.MatchAllCondition()),
              act.PrePostConditionAction(act.MatchAllCondition(), act.Condition(
                  w.array([1.]), w.array([2.]))),
              act.PrePostConditionAction(act.Condition(w.array([1.]), w.array([0.])), act.MatchAllCondition())]

    def a_path(tag, ks):
        k = w.pick(tag + 'length', ks)
        fs = [w.int('%sf%d' % (tag, i), 0, states - 1).__index__() for i in range(k + 1)] if k >= 0 else []
        ai = [w.int('%sa%d' % (tag, i), 0, acts - 1).__index__() for i in range(k)]
        p, ok = [], True
        for i, f in enumerate(fs):
            p.append(st.NDimensionalState(w.array([float(f)])))
            if i < k:
                p.append(pool_a[ai[i]])
                ok = ok and not (ai[i] == 1 and fs[i + 1] != 2) and not (ai[i] == 2 and f != 0)
        return p, fs, ai, ok
    tg = task.TaskGraph()
    init, term, trans = set(), set(), set()
    for j, ks in enumerate(added):
        p, fs, ai, ok = a_path('p%d' % j, ks)
        if not ok:
            before = fresh(w, tg)
            w.expect_raises(ValueError, lambda: tg.add_path(p), 'invalid paths are refused')
            w.check(fresh(w, tg) == before, 'a refused path changes nothing')
            continue
        tg.add_path(p)
        if fs:
            init.add(fs[0])
            term.add(fs[-1])
        trans |= {(fs[i], ai[i], fs[i + 1]) for i in range(len(ai))}
    q, fs, ai, ok = a_path('q', length)
    if not ok:
        before = fresh(w, tg)
        w.expect_raises(ValueError, lambda: tg.has_path(q), 'invalid paths are refused')
        w.check(fresh(w, tg) == before, 'a refused path changes nothing')
        return
    want = not fs or (fs[0] in init and fs[-1] in term and
                      all((fs[i], ai[i], fs[i + 1]) in trans for i in range(len(ai))))
    before = fresh(w, tg)
    w.check(bool(tg.has_path(q)) == want, 'contained paths are the ones made of added transitions')
    w.check(fresh(w, tg) == before, 'asking changes nothing')


def symbolic_states(w, added, length):
    """States of unknown features: equal states are one state."""
    task, st, act = modules(w)
    w.cheap_hash()
    pool = [act.PrePostConditionAction(act.MatchAllCondition(), act.MatchAllCondition()),
            act.PrePostConditionAction(act.MatchAllCondition(), act.Condition(w.array([0.]), w.array([0.])))]

    def a_path(tag, k):
        fs = w.reals(tag, k + 1)
        ai = [w.int('%sa%d' % (tag, i), 0, 1).__index__() for i in range(k)]
        p = [st.NDimensionalState(w.array([fs[0]]))]
        for i, f in zip(ai, fs[1:]):
            p += [pool[i], st.NDimensionalState(w.array([f]))]
        return p, fs, ai
    tg = task.TaskGraph()
    init, term, trans = [], [], []
    for j, k in enumerate(added):
        p, fs, ai = a_path('p%d.' % j, k)
        tg.add_path(p)
        init.append(fs[0])
        term.append(fs[-1])
        trans += list(zip(fs, ai, fs[1:]))
    q, fs, ai = a_path('q', length)
    want = w.conj([w.disj([w.eq(fs[0], x) for x in init]), w.disj([w.eq(fs[-1], x) for x in term])] +
                  [w.disj([w.conj([w.eq(x, s), w.eq(y, d)]) for s, b, d in trans if b == a] or [False])
                   for x, a, y in zip(fs, ai, fs[1:])])
    got = bool(tg.has_path(q))
    w.check(want if got else w.neg(want), 'contained paths are the ones made of added transitions')


def wide(w, n):
    """Many ways out of one state."""
    task, st, act = modules(w)
    w.cheap_hash()
    go = [act.PrePostConditionAction(act.MatchAllCondition(), act.MatchAllCondition(), name=x) for x in 'ab']
    pre = act.PrePostConditionAction(act.Condition(w.array([1.]), w.array([7.])), act.MatchAllCondition())
    go = [pre, go[1]]
    f = w.reals('f', n + 1)
    for i, v in enumerate(f):
        w.assume(w.eq(v, i))
    s0 = st.NDimensionalState(w.array([f[7]]))
    tg = task.TaskGraph()
    for i in range(n):
        tg.add_path([s0, go[i % 2], st.NDimensionalState(w.array([f[i]]))])
    x, a = w.real('x'), w.pick('action', [0, 1])
    got = bool(tg.has_path([s0, go[a], st.NDimensionalState(w.array([x]))]))
    want = w.disj([w.eq(x, i) for i in range(n) if i % 2 == a])
    w.check(want if got else w.neg(want), 'contained paths are the ones made of added transitions')


def instances(tier):
    th = tier == 'thorough'
    V = ['valid paths are the admissible ones', 'invalid paths are refused', 'a refused path changes nothing']
    C = ['contained paths are the ones made of added transitions']
    out = [Inst('validity-1', validity, V, length=7 if th else 5, n=1),
           Inst('validity-2', validity, V, length=5 if th else 3, n=2),
           Inst('verdicts', verdicts, ['valid paths are the admissible ones'], n=6 if th else 4),
           Inst('verdicts-long', verdicts, ['valid paths are the admissible ones'], n=0, k=40 if th else 24),
           Inst('wide', wide, C, n=30 if th else 14),
           Inst('member-1', membership, C, added=[(-1, 0, 1, 2)], length=(-1, 0, 1, 2), states=2, acts=1),
           Inst('member-2', membership, C, added=[(1,), (0, 1)], length=(-1, 0, 1, 2), states=2, acts=1),
           Inst('member-invalid', membership, C + V[1:], added=[(1,), (0,)], length=(1,), states=3, acts=3),
           Inst('symbolic-1-1-1', symbolic_states, C, added=(1, 1), length=1),
           Inst('symbolic-2-1', symbolic_states, C, added=(2,), length=1),
           Inst('symbolic-1-2', symbolic_states, C, added=(1,), length=2)]
    if th:
        out += [Inst('symbolic-1-1-2', symbolic_states, C, added=(1, 1), length=2),
                Inst('symbolic-2-2', symbolic_states, C, added=(2,), length=2),
                Inst('member-3', membership, C, added=[(1,), (0, 1), (1,)], length=(0, 1, 2), states=2, acts=1)]
    return out
