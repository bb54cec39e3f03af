"""Towers."""
import itertools

from .common import Inst

MOD = 'task_models.tower_problem'
BOUNDS = ('0 to 4 (thorough 6) towers of 0 to 4 (thorough 6) parts, and 1 to 2 towers of 10 to 12 parts, 10 to 12 towers of '
          '1 to 2 parts, 2 of 51 (thorough: 3, and 1 to 2 towers of 101 to 102 parts); tasks of up to 3 arbitrary orders of up to 3 parts or 12 of one, '
          'named or not; the bring-next models of the two-order tasks up to 2 by 2.')
ASSUMPTIONS = ['part i*h+k is the k-th from the bottom of tower i, for towers of height h']


def offered(w, task):
    root = task.root
    w.check(root.kind == 'Alternative', 'the task offers the orders')
    out = []
    for c in root.children:
        w.check(c.kind == 'Sequential' and all(l.kind is None for l in c.children), 'the task offers the orders')
        out.append((c.name, [(l.name, l.action.name, l.action.obj) for l in c.children]))
    return out


def expect(w, task, orders, names):
    got = offered(w, task)
    w.check([n for n, _ in got] == list(names), 'orders have their names')
    w.check([[o for _, _, o in l] for _, l in got] == [[str(i) for i in o] for o in orders], 'the task offers the orders')
    for (n, leaves), o in zip(got, orders):
        w.check([x for x, _, _ in leaves] == ['%d-%s' % (i, n) for i in o] and
                [x for _, x, _ in leaves] == [x for x, _, _ in leaves], 'steps bring the part they name')
    allnames = [x for _, l in got for x, _, _ in l]
    w.check(len(set(allnames)) == len(allnames), 'steps have distinct names')


def orders(w, most, default=False, least=(0, 0), tops=None):
    mod = w.load(MOD)
    if default:
        h, n, t = 2, 3, mod.TowerProblem()
    else:
        top = tops or (most, most)
        h, n = w.int('height', least[0], top[0]), w.int('towers', least[1], top[1])
        t = mod.TowerProblem(h, n)
        w.check(w.eq(t.n_parts, h * n), 'there is one part per place')
        h, n = h.__index__(), n.__index__()
        mod.TowerProblem(n + 1, h + 2).vertical_horizontal_task()
        t = mod.TowerProblem(h, n) if w.flag('positional') else mod.TowerProblem(n_towers=n, height=h)
        mod.TowerProblem(n + 2, h + 1).h_first()
    w.check(list(t.parts) == [str(i) for i in range(h * n)], 'there is one part per place')
    v, hz = [int(x) for x in t.v_first()], [int(x) for x in t.h_first()]
    for o in (v, hz):
        w.check(sorted(o) == list(range(h * n)), 'every part is placed exactly once')
        for i in range(n):
            own = [p for p in o if i * h <= p < (i + 1) * h]
            w.check(own == sorted(own), 'towers are built from the bottom up')
    w.check(v == [i * h + k for i in range(n) for k in range(h)], 'the vertical order builds tower after tower')
    w.check(hz == [i * h + k for k in range(h) for i in range(n)], 'the horizontal order builds level after level')
    task = t.vertical_horizontal_task()
    expect(w, task, [v, hz], ['vertical', 'horizontal'])
    w.check(len(list(task.root.proba)) == 2, 'the task offers the orders')
    w.check_conj([w.eq(2 * p, 1) for p in task.root.proba], 'the orders are equally likely')


def given(w, parts, n):
    """Tasks of any orders."""
    mod = w.load(MOD)
    t = mod.TowerProblem(parts, 1)
    perms = list(itertools.permutations(range(parts)))
    os_ = [w.pick('order%d' % i, perms) for i in range(n)]
    kind = w.pick('names', ['none', 'all'])
    names = None if kind == 'none' else ['-'.join(map(str, o)) + 'xyzuvwabcdef'[i] for i, o in enumerate(os_)]
    task = t.task_from_orders([list(o) for o in os_], names=names) if names else t.task_from_orders(os_)
    expect(w, task, os_, names or [str(i) for i in range(n)])
    one = t.sequential_combination_from_order(os_[0])
    w.check([(l.action.name, l.action.obj) for l in one.children] == [(str(i), str(i)) for i in os_[0]],
            'steps bring the part they name')


def model(w, h, n):
    """The bring-next model lets exactly the two orders happen."""
    mod, bnx = w.load(MOD), w.load('task_models.bring_next_to_pomdp')
    t = mod.TowerProblem(h, n)
    m = bnx.HTMToPOMDP(2., 8., 5., t.parts, end_reward=50., loop=False).task_to_pomdp(t.vertical_horizontal_task())
    get = {p: m.actions.index('get-' + p) for p in t.parts}
    end = m.states.index('end')
    start = [i for i in range(len(m.states)) if bool(m.start[i] > 0)]

    def runs(s):
        if s == end:
            return [()]
        out = []
        for p in t.parts:
            for s2 in range(len(m.states)):
                if s2 != s and bool(m.T[get[p], s, s2] > 0):
                    out += [(int(p),) + r for r in runs(s2)]
        return out
    got = sorted(r for s in start for r in runs(s))
    w.check(got == sorted([tuple(t.v_first()), tuple(t.h_first())]), 'the model follows the orders')


def instances(tier):
    th = tier == 'thorough'
    L = ['every part is placed exactly once', 'towers are built from the bottom up', 'the task offers the orders',
         'steps bring the part they name', 'the vertical order builds tower after tower',
         'the horizontal order builds level after level']
    out = [Inst('any', orders, L, most=6 if th else 4), Inst('default', orders, L, most=0, default=True)]
    out += [Inst('tall', orders, L, most=0, least=(10, 1), tops=(12, 3 if th else 2)),
            Inst('many', orders, L, most=0, least=(1, 10), tops=(3 if th else 2, 12))]
    out += [Inst('hundred', orders, L, most=0, least=(51, 2), tops=(51, 2))]
    if th:
        out += [Inst('large', orders, L, most=0, least=(101, 1), tops=(102, 2))]
    out += [Inst('given-%d-%d' % (p, n), given, L[2:4], parts=p, n=n)
            for p, n in ((1, 1), (2, 2), (2, 3), (3, 1), (3, 2), (1, 12)) + (((3, 3),) if th else ())]
    out += [Inst('model-%dx%d' % (h, n), model, ['the model follows the orders'], h=h, n=n)
            for h, n in ((1, 2), (2, 1), (2, 2)) + (((3, 2), (2, 3)) if th else ())]
    return out
