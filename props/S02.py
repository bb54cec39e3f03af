"""Task graph of the supportive model."""
from collections import Counter

from . import tasks
from .common import Inst

MOD = 'task_models.supportive'
BOUNDS = ('all task trees of two levels of combinations with up to 3 and 2 children (thorough 3 and 3), all '
          'trees of three levels with up to 2 children whose first part is any and whose second is a leaf '
          '(thorough: any), and fixed trees of four levels and of up to 10 parts; with parallel parts of at most 48 executions; '
          'odd, long or'
          ' distinct or equal action names; the same action or leaf in several places; an unknown condition kind.')
ASSUMPTIONS = ['combinations have at least one child']


def graph_paths(w, nodes, succs, init, limit=5000):
    out = []
    stack = [(i, (i,)) for i in init]
    while stack:
        n, path = stack.pop()
        if not succs[n]:
            out.append(path)
        for m in succs[n]:
            if len(path) > 60:
                w.check(False, 'paths end')
            stack.append((m, path + (m,)))
        w.check(len(out) <= limit, 'paths end')
    return out


def leaf_actions(w, mod, spec, same, unknown, prefix=''):
    """Actions with unknown conditions."""
    acts = {}
    for i in spec.leaves():
        a = mod.SupportedAction('%sact-%d' % (prefix, i % 2 if same else i))
        a.conditions = [((i + j) % 3, 'obj%d' % (j + i % 2)) for j in range(i % 3)]
        if i == unknown:
            a.conditions.append((w.int('c', 0, 2), 'obj1'))
        a.hold = [None, 'h', 'v'][i % 3]
        acts[i] = a
    return acts


def shared(tm, spec, leaf, name='C'):
    if spec.kind == 'leaf':
        return leaf(spec.leaf)
    return getattr(tm, tasks.KINDS[spec.kind])([shared(tm, c, leaf, name + '-') for c in spec.children], name=name)


def graph(w, shape=None, text=None, same=False, kinds=('seq', 'alt', 'par'), unknown=None, prefix='', share=None):
    mod = w.load(MOD)
    tm = w.load(tasks.TASK_MOD)
    if text:
        spec = tasks.parse(text)
    elif shape == 'deep':
        first = tasks.choose(w, (2, 2), 'first', kinds=kinds, leaf=False)
        n = len(first.leaves())
        spec = tasks.Spec(w.pick('top', kinds), [first])
        if w.flag('two'):
            second = tasks.Spec('leaf', leaf=n)
            spec.children.insert(0 if w.flag('before') else 1, second)
    else:
        spec = tasks.choose(w, shape, 'top', leaf=False, kinds=kinds)
    ex = tasks.executions(spec)
    acts = leaf_actions(w, mod, spec, same, unknown, prefix)
    if share:
        # the same action, or the same leaf, in several places
        k = min(w.int('distinct', 1, 2).__index__(), len(acts))
        acts = {i: acts[i % k] for i in acts}
        if share == 'leaf':
            ls = [tm.LeafCombination(acts[i]) for i in range(k)]
            tree = shared(tm, spec, lambda i: ls[i % k])
        else:
            tree = shared(tm, spec, lambda i: tm.LeafCombination(acts[i]))
    else:
        tree = tasks.build(tm, spec, acts.__getitem__)
    before = tasks.shape_of(tree)
    names = [a.name for a in acts.values()]
    dag = mod._HTMToDAG(tree)
    w.check(tasks.shape_of(tree) == before and names == [a.name for a in acts.values()],
            'the task is left as it was')
    w.check(len(dag.nodes) == len(dag.succs), 'every node has successors')
    ps = graph_paths(w, dag.nodes, dag.succs, dag.init)
    got = Counter(tuple(tasks.base(dag.nodes[i].action.name) for i in p) for p in ps)
    want = Counter(tuple(acts[i].name for i in e) for e in ex)
    w.check(got == want, 'paths are the executions of the task', info='%s: %s' % (spec, got))
    w.check(len(set(dag.init)) == len(list(dag.init)) and all(
        len(set(s)) == len(list(s)) for s in dag.succs), 'successors are listed once')
    on = {i for p in ps for i in p}
    w.check(on == set(range(len(dag.nodes))), 'every node is on a path')
    # the model built on it
    m = mod.SupportivePOMDP(tree)
    w.check(m.htm_clean == len(m.htm_nodes) and m.htm_final == m.htm_clean + 1 and
            m.n_htm_states == m.htm_clean + 2, 'clean and final states come last')
    ps = graph_paths(w, m.htm_nodes + [None], list(m.htm_succs) + [[]], m.htm_init)
    w.check(all(p[-1] == m.htm_clean for p in ps), 'executions end in the cleaning state')
    got = Counter(tuple(tasks.base(m.htm_nodes[i].action.name) for i in p[:-1]) for p in ps)
    w.check(got == want, 'paths are the executions of the task', info='%s: %s' % (spec, got))
    w.check(list(m.htm_names) == [n.name for n in m.htm_nodes] + ['clean', 'final'],
            'task nodes are named by their action')
    by_name = {}
    for i, a in acts.items():
        by_name.setdefault(a.name, []).append(a)
    for n, cond in zip(m.htm_nodes, m.htm_conditions):
        cands = by_name[tasks.base(n.action.name)]
        ok = []
        for a in cands:
            if len(a.conditions) == len(cond) and n.action.hold == a.hold:
                ok.append(w.conj([w.eq(c, c0) for (c, o), (c0, o0) in zip(cond, a.conditions)] +
                                 [m.objects[o] == o0 for (c, o), (c0, o0) in zip(cond, a.conditions)]))
        w.check(w.disj(ok or [False]), 'actions keep their conditions and hold requirement')


def instances(tier):
    th = tier == 'thorough'
    L = ['paths are the executions of the task', 'executions end in the cleaning state',
         'actions keep their conditions and hold requirement']
    out = [Inst('two-levels', graph, L, shape=(3, 2) if not th else (3, 3)),
           Inst('one-level-same', graph, L, shape=(3,), same=True, unknown=0),
           Inst('two-levels-same', graph, L, shape=(2, 2), same=True, unknown=1),
           Inst('three-levels', graph, L, shape='deep')]
    if th:
        out.append(Inst('three-levels-any', graph, L, shape=(2, 2, 2)))
    for k, t in enumerate(['par(seq(., par(., alt(., .))), .)', 'seq(par(alt(., .), .), par(., .), .)',
                           'alt(seq(., alt(., seq(., .))), par(., seq(., .)))', 'par(., ., ., .)',
                           'seq(alt(par(., .), .), alt(seq(., .), .), alt(., par(., .)))']):
        out.append(Inst('fixed-%d' % k, graph, L, text=t, unknown=1))
    for k, t in enumerate(['alt(., ., ., par(., .), seq(., alt(., .)), par(., alt(., .)))',
                           'seq(., ., ., ., alt(., .), ., ., ., .)', 'seq(., par(., ., ., .), par(., .), .)',
                           'seq(alt(., ., par(., ., .), par(., .)), alt(., par(., .), ., .))',
                           'seq(par(.), seq(.), alt(.))', 'seq(seq(., par(., ., ., .)), .)']):
        out.append(Inst('wide-%d' % k, graph, L, text=t, unknown=2))
    for s in ('action', 'leaf'):
        out.append(Inst('shared-' + s, graph, L, shape=(2, 2), share=s))
        out.append(Inst('shared-wide-' + s, graph, L, text='seq(., alt(., .), ., par(., .), .)', share=s))
    out.append(Inst('names', graph, L, text='seq(par(., alt(., .), .), .)', unknown=1,
                    prefix='Bring the {long} %s leg, then screw it on the front left of the top: '))
    out.append(Inst('names-same', graph, L, text='par(., par(., .), .)', unknown=1, same=True, prefix='order-'))
    return out
