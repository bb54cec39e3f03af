"""Compaction of nodes."""
from .common import Inst
from .T02 import Sym, has

MOD = 'task_models.task'
BOUNDS = ('graphs of up to 3 edges (thorough 4) with every coincidence of their ends and of their labels, every '
          'set of nodes given as a list or set, compacted once or twice in a row (the second set may hold the '
          'first new node); conjugate graphs with every set over the markers and nodes.')
ASSUMPTIONS = ['the new node is not a node of the graph outside the set']


class Node(Sym):
    __hash__, __eq__ = Sym.__hash__, Sym.__eq__


def expected(edges, S, new):
    out = []
    for s, l, d in edges:
        i, j = s in S, d in S
        if i and j:
            continue
        out.append((new if i else s, '' if i or j else l, new if j else d))
    return out


def compaction(w, edges, members, twice=False, conj=False):
    mod = w.load(MOD)
    g = mod.ConjugateTaskGraph() if conj else mod.BaseGraph()
    es = []
    for i in range(edges):
        ends = []
        for k in 'sd':
            if conj and w.flag('%s%d marker' % (k, i)):
                ends.append(g.initial if k == 's' else g.terminal)
            else:
                ends.append(Node(w.int('%s%d' % (k, i))))
        e = (ends[0], w.pick('label%d' % i, ['', 'l', 'm'][:1 + i % 3]) if i else 'l', ends[1])
        es.append(e)
        g.add_transition(*e)
    old = (g.initial, g.terminal) if conj else None
    for step in range(2 if twice else 1):
        S = [Node(w.int('m%d.%d' % (step, i))) for i in range(members)]
        if conj:
            S += [m for m, t in zip(old, 'it') if m is (g.initial if t == 'i' else g.terminal) and
                  w.flag('with %s%d' % (t, step))]
        if step and w.flag('with new'):
            S.append(new)  # noqa: F821
        new = Node(w.int('new%d' % step))
        for e in es:
            for x in (e[0], e[2]):
                w.assume(not isinstance(x, Node) or w.disj([w.neg(w.eq(x.k, new.k)), x in S]))
        arg = set(S) if w.flag('set%d' % step) else list(S)
        es = expected(es, S, new)
        g.compact(arg, new)
        got = list(g.all_transitions())
        w.check(all(has(got, e) for e in es), 'edges outside and across are kept')
        w.check(all(has(es, e) for e in got), 'nothing else is left')
        if conj:
            w.check((g.initial is new) if has([(x,) for x in S], (old[0],)) else g.initial is old[0],
                    'the initial marker follows its node')
            w.check((g.terminal is new) if has([(x,) for x in S], (old[1],)) else g.terminal is old[1],
                    'the terminal marker follows its node')
            old = (g.initial, g.terminal)
    if conj:
        h = mod.ConjugateTaskGraph()
        w.check(h.initial.name == 'initial' and h.terminal.name == 'terminal',
                'other graphs keep their markers')


def instances(tier):
    th = tier == 'thorough'
    L = ['edges outside and across are kept', 'nothing else is left']
    C = ['the initial marker follows its node', 'the terminal marker follows its node']
    out = [Inst('graph-2-1', compaction, L, edges=2, members=1),
           Inst('graph-2-2', compaction, L, edges=2, members=2),
           Inst('graph-1-3', compaction, L, edges=1, members=3),
           Inst('twice-1', compaction, L, edges=1, members=1, twice=True),
           Inst('conjugate-1', compaction, L + C, edges=1, members=1, conj=True),
           Inst('conjugate-2', compaction, L + C, edges=2, members=1, conj=True),
           Inst('conjugate-twice', compaction, L + C, edges=1, members=1, conj=True, twice=True),
           Inst('graph-3-1', compaction, L, edges=3, members=1)]
    if th:
        out += [Inst('graph-3-2', compaction, L, edges=3, members=2),
                Inst('twice-2', compaction, L, edges=2, members=1, twice=True)]
    return out
