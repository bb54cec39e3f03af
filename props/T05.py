"""Maximal chains."""
import itertools

from .common import Inst

MOD = 'task_models.task'
BOUNDS = ('all conjugate graphs of 1 to 3 nodes with loops (the initial one included), all of 4 nodes without '
          'loops or arcs into the initial node, with repeated labels, all acyclic ones of 5 nodes (thorough 6), and of 5 nodes where every node but the '
          'initial one has at most one way out (thorough: all of 4 nodes without loops), lines of 8 nodes with two more arcs, and of 7 nodes (thorough 9) five or seven of which follow the '
          'initial one; the run of nodes '
          'compared is an unknown decided by the solver.')
ASSUMPTIONS = ['the graph has at most the initial node and named nodes; a chain is searched for once per graph']


def judge(w, reported, arc, n):
    """Node 0 is the initial one."""
    reached, todo = {0}, [0]
    while todo:
        i = todo.pop()
        for j in range(n):
            if arc[i][j] and j not in reached:
                reached.add(j)
                todo.append(j)
    outs = [sum(a) for a in arc]
    ins = [sum(a[j] for a in arc) + (j == 0) for j in range(n)]
    sole = [[arc[i][j] and outs[i] == 1 and ins[j] == 1 and i in reached for j in range(n)] for i in range(n)]
    w.check(all(len(set(c)) == len(c) for c in reported), 'chains do not repeat nodes')
    w.check(len(set(map(tuple, reported))) == len(reported), 'chains are reported once')
    # an unknown sequence of k nodes: a maximal run iff reported
    links = sum(map(sum, sole))
    for k in range(2, n + 2):
        if k > links + 1 and not any(len(c) >= k for c in reported):
            break   # a run of k nodes has k - 1 of these links
        x = [w.int('run%d.%d' % (k, i), 0, n - 1) for i in range(k)]

        def rel(i, j):
            return w.disj([w.conj([w.eq(x[i], a), w.eq(x[j], b)])
                           for a in range(n) for b in range(n) if sole[a][b]] or [False])
        run = w.conj([rel(i, i + 1) for i in range(k - 1)])
        run = w.conj([run] + [w.neg(w.eq(x[i], x[j])) for i in range(k) for j in range(i)])
        free_in = w.conj([w.neg(w.eq(x[0], b)) for b in range(n) if any(sole[a][b] for a in range(n))] or [True])
        free_out = w.conj([w.neg(w.eq(x[-1], a)) for a in range(n) if any(sole[a])] or [True])
        listed = w.disj([w.conj([w.eq(x[i], c[i]) for i in range(k)]) for c in reported if len(c) == k] or [False])
        w.check(w.implies(listed, run), 'reported chains are runs of only links')
        w.check(w.implies(listed, w.conj([free_in, free_out])), 'reported chains are maximal')
        w.check(w.implies(w.conj([run, free_in, free_out]), listed), 'every maximal chain is reported')


def all_graphs(w, n, loops=False, into=False, twice=False, fixed=()):
    mod = w.load(MOD)
    fixed = dict(fixed)
    arc = [[False] * n for _ in range(n)]
    for i, j in itertools.product(range(n), repeat=2):
        if (i == j and not loops) or (j == 0 and not into):
            continue
        arc[i][j] = fixed[i, j] if (i, j) in fixed else w.flag('arc%d%d' % (i, j))
    run(w, mod, arc, n, twice)


def forward(w, n, fixed=()):
    """Graphs without cycles."""
    fixed = dict(fixed)
    arc = [[i < j and (fixed[i, j] if (i, j) in fixed else w.flag('arc%d%d' % (i, j))) for j in range(n)]
           for i in range(n)]
    run(w, w.load(MOD), arc, n, False)


def one_way(w, n, first):
    mod = w.load(MOD)
    arc = [[False] * n for _ in range(n)]
    for j in range(1, n):
        arc[0][j] = bool(first & (1 << j - 1))
    for i in range(1, n):
        j = w.int('next%d' % i, 0, n - 1).__index__()
        w.assume(j != i)
        if j:
            arc[i][j] = True
    run(w, mod, arc, n, False)


def fan(w, n, ways):
    """Many ways out of one node, few out of the others."""
    mod = w.load(MOD)
    arc = [[False] * n for _ in range(n)]
    for j in range(1, ways + 1):
        arc[0][j] = True
    for i in range(max(1, ways - 2), n - 1):
        j = w.int('next%d' % i, 0, n - 1).__index__()
        if j > i:
            arc[i][j] = True
    run(w, mod, arc, n, False)


def line(w, n):
    """A long run of nodes and two other arcs."""
    arc = [[j == i + 1 for j in range(n)] for i in range(n)]
    for k in 'ab':
        i, j = w.int('from' + k, 0, n - 1).__index__(), w.int('to' + k, 1, n - 1).__index__()
        w.assume(i != j and (k == 'a' or i % 3 == 1))
        arc[i][j] = True
    run(w, w.load(MOD), arc, n, False)


def run(w, mod, arc, n, twice):
    g = mod.ConjugateTaskGraph()
    nodes = [g.initial] + [mod.AbstractAction('n%d' % i) for i in range(1, n - 1)] + [g.terminal]
    nodes = nodes[:n]
    for i, j in itertools.product(range(n), repeat=2):
        if arc[i][j]:
            g.add_transition(nodes[i], 's%d' % j, nodes[j])
            if twice and (i + j) % 2 == 0:
                g.add_transition(nodes[i], 't', nodes[j])
    before = {s: set(t) for s, t in g.transitions.items()}
    chains = []
    for c in g.get_max_chains():
        chains.append([nodes.index(a) for a in c])
        w.check(len(chains) <= n, 'the search ends')
    w.check(before == g.transitions, 'the graph is unchanged')
    judge(w, chains, arc, n)


def instances(tier):
    th = tier == 'thorough'
    L = ['reported chains are runs of only links', 'reported chains are maximal', 'every maximal chain is reported']
    out = [Inst('all-1', all_graphs, [], n=1, loops=True, into=True),
           Inst('all-2', all_graphs, L, n=2, loops=True, into=True),
           Inst('all-3', all_graphs, L, n=3, loops=True, into=True),
           Inst('all-4', all_graphs, L, n=4),
           Inst('all-4-labels', all_graphs, L, n=4, twice=True)]
    out += [Inst('one-way-5-%d' % f, one_way, L if f in (1, 3) else [], n=5, first=f)
            for f in ((1, 3, 7) if not th else range(16))]
    out += [Inst('forward-5-%d' % b, forward, L, n=5, fixed=[((0, 1), bool(b))]) for b in (0, 1)]
    out += [Inst('line-8', line, L, n=8)]
    out += [Inst('fan-7-5', fan, L, n=7, ways=5)]
    if th:
        out += [Inst('fan-9-7', fan, L, n=9, ways=7)]
        arcs = [(0, 1), (0, 2), (0, 3), (0, 4), (0, 5)]
        out += [Inst('forward-6-%d%d%d%d%d' % b, forward, L, n=6, fixed=list(zip(arcs, map(bool, b))))
                for b in itertools.product((0, 1), repeat=5) if any(b)]
        arcs = [(1, 0), (2, 0), (3, 0)]
        out += [Inst('all-4-into-%d%d%d' % b, all_graphs, L, n=4, into=True, fixed=list(zip(arcs, map(bool, b))))
                for b in itertools.product((0, 1), repeat=3) if any(b)]
        out += [Inst('all-4-loops', all_graphs, L, n=4, loops=True)]
        out += [Inst('one-way-6-%d' % f, one_way, L, n=6, first=f) for f in (1, 3)]
    return out
