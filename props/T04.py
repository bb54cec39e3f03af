"""Maximal cliques."""
import itertools

from .common import Inst

MOD = 'task_models.task'
BOUNDS = ('all symmetric graphs without loops of 1 to 5 nodes (thorough 6), those of 7 and 8 nodes where all but four are linked to every other, those of 8 (thorough 10) nodes in pairs or rings with 3 unknown links, and all directed graphs of 3 nodes '
          'with loops, repeated labels, and 4 nodes without loops; a clique is searched for at an unknown node '
          'set decided by the solver over the reported sets.')
ASSUMPTIONS = []


def judge(w, reported, adj, n):
    """adj[i][j]: unknown truth of the mutual link i, j (decided on this path)."""
    reported = [frozenset(c) for c in reported]
    w.check(len(set(reported)) == len(reported), 'cliques are reported once')
    member = [w.bool('member%d' % i) for i in range(n)]
    others = range(n)
    clique = w.conj([w.disj([w.neg(member[i]), w.neg(member[j])])
                     for i in others for j in others if i < j and not adj[i][j]])
    two = w.disj([w.conj([member[i], member[j]]) for i in others for j in others if i < j] or [False])
    maximal = w.conj([w.disj([member[i]] + [member[j] for j in others if j != i and not adj[i][j]])
                      for i in others])
    listed = w.disj([w.conj([member[i] if i in c else w.neg(member[i]) for i in others])
                     for c in reported] or [False])
    want = w.conj([clique, two, maximal])
    w.check(w.implies(want, listed), 'every maximal clique is reported')
    w.check(w.implies(listed, want), 'only maximal cliques are reported')


def symmetric(w, n, links=()):
    mod = w.load(MOD)
    adj = [[False] * n for _ in range(n)]
    fixed = dict(links)
    for i in range(n):
        for j in range(i):
            adj[i][j] = adj[j][i] = fixed[(j, i)] if (j, i) in fixed else w.flag('link%d%d' % (j, i))
    g = {i: {j for j in range(n) if adj[i][j]} for i in range(n)}
    got = list(mod.max_cliques(g))
    w.check(g == {i: {j for j in range(n) if adj[i][j]} for i in range(n)}, 'the graph is unchanged')
    judge(w, got, adj, n)


def directed(w, n, loops, twice, first=None):
    mod = w.load(MOD)
    g = mod.ConjugateTaskGraph()
    nodes = [mod.AbstractAction('n%d' % i) for i in range(n)]
    arc = [[False] * n for _ in range(n)]
    for i, j in itertools.product(range(n), repeat=2):
        if i == j and not loops:
            continue
        arc[i][j] = first if (i, j) == (0, 1) and first is not None else w.flag('arc%d%d' % (i, j))
        if arc[i][j]:
            g.add_transition(nodes[i], None if j == 1 and not twice else 's%d' % j, nodes[j])
            if twice and (i + j) % 2:
                g.add_transition(nodes[i], 't', nodes[j])
    got = [[int(a.name[1]) for a in c] for c in g.get_max_cliques()]
    judge(w, got, [[i != j and arc[i][j] and arc[j][i] for j in range(n)] for i in range(n)], n)


def instances(tier):
    L = ['every maximal clique is reported', 'only maximal cliques are reported', 'cliques are reported once']
    out = [Inst('symmetric-%d' % n, symmetric, L, n=n) for n in (1, 2, 3, 4)]
    parts = [(0, 1), (0, 2)]
    out += [Inst('symmetric-5-%d%d' % b, symmetric, L, n=5, links=list(zip(parts, map(bool, b))))
            for b in itertools.product((0, 1), repeat=2)]
    out += [Inst('directed-3', directed, L, n=3, loops=True, twice=False),
            Inst('directed-3-labels', directed, L, n=3, loops=False, twice=True),
            Inst('directed-4-0', directed, L, n=4, loops=False, twice=False, first=False),
            Inst('directed-4-1', directed, L, n=4, loops=False, twice=False, first=True)]
    # a few nodes linked to all and unknown links of the others
    for u, n in ((3, 7), (4, 8), (1, 5)) + (((2, 7),) if tier == 'thorough' else ()):
        out.append(Inst('hub-%d-%d' % (u, n), symmetric, L, n=n, links=[
            ((j, i), True) for i in range(n) for j in range(min(i, u))]))
    # all but one or two others linked to each
    for n in (8, 10) if tier == 'thorough' else (8,):
        out.append(Inst('nearly-%d' % n, symmetric, L, n=n, links=[
            ((j, i), not (i == j + 1 and j % 2 == 0)) for i in range(n) for j in range(i) if (j, i) not in
            ((0, 2), (1, 4), (3, 6))]))
        out.append(Inst('ring-%d' % n, symmetric, L, n=n, links=[
            ((j, i), (i - j) % n in (1, 2, n - 1, n - 2)) for i in range(n) for j in range(i) if (j, i) not in
            ((0, 4), (1, 3), (2, 5))]))
    if tier == 'thorough':
        parts = [(0, 1), (0, 2), (1, 2), (0, 3)]
        out += [Inst('symmetric-6-%d%d%d%d' % b, symmetric, L, n=6, links=list(zip(parts, map(bool, b))))
                for b in itertools.product((0, 1), repeat=4)]
    return out
