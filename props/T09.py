"""Export of graphs."""
import itertools
import json

from .common import Inst

MOD = 'task_models.task'
BOUNDS = ('every graph over 3 nodes (two of them with the same text; thorough 4 nodes with up to 12 edges) including loops and parallel '
          'edges with different labels, named or not; task graphs of up to 3 paths over shared states and their conjugates; '
          'a graph of 120 nodes with 2 unknown edges.')
ASSUMPTIONS = ['the text of nodes and labels is their str()']


class Node(object):
    """Equal only to itself."""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def __repr__(self):
        return '<%s>' % self.text


def judge(w, g, es, title):
    before = sorted((id(s), id(l), id(d)) for s, l, d in g.all_transitions())
    d = g.as_dictionary() if title is None else g.as_dictionary(name=title)
    w.check(before == sorted((id(s), id(l), id(d)) for s, l, d in g.all_transitions()), 'the graph is unchanged')
    w.check(json.loads(json.dumps(d, allow_nan=False)) == d, 'the export is strict JSON')
    w.check(d['name'] == (title or ''), 'the export is named')
    nodes = []
    for s, _, t in es:
        for x in (s, t):
            if not any(x is y or x == y for y in nodes):
                nodes.append(x)
    ids = [n['id'] for n in d['nodes']]
    w.check(len(set(ids)) == len(ids), 'nodes have distinct numbers')
    w.check(sorted(n['value']['label'] for n in d['nodes']) == sorted(str(n) for n in nodes), 'every node is listed once')
    links = sorted((l['u'], l['v'], l['value']['label']) for l in d['links'])
    w.check(all(u in ids and v in ids for u, v, _ in links), 'links refer to nodes')
    w.check(len(links) == len(es), 'every transition is listed once')
    # some naming of the nodes with their texts gives exactly the transitions
    groups = {}
    for k, n in enumerate(nodes):
        groups.setdefault(str(n), []).append(k)
    opts = [itertools.permutations([n['id'] for n in d['nodes'] if n['value']['label'] == t]) for t in groups]
    for choice in itertools.product(*opts):
        num = {}
        for t, c in zip(groups, choice):
            num.update(zip(groups[t], c))

        def number(x):
            return next(num[k] for k, n in enumerate(nodes) if n is x or n == x)
        if sorted((number(s), number(t), str(l)) for s, l, t in es) == links:
            w.check(True, 'links are the transitions')
            return
    w.check(False, 'links are the transitions', '%r %r' % (es, d))


def edges(w, n, most=None, conj=False):
    mod = w.load(MOD)
    g = mod.ConjugateTaskGraph() if conj else mod.BaseGraph()
    ns = [Node(('a', '', 'a', 'b')[i]) for i in range(n)]
    if conj:
        ns[0], ns[-1] = g.initial, g.terminal
    es = []
    for i in range(n):
        for j in range(n):
            if (most is None or i != j) and w.flag('edge %d %d' % (i, j)):
                es.append((ns[i], ('l', 'm', '')[(i + j) % 3], ns[j]))
                if (i, j) in ((0, 1), (1, 1)):
                    es.append((ns[i], Node('l'), ns[j]))
    for e in es:
        g.add_transition(*e)
    judge(w, g, es, (None, 'a graph', '')[len(es) % 3])


def wide(w, n):
    g = w.load(MOD).BaseGraph()
    ns = [Node('node %d' % i) for i in range(n)]
    es = [(ns[i % 13], 'l%d' % i, ns[(i * 7 + 3) % n]) for i in range(n)]
    for k in range(2):
        i, j = (w.int('%s%d' % (x, k), 0, 3).__index__() * 13 % n for x in 'uv')
        es.append((ns[i], 'extra%d' % k, ns[j]))
    for e in es:
        g.add_transition(*e)
    judge(w, g, es, 'wide')


def task(w):
    mod = w.load(MOD)
    State = w.load('task_models.state').State

    class Named(Node, State):
        __hash__, __eq__ = object.__hash__, object.__eq__
    st = [Named('S%d' % i) for i in range(5)]
    ac = [mod.AbstractAction('act %d' % i) for i in range(4)]
    paths = [[st[0], ac[0], st[1], ac[1], st[2]], [st[0], ac[1], st[3], ac[0], st[2]],
             [st[0], ac[0], st[1], ac[2], st[4]], [st[1], ac[3], st[2]]]
    g = mod.TaskGraph()
    es = []
    for k, p in enumerate(paths):
        if w.flag('path %d' % k):
            g.add_path(p)
            for e in zip(p[0::2], p[1::2], p[2::2]):
                if e not in es:
                    es.append(e)
    judge(w, g, es, 'task')
    c = g.conjugate()
    judge(w, c, list(c.all_transitions()), None)


def instances(tier):
    th = tier == 'thorough'
    L = ['every node is listed once', 'links are the transitions', 'the export is strict JSON', 'nodes have distinct numbers']
    return [Inst('graphs', edges, L, n=3), Inst('conjugate', edges, L, n=3, conj=True), Inst('wide', wide, L, n=120),
            Inst('task', task, L)] + ([Inst('graphs-4', edges, L, n=4, most=12)] if th else [])
