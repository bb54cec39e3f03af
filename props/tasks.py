"""Bounded families of task trees, described apart from the repository's classes."""
import itertools
import re

TASK_MOD = 'task_models.task'
KINDS = {'seq': 'SequentialCombination', 'alt': 'AlternativeCombination', 'par': 'ParallelCombination'}


class Spec(object):
    """('leaf', i) or (kind, children)."""

    def __init__(self, kind, children=(), leaf=None):
        self.kind, self.children, self.leaf = kind, list(children), leaf

    def leaves(self):
        if self.kind == 'leaf':
            return [self.leaf]
        return [l for c in self.children for l in c.leaves()]

    def __repr__(self):
        if self.kind == 'leaf':
            return str(self.leaf)
        return '%s(%s)' % (self.kind, ', '.join(map(repr, self.children)))


def choose(w, shape, tag='t', counter=None, kinds=('seq', 'alt', 'par'), leaf=True, top=None):
    """A tree of the given shape: shape is a list of (max children, ...) per
    level, decided by unknowns of w."""
    counter = itertools.count() if counter is None else counter
    if not shape:
        return Spec('leaf', leaf=next(counter))
    options = (['leaf'] if leaf else []) + list(kinds)
    kind = top or w.pick(tag, options)
    if kind == 'leaf':
        return Spec('leaf', leaf=next(counter))
    n = w.pick(tag + 'n', list(range(1, shape[0] + 1)))
    return Spec(kind, [choose(w, shape[1:], '%s.%d' % (tag, i), counter, kinds) for i in range(n)])


def parse(text):
    """'seq(0, par(1, 2))' -> Spec (leaves are numbered in order)."""
    pos = [0]
    count = itertools.count()

    def item():
        m = re.compile(r'\s*(\w+|\.)').match(text, pos[0])
        pos[0] = m.end()
        k = m.group(1)
        if k not in KINDS:
            return Spec('leaf', leaf=next(count))
        assert text[pos[0]] == '('
        pos[0] += 1
        ch = [item()]
        while text[pos[0]] == ',':
            pos[0] += 1
            ch.append(item())
        assert text[pos[0]] == ')'
        pos[0] += 1
        return Spec(k, ch)
    return item()


def build(mod, spec, action, name='C', probabilities=None):
    """The repository's tree of a description; action(i) makes the i-th action."""
    if spec.kind == 'leaf':
        return mod.LeafCombination(action(spec.leaf))
    ch = [build(mod, c, action, '%s-%d' % (name, i), probabilities) for i, c in enumerate(spec.children)]
    return getattr(mod, KINDS[spec.kind])(ch, name=name)


def executions(spec):
    """Every order in which the leaves of the task can be executed."""
    if spec.kind == 'leaf':
        return [(spec.leaf,)]
    ex = [executions(c) for c in spec.children]
    if spec.kind == 'alt':
        return [e for x in ex for e in x]
    orders = [range(len(ex))] if spec.kind == 'seq' else itertools.permutations(range(len(ex)))
    return [sum(p, ()) for o in orders for p in itertools.product(*[ex[i] for i in o])]


SUFFIX = re.compile(r'( order-\d+)*$')


def base(name):
    return SUFFIX.sub('', name)


def shape_of(node):
    """A description of a tree of the repository, with its leaf names."""
    if node.kind is None:
        return ('leaf', base(node.name))
    return (node.kind, tuple(shape_of(c) for c in node.children))
