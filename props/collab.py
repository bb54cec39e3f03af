"""Reference models of the generated POMDPs, from the task description."""
import itertools

from symex import arr as A

from . import tasks

T2P = 'task_models.task_to_pomdp'
BNX = 'task_models.bring_next_to_pomdp'


class Step(object):
    """An occurrence of a leaf in the expanded task."""

    def __init__(self, leaf, suffix):
        self.leaf, self.suffix = leaf, suffix
        self.next = None      # [(step or 'end', probability)]
        self.after = None     # steps of the parts that only come later


def steps_of(spec, probas):
    """All occurrences in visiting order, and the entry distribution.
    probas(spec) gives the probabilities of an alternative."""
    out = []

    def rec(s, suffix):
        if s.kind == 'leaf':
            x = Step(s.leaf, suffix)
            out.append(x)
            return ('leaf', x)
        if s.kind == 'par':
            parts = []
            for i, p in enumerate(itertools.permutations(s.children)):
                parts.append(('seq', [rec(c, suffix + [i]) for c in p]))
            k = len(parts)
            return ('alt', parts, [1 / A.Fraction(k)] * k if hasattr(A, 'Fraction') else [1. / k] * k)
        ch = [rec(c, suffix) for c in s.children]
        if s.kind == 'seq':
            return ('seq', ch)
        return ('alt', ch, probas(s))
    tree = rec(spec, [])

    def entry(t):
        if t[0] == 'leaf':
            return [(t[1], 1)]
        if t[0] == 'seq':
            return entry(t[1][0])
        return [(x, p * q) for c, q in zip(t[1], t[2]) for x, p in entry(c)]

    def members(t):
        return [t[1]] if t[0] == 'leaf' else [x for c in t[1] for x in members(c)]

    def link(t, nxt, after):
        if t[0] == 'leaf':
            t[1].next, t[1].after = nxt, after
        elif t[0] == 'seq':
            for i, c in enumerate(t[1]):
                later = [x for d in t[1][i + 1:] for x in members(d)]
                link(c, entry(t[1][i + 1]) if i + 1 < len(t[1]) else nxt, after + later)
        else:
            for c in t[1]:
                link(c, nxt, after)
    link(tree, [('end', 1)], [])
    return out, entry(tree)


def task_of(w, spec, action, probas):
    """The repository's task of a description, alternatives with probas(spec)."""
    mod = w.load(tasks.TASK_MOD)

    def rec(s, name):
        if s.kind == 'leaf':
            return mod.LeafCombination(action(s.leaf))
        ch = [rec(c, '%s-%d' % (name, i)) for i, c in enumerate(s.children)]
        kw = {'name': name}
        if s.kind == 'alt':
            p = probas(s)
            kw['probabilities'] = p if s.given else None
        return getattr(mod, tasks.KINDS[s.kind])(ch, **kw)
    return mod.HierarchicalTask(rec(spec, 'C'))


def alternatives(w, spec, given):
    """Unknown or uniform probabilities of each alternative."""
    table = {}

    def rec(s):
        s.given = False
        for c in s.children:
            rec(c)
        if s.kind == 'alt':
            n = len(s.children)
            s.given = given and n > 1
            table[id(s)] = list(w.prob_vector('p%d' % len(table), n)) if s.given else [1. / n] * n
    rec(spec)
    return lambda s: table[id(s)]


def entries(x):
    return A.obj(x).tolist()
