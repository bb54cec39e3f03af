"""Expansion of parallel tasks and probabilities of alternatives."""
import itertools
import math
from collections import Counter

from . import tasks
from .common import Inst

BOUNDS = ('parallel tasks of 1 to 5 parts, each part any tree of up to two levels of two children or '
          'one of several fixed trees, actions of every class with unknown numeric attributes, unknown '
          'probabilities of alternatives, any highlighting; probabilities: all vectors of 1 to 5 (thorough 6) unknown reals.')
ASSUMPTIONS = ['probabilities out of range, or sums different from 1, by less than 1e-3 are not judged']


def actions_of(w, i):
    """An action of some class and its attributes to keep."""
    task = w.load(tasks.TASK_MOD)
    act = w.load('task_models.action')
    t2p = w.load('task_models.task_to_pomdp')
    bnx = w.load('task_models.bring_next_to_pomdp')
    sup = w.load('task_models.supportive')
    x = w.real('x%d' % i)
    name = 'act %d' % i if i != 1 else 'Act of a long {name} order-0 to be kept, %s and all (1)'
    k = i % 6
    if k == 0:
        a = t2p.CollaborativeAction(name, (x, 2. + i, 3.), human_probability=.3, fail_probability=.2,
                                    no_probability=.4)
    elif k == 1:
        a = bnx.CollaborativeAction(name, 'object %d' % i)
    elif k == 2:
        a = sup.SupportedAction(name)
        a.conditions = [(x, 'obj')]
        a.hold = 'h'
    elif k == 3:
        a = act.PrePostConditionAction(act.MatchAllCondition(), act.Condition(w.array([1.]), w.array([x])), name=name)
    elif k == 4:
        a = act.Action(name, agent='human')
        a.extra = x
    else:
        a = sup.AssembleFoot('leg-%d' % i)
    return a


def attrs(a):
    return {k: v for k, v in vars(a).items() if k != 'name'}


def frozen(node):
    """Everything about a tree, with the objects held."""
    base = (type(node), node.name, node.highlighted, node.idx, node.parent, id(node))
    if node.kind is None:
        return base + (id(node.action), type(node.action), tuple(sorted(
            (k, id(v)) for k, v in attrs(node.action).items())))
    return base + (id(node.proba), tuple(map(frozen, node.children)))


def same_but_names(w, x, y, names):
    """Copy y of x; collects names."""
    w.check(type(y).__name__ == type(x).__name__ and x.kind == y.kind, 'structure is kept')
    w.check(x.highlighted == y.highlighted, 'highlighting is kept')
    w.check(y.name.startswith(x.name), 'parts are renamed per order')
    names.append((x, y.name))
    if x.kind is None:
        a, b = x.action, y.action
        w.check(type(a) is type(b), 'the class of actions is kept')
        p, q = attrs(a), attrs(b)
        w.check(set(p) == set(q) and all(p[k] is q[k] or p[k] == q[k] for k in p), 'attributes of actions are kept')
        return
    w.check(len(x.children) == len(y.children), 'structure is kept')
    p, q = x.proba, y.proba
    if p is None:
        w.check(q is None, 'probabilities are kept')
    else:
        w.check(len(p) == len(q), 'probabilities are kept')
        w.check_conj([w.eq(a, b) for a, b in zip(p, q)], 'probabilities are kept')
    for c, d in zip(x.children, y.children):
        same_but_names(w, c, d, names)


def decorate(w, mod, spec, name, acts, high, count):
    i = next(count)
    h = i == high
    if spec.kind == 'leaf':
        acts[spec.leaf] = actions_of(w, spec.leaf)
        return mod.LeafCombination(acts[spec.leaf], highlighted=h)
    ch = [decorate(w, mod, c, '%s-%d' % (name, k), acts, high, count) for k, c in enumerate(spec.children)]
    cls = getattr(mod, tasks.KINDS[spec.kind])
    kw = {}
    if spec.kind == 'alt':
        kw['probabilities'] = list(w.prob_vector('p' + name, len(ch))) if len(ch) > 1 else None
    else:
        # other combinations may carry numbers too
        kw['probabilities'] = w.reals('w' + name, len(ch))
    return cls(ch, name=name, highlighted=h, **kw)


def expansion(w, n, parts=None, shape=None):
    mod = w.load(tasks.TASK_MOD)
    if parts:
        spec = tasks.parse(parts)
    else:
        counter = itertools.count()
        spec = tasks.Spec('par', [tasks.choose(w, shape if i == 0 else (), 'part%d' % i, counter)
                                  for i in range(n)])

    def size(s):
        return 1 + sum(map(size, s.children))
    root = decorate(w, mod, spec, 'P', {}, w.int('highlighted', 0, size(spec) - 1).__index__(), itertools.count())
    n = len(root.children)
    before = frozen(root)
    new = root.to_alternative()
    w.check(frozen(root) == before, 'the original is left as it was')
    w.check(new.kind == 'Alternative' and new.name == root.name and new.highlighted == root.highlighted,
            'the expansion is an alternative in place of the parallel task')
    k = math.factorial(n)
    w.check(len(new.children) == k and len(new.proba) == k, 'there is one alternative per order')
    w.check_conj([w.eq(p * k, 1) for p in new.proba], 'orders are equally likely')
    orders, all_names = Counter(), []
    part_of = {p.name: i for i, p in enumerate(root.children)}
    for i, s in enumerate(new.children):
        w.check(s.kind == 'Sequential' and len(s.children) == n, 'each alternative is a sequence of the parts')
        w.check(s.name.startswith(root.name), 'parts are renamed per order')
        all_names.append((root, s.name))
        order = tuple(next((j for p, j in part_of.items() if c.name.startswith(p)), None) for c in s.children)
        w.check(sorted(order, key=str) == list(range(n)), 'each alternative is a sequence of the parts')
        orders[order] += 1
        for j, c in zip(order, s.children):
            same_but_names(w, root.children[j], c, all_names)
    w.check(set(orders) == set(itertools.permutations(range(n))) and max(orders.values()) == 1,
            'every order is there once')
    by_node = {}
    for x, nm in all_names:
        by_node.setdefault(id(x), []).append(nm)
    w.check(all(len(set(v)) == len(v) for v in by_node.values()), 'parts have distinct names in distinct orders')
    ids = [id(y) for y in nodes(new)]
    w.check(len(set(ids)) == len(ids) and not set(ids) & set(id(x) for x in nodes(root)), 'parts are not shared')


def nodes(node):
    return [node] + ([] if node.kind is None else [x for c in node.children for x in nodes(c)])


def probabilities(w, n, kind, later=False):
    mod = w.load(tasks.TASK_MOD)
    act = w.load('task_models.action')
    ch = [mod.LeafCombination(act.Action('a%d' % i)) for i in range(n)]
    p = w.reals('p', n)
    s = sum(p)
    valid = w.conj([w.conj([w.le(0, x), w.le(x, 1)]) for x in p] + [w.eq(s, 1)])
    bad = [w.disj([w.le(x, -1e-3), w.le(1 + 1e-3, x)]) for x in p] + [w.disj([w.le(s, 1 - 1e-3), w.le(1 + 1e-3, s)])]
    good = [w.conj([w.le(0, x), w.le(x, 1)]) for x in p] + [w.eq(s, 1)]
    off = w.disj(bad)
    for x, y in zip(bad, good):
        w.assume(w.disj([x, y]))
    given = w.array(p) if kind == 'array' else tuple(p) if kind == 'tuple' else list(p)
    c = None
    if later:
        c = mod.AlternativeCombination(ch, name='c')
    try:
        if later:
            c.proba = given
        else:
            c = mod.AlternativeCombination(ch, name='c', probabilities=given)
        w.check(valid, 'only distributions are accepted')
        w.check(len(c.proba) == n, 'probabilities are kept as given')
        w.check_conj([w.eq(x, y) for x, y in zip(c.proba, p)], 'probabilities are kept as given')
        d = c.deep_copy('{} copy')
        w.check_conj([w.eq(x, y) for x, y in zip(d.proba, p)], 'probabilities are kept as given')
    except ValueError:
        w.check(off, 'distributions are not refused')
        if later:
            w.check_conj([w.eq(x * n, 1) for x in c.proba], 'a refused change changes nothing')
    u = mod.AlternativeCombination(ch, name='u')
    w.check(len(u.proba) == n, 'uniform by default')
    w.check_conj([w.eq(x * n, 1) for x in u.proba], 'uniform by default')


def instances(tier):
    th = tier == 'thorough'
    L = ['every order is there once', 'attributes of actions are kept', 'structure is kept',
         'the original is left as it was', 'parts are renamed per order']
    out = [Inst('flat-%d' % n, expansion, L, n=n, shape=()) for n in (1, 2, 3, 4, 5)]
    out += [Inst('part-%d' % n, expansion, L, n=n, shape=(2, 2) if th or n < 3 else (2,)) for n in (1, 2, 3)]
    for k, t in enumerate(['par(seq(., par(., .)), alt(., .))', 'par(alt(., seq(., .), .), .)', 'par(., par(., .), .)',
                           'par(seq(alt(., .), alt(., .)), seq(., ., .))', 'par(alt(., ., ., .), .)',
                           'par(seq(., ., ., ., alt(., .)), par(., ., .))'] + (['par(., ., ., alt(., .), .)'] if th else [])):
        out.append(Inst('fixed-%d' % k, expansion, L, n=0, parts=t))
    P = ['only distributions are accepted', 'distributions are not refused', 'probabilities are kept as given',
         'uniform by default']
    for n in (1, 2, 3, 5) + ((4, 6) if th else ()):
        for kind in ('list', 'array', 'tuple') if n == 2 else ('list',):
            out.append(Inst('probabilities-%d-%s' % (n, kind), probabilities, P, n=n, kind=kind))
        out.append(Inst('change-%d' % n, probabilities, P + ['a refused change changes nothing'], n=n, kind='array',
                        later=True))
    return out
