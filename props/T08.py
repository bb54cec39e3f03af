"""Meta-actions."""
from . import tasks
from .common import Inst

BOUNDS = ('all nestings of meta-actions of up to 3 parts at the top and 2 levels of 2 parts below (thorough 3 and 2), '
          'any kind at each, and fixed ones of 4 levels or 12 parts, parts being actions of two classes, with equal names or not.')
ASSUMPTIONS = ['meta-actions have at least one part']
META = {'seq': 'sequence', 'alt': 'alternative', 'par': 'parallel'}
SEP = {'seq': '\u2192', 'par': '||', 'alt': '\u2228'}
KIND = {'seq': 'Sequential', 'alt': 'Alternative', 'par': 'Parallel'}


def conversion(w, shape=None, text=None, same=False):
    mod = w.load(tasks.TASK_MOD)
    act = w.load('task_models.action')
    spec = tasks.parse(text) if text else tasks.choose(w, shape, 'top', leaf=False)
    acts = {}

    def make(s):
        if s.kind == 'leaf':
            nm = 'a%d' % (s.leaf % 2 if same else s.leaf)
            cls = mod.AbstractAction if s.leaf % 2 else act.PrePostConditionAction
            a = cls(nm) if s.leaf % 2 else cls(act.MatchAllCondition(), act.MatchAllCondition(), name=nm)
            acts[s.leaf] = a
            return a
        return mod.MetaAction(META[s.kind], [make(c) for c in s.children])

    def name(s):
        if s.kind == 'leaf':
            return acts[s.leaf].name
        return '(%s)' % SEP[s.kind].join(map(name, s.children))

    def same_tree(s, c):
        if s.kind == 'leaf':
            w.check(c.kind is None and not c.highlighted, 'actions become leaves')
            w.check(c.action is acts[s.leaf], 'actions become leaves')
            return
        w.check(c.kind == KIND[s.kind] and type(c).__name__ == tasks.KINDS[s.kind],
                'meta-actions become the combination of their kind')
        w.check(len(c.children) == len(s.children), 'parts are converted in order')
        for x, y in zip(s.children, c.children):
            same_tree(x, y)
        if s.kind == 'alt':
            w.check_conj([w.eq(p * len(s.children), 1) for p in c.proba], 'alternatives are equally likely')
    m = make(spec)
    w.check(m.name == name(spec), 'meta-actions are named after their parts')
    made = []
    for k in range(2):   # converting does not consume
        made.append(m.to_combination())
        same_tree(spec, made[k])
    ids = [id(x) for c in made for x in nodes(c)]
    w.check(len(set(ids)) == len(ids), 'conversions are separate')
    w.check(m.kind == META[spec.kind] and len(m.actions) == len(spec.children) and m.name == name(spec),
            'the meta-action is unchanged')


def nodes(c):
    return [c] + ([] if c.kind is None else [x for d in c.children for x in nodes(d)])


def compacted(w, kind):
    """From a graph: a chain or clique compacted into a meta-action."""
    mod = w.load(tasks.TASK_MOD)
    g = mod.ConjugateTaskGraph()
    a = [mod.AbstractAction('a%d' % i) for i in range(4)]
    g.add_transition(g.initial, 's', a[0])
    g.add_transition(g.initial, 's', a[3])
    g.add_transition(a[0], 's', a[1])
    g.add_transition(a[1], 's', a[2] if w.flag('long') else g.terminal)
    g.add_transition(a[3], 's', g.terminal)
    for c in list(g.get_max_chains()):
        m = mod.MetaAction(kind, c)
        g.compact(c, m)
        t = m.to_combination()
        w.check([x.action for x in t.children] == list(c), 'parts are converted in order')
        w.check(t.kind == {'sequence': 'Sequential', 'parallel': 'Parallel', 'alternative': 'Alternative'}[kind],
                'meta-actions become the combination of their kind')


def instances(tier):
    th = tier == 'thorough'
    L = ['meta-actions become the combination of their kind', 'parts are converted in order', 'actions become leaves',
         'meta-actions are named after their parts']
    out = [Inst('one-level', conversion, L, shape=(3,)), Inst('one-level-same', conversion, L, shape=(3,), same=True),
           Inst('two-levels', conversion, L, shape=(3, 2) if th else (2, 2)),
           Inst('three-levels', conversion, L, shape=(2, 2, 2) if th else (1, 2, 2))]
    out += [Inst('graph-' + k, compacted, L[:2], kind=k) for k in ('sequence', 'parallel', 'alternative')]
    for i, t in enumerate(['seq(par(alt(seq(., .), .), .), .)', 'alt(seq(., par(., .)), par(., seq(., alt(., .))))',
                           'seq(%s, par(%s))' % (', '.join('.' * 11), ', '.join('.' * 9))]):
        out.append(Inst('fixed-%d' % i, conversion, L, text=t))
    return out
