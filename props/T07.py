"""Export, import and searches of task trees."""
import io
import itertools
import json
import os

from . import tasks
from .common import Inst

JSON_MOD = 'task_models.json_to_htm'
BOUNDS = ('all trees of up to two levels of combinations of up to 2 children (thorough 3 and 2) and fixed trees of '
          'up to 4 levels (searches: sequences only); unknown distinct identifiers, any current identifier, any agent and any highlighting '
          'of each node, names over a small alphabet; task files of up to 5 nodes; exports of 23 nodes.')
ASSUMPTIONS = ['searched texts are lower case; identifiers are distinct']


def tree_of(w, shape, text, kinds=('seq', 'alt', 'par')):
    if text:
        return tasks.parse(text)
    return tasks.choose(w, shape, 'top', kinds=kinds)


def order(spec, parent=None, out=None):
    """[(spec, index of its parent)] in visiting order."""
    out = [] if out is None else out
    me = len(out)
    out.append((spec, parent))
    for c in spec.children:
        order(c, me, out)
    return out


KIND = {'seq': 'Sequential', 'alt': 'Alternative', 'par': 'Parallel', 'leaf': None}


def export_wide(w, text):
    export(w, text=text, free=2)


def export(w, shape=None, text=None, free=None):
    mod = w.load(tasks.TASK_MOD)
    act = w.load('task_models.action')
    spec = tree_of(w, shape, text)
    names, highs = {}, {}

    def make(s):
        h = w.flag('high%d' % len(highs)) if free is None or len(highs) < free else len(highs) % 2 == 0
        nm = ('n0', ' n1', '')[len(names) % 3]
        names[id(s)], highs[id(s)] = nm, h
        if s.kind == 'leaf':
            return mod.LeafCombination(act.Action(nm), highlighted=h)
        ch = [make(c) for c in s.children]
        return getattr(mod, tasks.KINDS[s.kind])(ch, name=nm, highlighted=h)
    task = mod.HierarchicalTask(make(spec))
    title = w.pick('title', [None, 'a title', ''])
    d = task.as_dictionary() if title is None else task.as_dictionary(name=title)
    w.check(not task.is_empty(), 'only tasks without root are empty')
    w.check(d['name'] == ('Hierarchical task tree' if title is None else title), 'the export is named')
    seen = []

    def visit(s, e, parent):
        w.check(e['id'] == len(seen) and type(e['id']) is int, 'nodes are numbered in visiting order')
        seen.append(e['id'])
        w.check(e['parent'] == parent, 'nodes have the number of their parent')
        w.check(e['name'] == names[id(s)], 'names are kept')
        w.check(e['combination'] == KIND[s.kind], 'combinations are kept')
        w.check(list(e['attributes']) == (['highlighted'] if highs[id(s)] else []), 'highlighting is kept')
        w.check(('children' in e) == (s.kind != 'leaf'), 'structure is kept')
        if s.kind != 'leaf':
            w.check(len(e['children']) == len(s.children), 'structure is kept')
            for c, f in zip(s.children, e['children']):
                visit(c, f, e['id'])
    visit(spec, d['nodes'], None)
    json.dumps(d, allow_nan=False)
    again = mod.HierarchicalTask(task.root).as_dictionary() if title is None else task.as_dictionary(name=title)
    w.check(again == d, 'exporting again gives the same')
    e = mod.HierarchicalTask()
    w.check(e.is_empty() and e.as_dictionary()['nodes'] is None, 'only tasks without root are empty')
    # back from the export
    back = w.load(JSON_MOD).build_htm(json.loads(json.dumps(d['nodes'])))
    w.check(mod.HierarchicalTask(back).as_dictionary()['nodes'] == d['nodes'], 'an export is read back')


def description(w, spec, tag=''):
    """A description in the format of task files and the facts it states."""
    nodes = order(spec)
    ids = [w.int('id%s%d' % (tag, i)) for i in range(len(nodes))]
    for i in range(len(ids)):
        for j in range(i):
            w.assume(w.neg(w.eq(ids[i], ids[j])))
    facts = []
    for i, (s, p) in enumerate(nodes):
        at = []
        if s.kind == 'leaf':
            agent = w.pick('agent%d' % i, ['human', 'robot', None])
            if agent:
                at.append(agent)
        else:
            agent = None
        high = w.flag('high%d' % i) if i < 3 else i % 2 == 0
        if high:
            at.insert(i % 2, 'highlighted')
        facts.append(dict(spec=s, id=ids[i], parent=None if p is None else ids[p], agent=agent, high=high,
                          name='Node %d' % i if i % 2 else 'node %d' % i, attributes=at))

    def desc(i):
        f = facts[i]
        d = {'name': f['name'], 'id': f['id'], 'parent': f['parent'], 'attributes': f['attributes'],
             'combination': KIND[f['spec'].kind]}
        if f['spec'].kind != 'leaf':
            d['children'] = [desc(j) for j in range(len(nodes)) if nodes[j][1] == i]
        return d
    return desc(0), facts, nodes


def flatten(node):
    return [node] + ([] if node.kind is None else [x for c in node.children for x in flatten(c)])


def imported(w, shape=None, text=None):
    spec = tree_of(w, shape, text)
    d, facts, nodes = description(w, spec)
    root = w.load(JSON_MOD).build_htm(d)
    got = flatten(root)
    w.check(len(got) == len(nodes), 'structure is kept')
    for g, f, (s, p) in zip(got, facts, nodes):
        w.check(g.kind == KIND[s.kind], 'structure is kept')
        if s.kind != 'leaf':
            w.check(len(g.children) == len(s.children), 'structure is kept')
        else:
            w.check(g.action.name == f['name'], 'names are kept')
            w.check(g.action.agent == (f['agent'] or 'None'), 'agents are kept')
        w.check(g.name == f['name'], 'names are kept')
        w.check(w.eq(g.idx, f['id']), 'identifiers are kept')
        w.check(g.parent is None if p is None else w.eq(g.parent, f['parent']), 'identifiers are kept')
        w.check(g.highlighted == f['high'], 'highlighting is kept')
    # an export numbers nodes whatever their identifiers
    e = w.load(tasks.TASK_MOD).HierarchicalTask(root).as_dictionary()['nodes']

    def listed(x):
        return [x] + [y for c in x.get('children', []) for y in listed(c)]
    ex = listed(e)
    below = [g for g in got if g.kind is not None and g is not root] or [root]
    sub = w.load(tasks.TASK_MOD).HierarchicalTask(below[-1]).as_dictionary()['nodes']
    w.check(sub['id'] == 0 and sub['parent'] is None and
            all(c['parent'] == 0 and c['id'] > 0 for c in sub.get('children', [])),
            'parts are exported as trees of their own')
    w.check(len(ex) == len(nodes) and all(type(x['id']) is int and x['id'] == i and x['parent'] == p
                                          for i, (x, (_, p)) in enumerate(zip(ex, nodes))),
            'nodes are numbered in visiting order')


def from_file(w, text):
    """The same from a file."""
    spec = tasks.parse(text)
    nodes = order(spec)
    ids = [w.pick('first', [0, 7])] + [3 * i + 8 for i in range(1, len(nodes))]
    names = ['Build \u2192 it', ' caf\u00e9', '', 'plain', '\u6728 wood', 'a "b" \\n']
    facts = []
    for i, (s, p) in enumerate(nodes):
        agent = w.pick('agent%d' % i, ['human', 'robot', None]) if s.kind == 'leaf' and i < 4 else None
        high = w.flag('high%d' % i) if i < 3 else i % 2 == 0
        facts.append((names[i % len(names)], agent, high))

    def desc(i):
        s, p = nodes[i]
        nm, agent, high = facts[i]
        d = {'name': nm, 'id': ids[i], 'parent': None if p is None else ids[p], 'combination': KIND[s.kind],
             'attributes': (['highlighted'] if high else []) + ([agent] if agent else [])}
        if s.kind != 'leaf':
            d['children'] = [desc(j) for j in range(len(nodes)) if nodes[j][1] == i]
        return d
    path = os.path.join(w.tmpdir(), 'task.json')
    with io.open(path, 'w', encoding='utf-8') as f:
        f.write(json.dumps({'name': 'some task', 'nodes': desc(0)}, ensure_ascii=w.flag('ascii')))
    task = w.load(JSON_MOD).json_to_htm(path)
    w.check(not task.is_empty(), 'a file is read back')
    got = flatten(task.root)
    w.check(len(got) == len(nodes), 'structure is kept')
    for i, (g, (s, p), (nm, agent, high)) in enumerate(zip(got, nodes, facts)):
        w.check(g.kind == KIND[s.kind] and (s.kind == 'leaf' or len(g.children) == len(s.children)),
                'structure is kept')
        w.check(g.name == nm, 'names are kept')
        w.check(g.idx == ids[i] and g.parent == (None if p is None else ids[p]), 'identifiers are kept')
        w.check(g.highlighted == high, 'highlighting is kept')
        if s.kind == 'leaf':
            w.check(g.action.agent == (agent or 'None') and g.action.name == nm, 'agents are kept')


def searches(w, shape=None, text=None, what='parent'):
    mod = w.load(tasks.TASK_MOD)
    act = w.load('task_models.action')
    spec = tree_of(w, shape, text, kinds=('seq',))
    nodes = order(spec)
    n = len(nodes)
    ids = [w.int('id%d' % i) for i in range(n)]
    for i in range(n):
        for j in range(i):
            w.assume(w.neg(w.eq(ids[i], ids[j])))
    names = ['Top', ' Build the Leg', 'bring LEG-1', 'Hold', 'the top of a leg', 'screw', 'Legs', '']
    agents, made = {}, []

    def make(i):
        s = nodes[i][0]
        made.append(None)
        if what == 'name':
            nm = names[(w.int('name%d' % i, 0, 2) if i < 4 else w.int('name%d' % i, 3, 4)).__index__() + i % 3]
        else:
            nm = 'n%d' % i
        if s.kind == 'leaf':
            agents[i] = w.pick('agent%d' % i, ['human', 'robot'] + ['nonhuman', 'Human', 'None'][i % 4:i % 4 + 1]) if what == 'human' else 'human'
            x = mod.LeafCombination(act.Action(nm, agent=agents[i]), idx=ids[i])
        else:
            x = getattr(mod, tasks.KINDS[s.kind])([make(j) for j in range(n) if nodes[j][1] == i], idx=ids[i],
                                                  name=nm)
        made[i] = x
        return x

    root = make(0)
    task = mod.HierarchicalTask(root)
    if what == 'parent':
        k = w.int('searched')
        got = task.find_parent_node(root, k)
        want = w.conj([w.disj([w.neg(w.eq(k, ids[i])), got is made[nodes[i][1]]]) for i in range(1, n)] or [True])
        w.check(want, 'the parent of the identified node is found')
        w.check(w.disj([w.eq(k, ids[i]) for i in range(1, n)] or [False]) if got is not None else True,
                'nothing is found for other identifiers')
    elif what == 'human':
        k = w.int('current')
        got = task.find_next_human_action(root, k)
        # the first later human leaf below the root
        late = [w.neg(w.le(ids[i], k)) if nodes[i][0].kind == 'leaf' and agents[i] == 'human' else False
                for i in range(1, n)]
        for i in range(1, n):
            first = w.conj([late[i - 1]] + [w.neg(x) for x in late[:i - 1]])
            w.check(w.implies(first, got is made[i]), 'the first later human action is found')
        w.check(w.implies(w.neg(w.disj(late or [False])), got is None), 'nothing is found without later human action')
    else:
        t = w.pick('text', ['leg', 'top', 'h', 'zz', '', 'uild', 'p of', 'the leg'])
        got = task.find_node_by_name(root, t)
        hits = [made[i] for i in range(1, n) if t in made[i].name.lower()]
        w.check(got is (hits[0] if hits else None), 'the first node of that name is found')


def instances(tier):
    th = tier == 'thorough'
    E = ['nodes are numbered in visiting order', 'nodes have the number of their parent', 'names are kept',
         'combinations are kept', 'highlighting is kept', 'structure is kept', 'an export is read back']
    fixed = ['seq(par(., .), alt(., seq(., .)), .)', 'seq(seq(seq(., .), .), par(., seq(., .)))']
    out = [Inst('export-0', export, E, shape=()), Inst('export-1', export, E, shape=(3,)),
           Inst('export-2', export, E, shape=(2, 1)),
           Inst('import-0', imported, ['identifiers are kept', 'agents are kept'], shape=()),
           Inst('import-1', imported, ['identifiers are kept', 'agents are kept'], shape=(2,)),
           Inst('import-2', imported, ['identifiers are kept', 'agents are kept'], shape=(1, 2))]
    W = {'parent': ['the parent of the identified node is found', 'nothing is found for other identifiers'],
         'human': ['the first later human action is found', 'nothing is found without later human action'],
         'name': ['the first node of that name is found']}
    for k in sorted(W):
        out.append(Inst('find-%s' % k, searches, W[k], shape=(2, 2) if k != 'name' or th else (2, 1), what=k))
        for i, t in enumerate(fixed if th or k == 'parent' else ['seq(par(., .), alt(., seq(.)))'] if k == 'human' else []):
            out.append(Inst('find-%s-fixed-%d' % (k, i), searches, W[k], text=t, what=k))
    out += [Inst('file-%d' % i, from_file, ['identifiers are kept', 'agents are kept', 'names are kept'], text=t)
            for i, t in enumerate(['par(., alt(., .), .)', 'seq(par(., .), .)'])]
    wide = 'seq(%s, par(%s))' % (', '.join('.' * 11), ', '.join('.' * 10))
    out += [Inst('export-wide', export_wide, E, text=wide)]
    if th:
        out += [Inst('export-%d-fixed' % i, export, E, text=t) for i, t in enumerate(fixed)]
        out += [Inst('import-%d-fixed' % i, imported, ['identifiers are kept', 'agents are kept'], text=t)
                for i, t in enumerate(['seq(par(., .), alt(., seq(.)))'])]
    return out
