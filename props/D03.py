"""Generated bring-next models."""
from . import collab, tasks
from .common import Inst
from .D01 import FIXED, before_spec

BOUNDS = ('all task trees of up to two levels of up to 2 parts with at most 8 leaf occurrences (thorough: all '
          'of (3, 2)) and fixed trees of 3 levels, leaves sharing objects in every way among 2 (or as fixed), '
          'unknown costs, rewards and probabilities of alternatives, looping or not, with sure or unsure answers.')
ASSUMPTIONS = ['leaves have distinct names; objects of the leaves are among the distinct ones given']
NONE, YES, NO, ERR = range(4)


def dist(**kw):
    return [kw.get(k, 0.) for k in ('none', 'yes', 'no', 'error')]


def model(w, text=None, level=None, objects=2, given=True, alike=False, cross=True, top=None):
    mod = w.load(collab.BNX)
    w.share_terms()
    spec = tasks.parse(text) if text else tasks.choose(w, level, 'top', leaf=True, top=top)
    n = len(spec.leaves())
    probas = collab.alternatives(w, spec, given)
    steps, entry = collab.steps_of(spec, probas)
    if len(steps) > 8 and not text:
        return
    obj_names = ['Leg', 'leg', 'x-2'][:objects]
    obj = [w.int('object%d' % i, 0, objects - 1).__index__() if not alike or i < 2 else i % objects
           for i in range(n)]
    com, get, err, end_r = w.real('com'), w.real('get'), w.real('err'), w.real('end reward')
    loop = w.flag('loop')
    noans = w.flag('no answer') if cross else not loop
    disc = w.pick('discount', [None, .5] + (['any'] if n < 2 else [])) if n < 3 else None
    if disc == 'any':
        disc = w.real('any discount', 0, 1)
    # other conversions come before
    first = collab.task_of(w, before_spec(), lambda i: mod.CollaborativeAction('Earlier %d' % i, 'ab'[i % 2]),
                           lambda s: [.25, .75])
    mod.HTMToPOMDP(3., 4., 5., ['a', 'b'], end_reward=7., loop=not loop, no_answer=not noans,
                   discount=.5).task_to_pomdp(first)
    acts = [mod.CollaborativeAction('Bring The %d' % i, obj_names[obj[i]]) for i in range(n)]
    task = collab.task_of(w, spec, acts.__getitem__, probas)
    h2p = mod.HTMToPOMDP(com, get, err, list(obj_names), end_reward=end_r, loop=loop, no_answer=noans,
                         discount=disc)
    if n < 4:
        k = obj[0]
        acts[0].obj = obj_names[k - 1]
        h2p.task_to_pomdp(task)
        acts[0].obj = obj_names[k]
    m = h2p.task_to_pomdp(task)
    w.check(all(a.name == 'Bring The %d' % i and a.obj == obj_names[obj[i]] for i, a in enumerate(acts)),
            'the task is left as it was')
    index = {id(x): i for i, x in enumerate(steps)}
    end = len(steps)
    pos = lambda x: end if x == 'end' else index[id(x)]   # noqa: E731
    w.check(list(m.states) == ['before-bring-the-%d%s' % (
        x.leaf, ''.join('-order-%d' % i for i in x.suffix)) for x in steps] + ['end'], 'states are the steps and the end')
    w.check(list(m.actions) == ['get-' + o for o in obj_names] + ['ask-' + o for o in obj_names],
            'actions are to get or ask each object')
    w.check(list(m.observations) == ['none', 'yes', 'no', 'error'], 'observations are the documented ones')
    w.check(w.eq(m.discount, disc if disc is not None else .9 if loop else 1.), 'the discount is as given or documented')
    start = [0] * (end + 1)
    for x, p in entry:
        start[pos(x)] += p
    w.check_conj([w.eq(a, b) for a, b in zip(collab.entries(m.start), start)], 'tasks start at their first steps')
    T, O, R = collab.entries(m.T), collab.entries(m.O), collab.entries(m.R)
    firsts = {pos(x) for x, _ in entry}
    for a in range(2 * objects):
        is_get, o = a < objects, a % objects
        # end states of getting the object at the right time
        after = {pos(y) for x in steps if obj[x.leaf] == o for y, _ in x.next}
        conds = {}

        def also(label, c):
            conds.setdefault(label, []).append(c)
        for s in range(end + 1):
            right = s < end and obj[steps[s].leaf] == o
            want = [0] * (end + 1)
            if s == end:
                label = 'the end stays or restarts'
                if loop:
                    for f in firsts:
                        want[f] = 1. / len(firsts)
                else:
                    want[end] = 1
            elif is_get and right:
                label = 'the right object moves on'
                for y, p in steps[s].next:
                    want[pos(y)] += p
            else:
                label = 'anything else stays'
                want[s] = 1
            for p, q in zip(T[a][s], want):
                also(label, w.eq(p, q))
            also('probabilities are proper', w.eq(sum(T[a][s]), 1))
            if is_get:
                law, label = dist(none=.9, error=.1) if s in after else dist(error=1.), 'wrong objects are noticed'
            else:
                yes, no = (dist(none=.1, yes=.9), dist(none=.1, no=.9)) if noans else (dist(yes=1.), dist(no=1.))
                law, label = yes if right else no, 'questions are answered about the current step'
            for p, q in zip(O[a][s], law):
                also(label, w.eq(p, q))
            for t in range(end + 1):
                cost, label = (err, 'wrong objects cost the error') if is_get else (com, 'questions have their cost')
                moves = is_get and right and t in {pos(y) for y, _ in steps[s].next}
                if moves:
                    cost, label = get, 'right objects have their cost'
                if loop and s == end:
                    cost, label = -end_r, 'the end is rewarded'
                elif not loop and s == t == end:
                    cost, label = 0, 'the end is free'
                elif not loop and t == end:
                    if T[a][s][t] is 0:   # noqa: F632
                        continue
                    cost, label = cost - end_r, 'the end is rewarded'
                for r in R[a][s][t]:
                    also(label, w.eq(-r, cost))
        for label in conds:
            w.check_conj(conds[label], label)


LABELS = ['the end stays or restarts', 'the right object moves on', 'anything else stays',
          'probabilities are proper', 'questions are answered about the current step', 'wrong objects are noticed',
          'right objects have their cost', 'wrong objects cost the error', 'questions have their cost',
          'the end is rewarded', 'the end is free']


def instances(tier):
    th = tier == 'thorough'
    out = [Inst('leaf', model, LABELS, text='.'), Inst('one-level', model, LABELS, level=(3,)),
           Inst('three-objects', model, LABELS, text='alt(., seq(., .))', objects=3)]
    for k in tasks.KINDS:
        out.insert(0, Inst('two-levels-' + k, model, LABELS, level=(3, 2) if th else (2, 2), alike=True, cross=th, top=k))
    for i, t in enumerate(FIXED + ['seq(., ., ., ., .)', 'seq(., alt(., ., ., .), .)', 'alt(., ., ., ., ., ., .)', 'seq(., alt(., ., ., ., .))'] + (['par(., ., .)', 'alt(par(., .), seq(., par(., .)))', 'par(par(., .), .)'] if th else [])):
        out.append(Inst('fixed-%d' % i, model, LABELS, text=t, alike=True, given=i % 3 != 0))
    return out
