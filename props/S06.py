"""Names of states and task nodes of the supportive model."""
import re

from symex import engine as E

from . import tasks
from .common import Inst
from .S01 import assign, features

MOD = 'task_models.supportive'
BOUNDS = ('the text of every state (all features symbolic) for 1 to 40 task nodes, 0 to 3 preferences, 0 to 2 body '
          'features and 0 to 4 objects (thorough up to 7), or up to 9 preferences or body features or 30 objects; the names of models of tasks of up to 5 leaves '
          '(sequences, alternatives, parallel parts), with 0 to 2 objects and 1 or 2 preferences, for every state.')
ASSUMPTIONS = ['unknown numbers are carried through the text as marked numerals']

SHOWN = 'the text of a state shows its number and features'
NAMED = 'states are named in order'
TASKS = 'task nodes are named in order'
FINAL = 'final states have the final task node'


def marked(w, run):
    return E.engine().tokens.lookup(run) if w.symbolic else None


def number(w, run):
    v = marked(w, run)
    return int(run) if v is None else v


def digits(w, run):
    """The one-digit numbers written side by side in run."""
    out, i = [], 0
    while i < len(run):
        v = marked(w, run[i:i + 10])
        out.append(int(run[i]) if v is None else v)
        i += 1 if v is None else 10
    return out


def text(w, nh, npf, nb, no):
    s = w.load(MOD)._SupportivePOMDPState(nh, npf, nb, no)
    r = features(w, '', nh, npf, nb, no)
    assign(s, r, 'hpbo')
    code = s.to_int()
    groups = [g for g in (r.prefs, r.body, r.objs) if g]
    runs = re.findall(r'\d+', str(s))
    w.check(len(runs) == 2 + len(groups), SHOWN)
    w.check(w.conj([w.eq(number(w, runs[0]), code), w.eq(number(w, runs[1]), r.htm)]), SHOWN)
    for run, g in zip(runs[2:], groups):
        bits = digits(w, run)
        w.check(len(bits) == len(g) and w.conj([w.eq(x, y) for x, y in zip(bits, g)]), SHOWN)
    w.check(w.eq(s.to_int(), code), 'naming a state leaves it as it was')


def listed(w, task, objects, prefs):
    mod, tm = w.load(MOD), w.load(tasks.TASK_MOD)
    spec = tasks.parse(task)

    def action(i):
        a = mod.SupportedAction('act-%d' % i)
        a.hold, a.conditions = None, [(mod.USES if k else mod.CONSUMES, 'o%d' % k) for k in range(objects)]
        return a

    class M(mod.SupportivePOMDP):
        preferences = ['hold', 'other'][:prefs]
        p_preferences = [.3, .4][:prefs]
    m = M(tasks.build(tm, spec, action))
    names, tops = list(m.states), list(m.htm_names)
    w.check(len(names) == m.n_states and len(set(names)) == len(names), NAMED, info=str(names[:4]))
    w.check(len(tops) == m.n_htm_states and len(set(tops)) == len(tops) and tops[m.htm_clean] == 'clean'
            and tops[m.htm_final] == 'final', TASKS, info=str(tops))
    # every execution is a path of names
    words = set(tasks.executions(spec))
    succs = {i: list(m.htm_succs[i]) for i in range(len(m.htm_nodes))}
    got = set()

    def walk(i, word):
        if i == m.htm_clean:
            got.add(word)
            return
        for j in succs[i]:
            walk(j, word + (int(tasks.base(tops[i]).split('-')[1]),))
    for i in m.htm_init:
        walk(i, ())
    w.check(got == words, TASKS, info=str(sorted(got ^ words)))
    # any state by its features
    r = features(w, '', m.n_htm_states, prefs, 1, objects)
    s = m._int_to_state()
    assign(s, r, 'hpbo')
    code = s.to_int()
    k = code.__index__()
    w.check(names[k] == str(m._int_to_state(k)), NAMED)
    runs = re.findall(r'\d+', names[k])
    w.check(int(runs[0]) == k, NAMED)
    w.check(w.eq(int(runs[1]), r.htm), NAMED, info=names[k])
    w.check(bool(m.is_final(code)) == bool(tops[r.htm.__index__()] == 'final'), FINAL)


def instances(tier):
    th = tier == 'thorough'
    sizes = [(3, 1, 1, 2), (1, 0, 0, 3), (2, 2, 1, 0), (4, 3, 2, 1), (12, 1, 1, 4), (40, 0, 1, 2), (3, 1, 1, 30), (2, 9, 0, 1), (2, 1, 9, 0)]
    out = [Inst('text-%d-%d-%d-%d' % z, text, [SHOWN], nh=z[0], npf=z[1], nb=z[2], no=z[3])
           for z in sizes + ([(40, 3, 2, 7), (7, 2, 0, 7)] if th else [])]
    for k, (t, o, p) in enumerate([('seq(., ., .)', 1, 1), ('alt(., seq(., .))', 0, 2), ('par(., .)', 1, 1), ('.', 2, 1)] +
                                  ([('seq(., par(., .))', 2, 1), ('alt(par(., .), seq(., .), .)', 1, 2)] if th else [])):
        out.append(Inst('names-%d' % k, listed, [NAMED, TASKS, FINAL], task=t, objects=o, prefs=p))
    return out
