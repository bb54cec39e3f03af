"""Experiments and their parameters."""
import contextlib
import inspect
import io
import json
import logging
import os
import sys
import types

import numpy as np

from symex.loader import REPO
from .E01 import Model, Policy, judge, setup, MOD
from .common import Inst

BOUNDS = ('every choice of parameters given or left to their defaults one at a time or all but one, with unknown values; '
          'up to 2 evaluations of up to 2 transitions of any simulator; config files, working paths and debug switch '
          'in every combination; results of up to 3 jobs with 0 to 3 evaluations of unknown returns, times and calls; '
          'the three sample jobs with every policy, task and reward option.')
ASSUMPTIONS = ['the launcher and jobs of expjobs are stand-ins with the attributes args, jobs, exps, path, name and config',
               'processes are replaced by calls in order (E02)', 'debug runs use at most 100 of anything']

KEYS = {'n_warmup': 'int', 'n_evaluations': 'int', 'iterations': 'int', 'rollout-iterations': 'int',
        'exploration': 'real', 'relative-explo': 'flag', 'belief-values': 'flag', 'n_particles': 'int',
        'horizon-type': 'type', 'horizon-length': 'small', 'intermediate-rewards': 'flag', 'p_preference': 'unit',
        'policy': 'policy', 'p_change_preference': 'unit'}
DEFAULTS = {'n_warmup': 2000, 'n_evaluations': 20, 'iterations': 1000, 'rollout-iterations': 1, 'exploration': 50,
            'relative-explo': False, 'belief-values': False, 'n_particles': 150, 'horizon-type': 'transitions',
            'horizon-length': 20, 'intermediate-rewards': False, 'p_preference': .3, 'policy': 'pomcp'}


def value(w, k):
    t = KEYS[k]
    if t == 'int':
        return w.int(k, 1, 10 ** 6)
    if t == 'small':
        return w.int(k, 1, 3).__index__()
    if t == 'real':
        return w.real(k, 0, 1000)
    if t == 'unit':
        return w.real(k, 0, 1)
    if t == 'flag':
        return w.flag(k)
    if t == 'type':
        return ('transitions', 'htm')[w.int(k, 0, 1).__index__()]
    return ('pomcp', 'always-hold')[w.int(k, 0, 1).__index__()]


def given(w):
    ks = sorted(KEYS)
    i = w.int('parameter', 0, len(ks)).__index__()
    inv = w.flag('all but')
    return {k: value(w, k) for j, k in enumerate(ks) if (j == i) != inv}


def same(w, a, b, label, keys=None):
    """Equal dictionaries of numbers, strings and flags."""
    w.check(set(a) == set(b) if keys is None else keys <= set(a), label)
    for k in (b if keys is None else keys):
        x, y = a[k], b[k]
        if isinstance(y, (str, bool)):
            w.check(x == y and isinstance(x, type(y)), label, k)
        else:
            w.check(w.eq(x, y), label, k)


@contextlib.contextmanager
def quiet():
    logging.disable(logging.CRITICAL)
    out = sys.stdout
    sys.stdout = io.StringIO()
    argv = sys.argv
    try:
        yield
    finally:
        sys.stdout = out
        sys.argv = argv
        logging.disable(logging.NOTSET)


def recorder(w):
    """A planner that records how it was built."""
    pomcp = w.load('task_models.lib.pomcp')
    sig = inspect.signature(pomcp.POMCPPolicyRunner.__init__)

    class Planner(object):
        def __init__(self, *a, **kw):
            b = sig.bind(None, *a, **kw)
            b.apply_defaults()
            self.made = b.arguments
            self.log = []

        def reset(self):
            self.log.append('reset')

        def get_action(self, iterations=None):
            self.log.append(iterations)
            return 'wait'

        def step(self, o):
            self.log.append(o)
    pomcp.POMCPPolicyRunner = Planner
    return Planner


def judge_planner(w, exp, Planner, expected, mod):
    p = exp.policy
    w.check(isinstance(p, Planner), 'the planner is built')
    m = p.made
    w.check(m['model'] is exp.model, 'the planner plans for the model')
    for k, a in (('iterations', 'iterations'), ('rollout-iterations', 'rollout_it'), ('exploration', 'exploration')):
        w.check(w.eq(m[a], expected[k]), 'the planner has the parameters asked for', k)
    for k, a in (('relative-explo', 'relative_exploration'), ('belief-values', 'belief_values')):
        w.check(bool(m[a]) == expected[k], 'the planner has the parameters asked for', k)
    w.check(m['belief'] == 'particle', 'the planner uses particles')
    w.check(w.eq(m['belief_params']['n_particles'], expected['n_particles']),
            'the planner has the parameters asked for', 'n_particles')
    h, n = m['horizon'], expected['horizon-length']
    h = h() if callable(h) else m['model'] and mod.NTransitionsHorizon(h)
    htm = expected['horizon-type'] == 'htm'
    model, states = exp.model, []
    for x in (0, 1):
        s = model._int_to_state()
        s.htm = x
        states.append(s.to_int())
    s = model._int_to_state()
    s.htm = model.htm_final
    final = s.to_int()
    # transitions that stay on the node, then ones that change it
    for _ in range(n - 1):
        w.check(not h.is_reached(), 'the horizon is the one asked for')
        h.decrement(0, states[0], states[0], 0)
    w.check(not h.is_reached(), 'the horizon is the one asked for')
    if htm:
        for _ in range(2):
            h.decrement(0, states[0], states[0], 0)
        for k in range(n):
            w.check(not h.is_reached(), 'the horizon is the one asked for')
            h.decrement(0, states[k % 2], states[(k + 1) % 2], 0)
        w.check(h.is_reached(), 'the horizon is the one asked for')
    else:
        h.decrement(0, states[0], states[0], 0)
        w.check(h.is_reached(), 'the horizon is the one asked for')
        h = m['horizon']()
        h.decrement(0, states[0], final, 0)
        w.check(h.is_reached(), 'the horizon is the one asked for')


def planner(w):
    """init_pomcp_policy for every choice of parameters."""
    setup(w)
    Planner = recorder(w)
    mod = w.load(MOD)
    sup, task = w.load('task_models.supportive'), w.load('task_models.task')

    class Exp(mod.SupportiveExperiment):
        def init_run(self):
            self.model = sup.SupportivePOMDP(task.SequentialCombination(
                [task.LeafCombination(sup.AssembleLeg('leg-%d' % i)) for i in range(2)]))
            self.init_pomcp_policy()
    g = given(w)
    expected = dict(DEFAULTS, **g)
    with quiet():
        other = Exp({'iterations': 7, 'horizon-type': 'htm', 'n_particles': 3})
        exp = Exp(dict(g))
        same(w, exp.parameters, expected, 'parameters given replace the defaults')
        Exp({'iterations': 8, 'n_warmup': 9})
        same(w, exp.parameters, expected, 'parameters of experiments are independent')
        exp.init_run()
        judge_planner(w, exp, Planner, expected, mod)
        same(w, other.parameters, dict(DEFAULTS, **{'iterations': 7, 'horizon-type': 'htm', 'n_particles': 3}),
             'parameters of experiments are independent')
        same(w, Exp().parameters, DEFAULTS, 'parameters left out have their defaults')


def experiment(w, mod, m, p, log, path, most, extra=True):
    class Exp(mod.SupportiveExperiment):
        EVALUATE_ARGUMENTS = {'max_horizon': most}

        def init_run(self):
            log.append(('init', dict(self.parameters)))
            self.model, self.policy = m, p

        def finish_run(self):
            log.append(('finish', self.results))
            log.append(('written', path is not None and os.path.getsize(path) < 6000))
            if extra:
                self.results['more'] = [np.int64(3), np.float64(.25), np.array([1, 2]), np.float32(.5), np.int32(7),
                                        np.uint8(9), np.array([[.5, 1.5], [2., 3.]]), np.array([]), np.float16(2)]
    return Exp


class Warm(Policy):
    """Counts the warm-up apart."""

    warm = ()
    started = False

    def get_action(self, iterations=None):
        if not self.started and not self.log:
            self.warm += (iterations,)
            return self.m.actions[0]
        return Policy.get_action(self)


def stand_ins(w, most):
    mp = setup(w)
    m = Model(w, discount=1., fixed=True)
    p = Warm(w, m, fixed=True)
    eps = []

    def repeat(func, k):
        out = []
        for _ in range(k):
            c, l, t, b = len(m.calls), len(p.log), len(p.taken), m.n_simulator_calls
            rep = func()
            eps.append((rep, m.calls[c:], p.log[l:], p.taken[t:], b, m.n_simulator_calls, m.last))
            out.append(rep)
        return out
    mp.repeat = repeat
    return w.load(MOD), m, p, eps


def judge_run(w, exp, m, p, eps, n_eval, warmup, most):
    w.check(len(p.warm) == 1, 'the planner is warmed up once')
    w.check(w.eq(p.warm[0], warmup), 'the warm-up is as long as asked for')
    w.check(w.eq(len(eps), n_eval), 'as many evaluations as asked for')
    w.check(len(exp.results['evaluations']) == len(eps) and
            all(x is e[0] for x, e in zip(exp.results['evaluations'], eps)), 'every evaluation is reported')
    for k, (rep, calls, log, taken, before, after, last) in enumerate(eps):
        judge(w, m, p, rep, calls, log, taken, m.starts[k], most, False, before, after,
              last if any(c[2] == last for c in calls) else None)


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x.tolist() if isinstance(x, (np.generic, np.ndarray)) else x


def running(w, most, to_file):
    """run() with unknown counts, to a file or not."""
    mod, m, p, eps = stand_ins(w, most)
    n, warm = w.int('n', 0, 2).__index__(), w.int('warm-up', 0, 5000)
    if to_file:
        warm = 17
    log = []
    path = os.path.join(w.tmpdir(), 'result of run.json') if to_file else None
    Exp = experiment(w, mod, m, p, log, path, most)
    if to_file:   # results of an earlier run
        with open(path, 'w') as f:
            f.write('{"evaluations": [%s]}' % ', '.join(['0'] * 3000))
    with quiet():
        other = Exp()
        exp = Exp({'n_evaluations': n, 'n_warmup': warm, 'note': 'x', 'empty': None})
        exp.log = lambda *a, **kw: None
        exp.path = path
        exp.run()
    judge_run(w, exp, m, p, eps, n, warm, most)
    w.check([x[0] for x in log] == ['init', 'finish', 'written'] and not log[2][1] and
            'evaluations' in log[1][1], 'results are finished before they are written')
    expected = dict(DEFAULTS, n_evaluations=n, n_warmup=warm, note='x', empty=None)
    w.check('evaluations' not in other.results, 'results of experiments are independent')
    same(w, exp.results['parameters'], expected, 'parameters are reported')
    if to_file:
        with open(path) as f:
            d = json.load(f)
        w.check(d['parameters'] == expected, 'parameters are reported')
        w.check(d['evaluations'] == plain(exp.results['evaluations']), 'every evaluation is written')
        w.check(d['more'] == [3, .25, [1, 2], .5, 7, 9, [[.5, 1.5], [2., 3.]], [], 2.], 'everything reported is written')


def arguments(w, most):
    """run_from_arguments for every combination of arguments."""
    mod, m, p, eps = stand_ins(w, most)
    log, seen = [], []
    base = experiment(w, mod, m, p, log, None, most, extra=False)

    class Exp(base):
        def finish_run(self):
            seen.append(self)
    d = w.tmpdir()
    config = os.path.join(d, 'conf.json')
    par = {'n_evaluations': w.int('n', 0, 1).__index__(), 'n_warmup': 12, 'exploration': 2.5, 'policy': 'other', 'new': [1]}
    with open(config, 'w') as f:
        json.dump(par, f)
    k = w.int('arguments', 0, 2).__index__()
    flag = w.flag('--debug')
    kw = w.flag('debug=True')
    argv = [[], [config], [config, d, 'job-1.5']][k] + (['--debug'] if flag else [])
    if flag and k and w.flag('first'):
        argv = ['--debug'] + argv[:-1]
    Exp.DEFAULT_PARAMETERS = dict(DEFAULTS, n_evaluations=1, n_warmup=3)
    with quiet():
        sys.argv = ['script'] + argv
        Exp.run_from_arguments(debug=True) if kw else Exp.run_from_arguments()
    w.check(len(seen) == 1, 'the experiment runs once')
    exp = seen[0]
    expected = dict(Exp.DEFAULT_PARAMETERS)
    if k:
        expected.update(par)
    if flag or kw:
        for x in ('n_warmup', 'n_evaluations', 'iterations', 'n_particles', 'horizon-length'):
            v = exp.parameters[x]
            w.check(0 < v <= 100, 'debug runs are short')
            expected[x] = v
    w.check(Exp.DEFAULT_PARAMETERS == dict(DEFAULTS, n_evaluations=1, n_warmup=3) and
            Exp().parameters == Exp.DEFAULT_PARAMETERS, 'parameters of experiments are independent')
    w.check(exp.parameters == expected, 'parameters come from the configuration')
    w.check(log[0][1] == expected, 'the parameters are there when the run is prepared')
    judge_run(w, exp, m, p, eps, expected['n_evaluations'], expected['n_warmup'], most)
    files = sorted(os.listdir(d))
    w.check(files == (['conf.json', 'job-1.5.json'] if k == 2 else ['conf.json']), 'results are written where asked for')
    if k == 2:
        with open(os.path.join(d, 'job-1.5.json')) as f:
            r = json.load(f)
        w.check(r['parameters'] == expected and r['evaluations'] == plain(exp.results['evaluations']),
                'every evaluation is written')


def lengths(w, given):
    """Evaluations are not limited by the horizon of the planner."""
    mod, m, p, eps = stand_ins(w, None)

    class Endless(Warm):
        def get_action(self, iterations=None):
            if not self.started and not self.log:
                self.warm += (iterations,)
            self.taken.append(0)
            return self.m.actions[0]
    n = len(m.calls)
    m.flat, p.__class__ = [], Endless

    def sample_transition(a, s, *args, **kw):
        m.flat.append(s)
        m.n_simulator_calls += 1
        return s + 1, 0, 0.
    m.sample_transition = sample_transition
    base = experiment(w, mod, m, p, [], None, None, extra=False)

    class Exp(base):
        EVALUATE_ARGUMENTS = {'max_horizon': given} if given else {}
    with quiet():
        exp = Exp({'n_evaluations': 2, 'n_warmup': 3, 'horizon-length': w.int('planned', 1, 30)})
        exp.run()
    k = given or 200
    w.check([len(e['actions']) for e in exp.results['evaluations']] == [k, k] and len(m.flat) == 2 * k and n == 0,
            'evaluations are as long as asked for')


def results(w, jobs, most):
    """Results written by experiments are read back by the launcher."""
    setup(w)
    mod = w.load(MOD)
    d = w.tmpdir()
    written = {}
    with quiet():
        l = mod.ExpLauncher()
        l.jobs, l.exps = {}, {}
        for j in range(jobs):
            name = 'job-%d.%d' % (j, j)
            n = w.int('n%d' % j, 0, most).__index__()
            ev = [{'return': w.real('r%d.%d' % (j, i)), 'elapsed-time': w.real('t%d.%d' % (j, i), 0),
                   'simulator-calls': w.int('c%d.%d' % (j, i), 0, 10 ** 6), 'states': [1, 2], 'actions': [0],
                   'observations': [1], 'rewards': [.5]} for i in range(n)]
            e = mod.SupportiveExperiment()
            e.results['evaluations'] = ev
            e.results['parameters'] = e.parameters
            sub = os.path.join(d, 'sub%d' % (j % 2))
            if not os.path.exists(sub):
                os.mkdir(sub)
            e.write_result(os.path.join(sub, name + '.json'))
            written[name] = ev
            l.jobs[name] = types.SimpleNamespace(path=sub, name=name, config=os.path.join(d, 'config %d' % j))
        out = l.get_results()
    w.check(set(out) == set(written), 'every job has its results')
    for name, ev in written.items():
        w.check(len(out[name]) == 3, 'results are returns, times and calls')
        for got, key in zip(out[name], ('return', 'elapsed-time', 'simulator-calls')):
            w.check(len(got) == len(ev), 'every evaluation is read')
            w.check_conj([w.eq(x, y[key]) for x, y in zip(got, ev)], 'results are returns, times and calls', key)


def configs(w):
    """Configurations prepared by the launcher are those the jobs read."""
    setup(w)
    mod = w.load(MOD)
    d = w.tmpdir()
    with quiet():
        l = mod.ExpLauncher()
        l.jobs, l.exps = {}, {}
        a, b = given(w), {'n_warmup': 5, 'task': 'uniform', 'policy': 'random'}
        for name, p in (('job a', a), ('job-b', b)):
            l.exps[name] = dict(p)
            l.jobs[name] = types.SimpleNamespace(path=d, name=name, config=os.path.join(d, name + '.conf'))
            with open(l.jobs[name].config, 'w') as f:   # of an earlier launch
                f.write('{"n_particles": %s1}' % (' ' * 3000))
        l.action_prepare()
        w.check(sorted(os.listdir(d)) == ['job a.conf', 'job-b.conf'], 'every job has its configuration')
        for name, p in (('job a', a), ('job-b', b)):
            e = mod.SupportiveExperiment.load_from_serialized(l.jobs[name].config)
            same(w, e.parameters, dict(DEFAULTS, **p), 'jobs read the parameters of their experiment')


def sample_job(w, name):
    """The experiment class of a sample job script."""
    mod = w.load(MOD)
    run = mod.SupportiveExperiment.__dict__['run_from_arguments']
    mod.SupportiveExperiment.run_from_arguments = classmethod(lambda cls, *a, **kw: None)
    path = os.path.join(REPO, 'samples', name)
    g = {'__name__': name, '__file__': path, '__builtins__': mod.__dict__['__builtins__']}
    try:
        with open(path) as f:
            exec(compile(f.read(), path, 'exec', dont_inherit=True), g)
    finally:
        mod.SupportiveExperiment.run_from_arguments = run
    return mod, g['Experiment']


def prepared(w, name, par):
    setup(w)
    Planner = recorder(w)
    mod, Exp = sample_job(w, name)
    exp = Exp(par)
    exp.log = lambda *a, **kw: None
    exp.init_run()
    return mod, exp, Planner


def protocol(w, exp, order, episodes=1, restart=True):
    """What a scripted policy does when everything works."""
    p, m = exp.policy, exp.model
    for _ in range(episodes):
        p.reset()
        for want in order:
            got = p.get_action()
            w.check(got == want if isinstance(want, str) else got in want, 'scripted policies do as named',
                    '%s instead of %s' % (got, want))
            p.step('none')


def job_preference(w, kind):
    par = {'p_preference': w.real('p', 0, 1), 'policy': kind}
    change = w.flag('changes')
    if change:
        par['p_change_preference'] = w.real('change', 0, 1)
    with quiet():
        if kind == 'other':
            def make():
                prepared(w, 'supportive_evaluation_preference_job.py', par)
            w.expect_raises(NotImplementedError, make, 'unknown policies are refused')
            return
        mod, exp, Planner = prepared(w, 'supportive_evaluation_preference_job.py', par)
    m = exp.model
    w.check(len(m.htm_nodes) == 1 and sorted(m.objects) == ['joints', 'leg', 'screwdriver', 'screws'], 'the task is as named')
    w.check(len(m.p_preferences) == 1 and w.eq(m.p_preferences[0], par['p_preference']), 'the model has the probabilities asked for')
    w.check(w.eq(m.p_change_preference, par['p_change_preference'] if change else 0), 'the model has the probabilities asked for')
    if kind == 'pomcp':
        return judge_planner(w, exp, Planner, dict(DEFAULTS, **par), mod)
    tools = ['screws', 'screwdriver', 'joints']
    protocol(w, exp, ['bring ' + t for t in tools] + ['bring leg', 'hold H' if kind == 'always-hold' else 'wait'] +
             ['clear ' + t for t in tools] + ['wait', 'wait'], 2)


def job_pomcp(w):
    par = given(w)
    with quiet():
        mod, exp, Planner = prepared(w, 'supportive_evaluation_pomcp_job.py', par)
    e = dict(DEFAULTS, **par)
    m = exp.model
    inter = e['intermediate-rewards']
    w.check(len(m.htm_nodes) == 8, 'the task is as named')
    w.check(len(m.p_preferences) == 1 and w.eq(m.p_preferences[0], e['p_preference']), 'the model has the probabilities asked for')
    w.check(w.eq(m.p_change_preference, e.get('p_change_preference', type(m).p_change_preference)),
            'the model has the probabilities asked for')
    # the same total reward with and without intermediate ones
    w.check((m.r_subtask > 0) == inter, 'subtasks are rewarded when asked for')
    w.check(m.r_final > 0, 'the end is rewarded')
    judge_planner(w, exp, Planner, e, mod)


def job_multitask(w, kind):
    t = w.int('task', 0, 3).__index__()
    n = w.int('subtasks', 1, 3).__index__()
    name = ('sequence', 'uniform', 'alternative', 'other')[t]
    par = {'task': name, 'policy': kind, 'n_subtasks': n}
    with quiet():
        if name == 'other' or kind == 'other':
            def make():
                prepared(w, 'supportive_evaluation_multitask_job.py', par)
            w.expect_raises(ValueError if name == 'other' else NotImplementedError, make, 'unknown tasks and policies are refused')
            return
        mod, exp, Planner = prepared(w, 'supportive_evaluation_multitask_job.py', par)
    m = exp.model
    w.check(list(m.p_preferences) == [1.] and m.p_change_preference == 0, 'the preference is always there')
    holds = sorted(tuple(holds_from(m, i)) for i in m.htm_init)
    if name == 'sequence':
        w.check(holds == [('h',) * n], 'the task is as named')
    elif name == 'uniform':
        w.check(holds == sorted((a, b, c, d) for a in 'hv' for b in 'hv' for c in 'hv' for d in 'hv'), 'the task is as named')
    else:
        w.check(holds == sorted(tuple(x) for x in ['hvvv', 'hhhh', 'vhhv', 'vvhv']), 'the task is as named')
    if kind == 'pomcp':
        e = dict(DEFAULTS, n_evaluations=100)
        e.update(par)
        return judge_planner(w, exp, Planner, e, mod)
    if kind == 'random' or name == 'sequence':
        k = n if name == 'sequence' else 4
        tools = ['screws', 'screwdriver', 'joints']
        hold = 'hold H' if kind == 'repeat' else ('hold H', 'hold V')
        protocol(w, exp, ['bring ' + x for x in tools] + ['bring leg', hold] * k + ['clear ' + x for x in tools] + ['wait'])


def holds_from(m, i):
    out = []
    while i < m.htm_clean:
        out.append(m.htm_nodes[i].action.hold)
        (i,) = m.htm_succs[i]
    return out


def instances(tier):
    th = tier == 'thorough'
    J = ['the model has the probabilities asked for', 'the task is as named']
    C = ['the planner has the parameters asked for', 'the horizon is the one asked for']
    R = ['the warm-up is as long as asked for', 'as many evaluations as asked for', 'every evaluation is reported']
    out = [Inst('planner', planner, C + ['parameters given replace the defaults', 'parameters left out have their defaults',
                                         'parameters of experiments are independent']),
           Inst('run', running, R + ['parameters are reported'], most=2 if th else 1, to_file=False),
           Inst('run-file', running, R + ['every evaluation is written'], most=1, to_file=True),
           Inst('arguments', arguments, R + ['results are written where asked for', 'debug runs are short'], most=1),
           Inst('lengths', lengths, ['evaluations are as long as asked for'], given=None),
           Inst('lengths-30', lengths, ['evaluations are as long as asked for'], given=30),
           Inst('results-1', results, ['results are returns, times and calls'], jobs=1, most=3),
           Inst('results-3', results, ['every job has its results'], jobs=3, most=2 if th else 1),
           Inst('configs', configs, ['jobs read the parameters of their experiment']),
           Inst('job-pomcp', job_pomcp, J + C)]
    for k in ('pomcp', 'always-hold', 'never-hold', 'other'):
        out.append(Inst('job-preference-' + k, job_preference, J if k != 'other' else ['unknown policies are refused'], kind=k))
    for k in ('pomcp', 'repeat', 'random', 'other'):
        out.append(Inst('job-multitask-' + k, job_multitask, ['the task is as named'] if k != 'other' else
                        ['unknown tasks and policies are refused'], kind=k))
    return out
