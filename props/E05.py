"""Sample launchers: jobs prepared and figures drawn."""
import itertools
import os
import re
import sys
import types

import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from matplotlib.colors import to_rgba
import numpy as np

from symex.loader import REPO, ModuleProxy
from .E01 import MOD, setup
from .E04 import DEFAULTS, quiet
from .common import Inst

PLOT = 'task_models.utils.plot'
BOUNDS = ('the three sample launchers with all their jobs; two evaluations per job with unknown returns, times and calls; '
          'every option of the figures.')
ASSUMPTIONS = ['the launcher and jobs of expjobs are stand-ins with the attributes args, jobs, exps, path, name and config',
               'curves and box plots are recorded instead of drawn (what they draw is U01); axes, titles and legends are those of matplotlib']

PREPARED = 'every combination has its job'
DRAWN = 'figures show the results under their names'
SCRIPTS = {'multitask': 'supportive_evaluation_multitask', 'preference': 'supportive_evaluation_preference',
           'pomcp': 'supportive_evaluation_pomcp'}


def launcher(w, which, d, drawn):
    """The launcher of a sample script, its results unknown."""
    setup(w)
    mod = w.load(MOD)
    real = w.load(PLOT)

    def current(kw):
        return kw.get('ax') or plt.gca()

    def plot_var(y, x=None, color=None, var=True, var_style='fill', **kw):
        ax = current(kw)
        drawn.append((ax, kw.get('label'), list(x), y))
        return ax.plot([0, 1], [0, 1], color=color, label=kw.get('label'))

    def boxplot(x, **kw):
        ax = current(kw)
        bp = ax.boxplot([[0, 1]] * len(x))
        if kw.get('xticklabels') is not None:
            ax.xaxis.set_ticklabels(kw['xticklabels'])
        drawn.append((ax, None, None, x))
        return bp
    w.loader.stubs[PLOT] = ModuleProxy(real, plot_var=plot_var, boxplot=boxplot)

    class Job(object):
        def __init__(self, path, name, script, *a, **kw):
            self.path, self.name, self.script = path, name, script
            self.config = os.path.join(path, name + '.conf')
    m = types.ModuleType('expjobs.job')
    m.Job = Job
    w.loader.stubs['expjobs.job'] = m
    made = []
    run = mod.ExpLauncher.__dict__.get('run')
    mod.ExpLauncher.run = lambda self, *a, **kw: made.append(self)
    path = os.path.join(REPO, 'samples', SCRIPTS[which] + '.py')
    g = {'__name__': '__main__', '__file__': path, '__builtins__': mod.__dict__['__builtins__']}
    try:
        with open(path) as f:
            exec(compile(f.read(), path, 'exec', dont_inherit=True), g)
    finally:
        if run is None:
            del mod.ExpLauncher.run
        else:
            mod.ExpLauncher.run = run
    l, = made
    l.args = types.SimpleNamespace(path=d, plot_destination=None)
    l.init_jobs()
    w.check(set(l.jobs) == set(l.exps) and all(j.name == k and j.path == d for k, j in l.jobs.items()), PREPARED)
    job = os.path.join(REPO, 'samples', SCRIPTS[which] + '_job.py')
    w.check(os.path.isfile(job) and all(os.path.realpath(j.script) == os.path.realpath(job) for j in l.jobs.values()),
            'jobs run the script of their experiment')
    return mod, l


def filled(w, mod, l, known=False):
    """Results by name of the job: (returns, times, calls) of two evaluations."""
    res = {}
    for i, name in enumerate(sorted(l.exps)):
        if known:
            res[name] = tuple([i * 8. + 2 * k, i * 8. + 2 * k + .5] for k in range(3))
        else:
            res[name] = tuple(w.reals('%s.%s' % (n, name), 2) for n in ('return', 'time', 'calls'))
    mod.ExpLauncher.get_results_from_one = staticmethod(lambda job: res[job.name])
    return res


def same_data(w, got, want, label):
    w.check(len(got) == len(want), label)
    for a, b in zip(got, want):
        w.check_all_eq(list(a), b, label)


def the_job(w, l, **par):
    names = [n for n, e in l.exps.items() if all(e.get(k, DEFAULTS.get(k)) == v for k, v in par.items())]
    w.check(len(names) == 1, PREPARED, par)
    return names[0]


def read_back(w, mod, l):
    """The jobs read what they are named after."""
    l.action_prepare()
    for name, j in l.jobs.items():
        e = mod.SupportiveExperiment.load_from_serialized(j.config)
        w.check(all(k in e.parameters and e.parameters[k] == v for k, v in l.exps[name].items()), 'jobs read their parameters')


def multitask(w, what):
    d = w.tmpdir()
    drawn = []
    with quiet():
        mod, l = launcher(w, 'multitask', d, drawn)
        tasks, pols = ['sequence', 'uniform', 'alternative'], ['pomcp', 'repeat', 'random']
        w.check(len(l.exps) == 9, PREPARED)
        res = filled(w, mod, l, known=what == 'printed')
        job = {(t, p): the_job(w, l, task=t, policy=p) for t in tasks for p in pols}
        if what == 'jobs':
            return read_back(w, mod, l)
    if what == 'printed':
        return printed(w, l, res, job, tasks)
    all_of = w.flag('all policies')
    with quiet():
        fig = l.plot_results(l.get_results(), **({'exclude_repeat': False} if all_of else {}))
    try:
        w.check(len(drawn) == 3 and sorted(a.get_title().lower() for a, _, _, _ in drawn) == sorted(tasks), DRAWN)
        for ax, _, _, data in drawn:
            t = ax.get_title().lower()
            labels = [x.get_text() for x in ax.get_xticklabels()]
            w.check(sorted(labels) == sorted(pols if all_of or t == 'sequence' else ['pomcp', 'random']), DRAWN, labels)
            same_data(w, data, [res[job[t, p]][0] for p in labels], DRAWN)
            w.check(ax.figure is fig, DRAWN)
    finally:
        plt.close('all')


def printed(w, l, res, job, tasks):
    lines = []
    old = sys.stdout
    try:
        sys.stdout = types.SimpleNamespace(write=lines.append, flush=lambda: None)
        out = l.print_results()
    finally:
        sys.stdout = old
    lines = ''.join(lines).splitlines()
    pols = [p for p in re.findall(r'[a-z]+', lines[0].split(':')[-1])]
    w.check(sorted(pols) == ['pomcp', 'random', 'repeat'], 'averages are printed under their names')
    for t in tasks:
        line, = [x for x in lines[1:] if t in x]
        got = [float(x) for x in re.findall(r'-?\d+\.?\d*', line)]
        w.check(got == [sum(res[job[t, p]][0]) / 2 for p in pols], 'averages are printed under their names', line)
    w.check({k: [list(x) for x in v] for k, v in out.items()} == {k: [list(x) for x in v] for k, v in res.items()},
            'the results printed are those drawn')


def preference(w, what):
    d = w.tmpdir()
    drawn = []
    with quiet():
        mod, l = launcher(w, 'preference', d, drawn)
        res = filled(w, mod, l)
        ps = sorted(set(float(e['p_preference']) for e in l.exps.values()))
        pols = ['never-hold', 'always-hold', 'pomcp']
        w.check(len(ps) > 1 and ps[0] == 0 and abs(ps[-1] - 1) < 1e-9 and len(l.exps) == len(ps) * len(pols), PREPARED)
        w.check(all(abs((b - a) * (len(ps) - 1) - 1) < 1e-9 for a, b in zip(ps, ps[1:])), 'probabilities are evenly spread')
        job = {(p, k): the_job(w, l, p_preference=p, policy=k) for p in ps for k in pols}
        if what == 'jobs':
            return read_back(w, mod, l)
    spread = w.flag('spread')
    with quiet():
        fig = l.plot_results(**({} if spread else {'var': False}))
    try:
        w.check(sorted(x[1] for x in drawn) == sorted(pols), DRAWN)
        colours = {}
        for ax, label, xs, data in drawn:
            w.check(ax.figure is fig, DRAWN)
            same_data(w, data, [res[job[float(p), label]][0] for p in xs], DRAWN)
            w.check(sorted(xs) == ps, DRAWN)
            colours[label] = to_rgba([x for x in ax.get_lines() if x.get_label() == label][0].get_color())
        legend = drawn[0][0].get_legend()
        shown = {t.get_text(): h for t, h in zip(legend.get_texts(), legend.legend_handles)}
        w.check(set(shown) == set(pols), 'the legend names the curves')
        for k in pols:
            h = shown[k]
            c = h.get_facecolor() if hasattr(h, 'get_facecolor') else h.get_color()
            w.check(to_rgba(c) == colours[k], 'the legend names the curves')
    finally:
        plt.close('all')


def planner(w, what):
    d = w.tmpdir()
    drawn = []
    with quiet():
        mod, l = launcher(w, 'pomcp', d, drawn)
        res = filled(w, mod, l)
        hor = [e for e in l.exps.values() if 'horizon-type' in e]
        its = [e for e in l.exps.values() if 'rollout-iterations' in e]
        w.check(len(hor) + len(its) == len(l.exps), PREPARED)
        lengths = {t: sorted(set(e['horizon-length'] for e in hor if e['horizon-type'] == t)) for t in ('transitions', 'htm')}
        ns, rs = [sorted(set(e[k] for e in its)) for k in ('iterations', 'rollout-iterations')]
        combos = list(itertools.product(ns, rs))
        w.check(len(its) == len(combos) and len(hor) == 2 * sum(map(len, lengths.values())), PREPARED)
        sets = set(tuple(sorted(e.items(), key=str)) for e in l.exps.values())
        w.check(len(sets) == len(l.exps) and all(set(e) <= set(DEFAULTS) for e in l.exps.values()), PREPARED)
        if what == 'jobs':
            return read_back(w, mod, l)

        def of(**par):
            par = {k.replace('_', '-'): v for k, v in par.items()}
            names = [n for n, e in l.exps.items() if e == par]
            w.check(len(names) == 1, PREPARED, par)
            return res[names[0]]
        l.plot_results()
    try:
        seen = []
        for ax, label, xs, data in drawn:
            first = ax.figure.axes[0]
            k = 2 if 'call' in first.get_ylabel() else 0
            w.check(k == 2 or 'return' in first.get_ylabel().lower(), DRAWN)
            m = re.match(r'(\d+) rollout', label)
            if m:
                seen.append(int(m.group(1)))
                w.check(k == 0 and sorted(xs) == ns, DRAWN)
                same_data(w, data, [of(iterations=i, **{'rollout-iterations': seen[-1]})[0] for i in xs], DRAWN)
                continue
            sub = 'subtask' in label
            w.check(sub or 'final' in label, DRAWN)
            t = 'htm' if 'htm' in ax.get_xlabel().lower() else 'transitions'
            seen.append((k, t, sub))
            w.check(sorted(xs) == lengths[t], DRAWN)
            same_data(w, data, [of(horizon_type=t, horizon_length=h, intermediate_rewards=sub)[k] for h in xs], DRAWN)
        want = rs + [(k, t, s) for k in (0, 2) for t in ('transitions', 'htm') for s in (True, False)]
        w.check(sorted(map(str, seen)) == sorted(map(str, want)), 'every result is drawn')
    finally:
        plt.close('all')


def instances(tier):
    out = []
    for name, f in (('multitask', multitask), ('preference', preference), ('planner', planner)):
        out.append(Inst(name + '-jobs', f, [PREPARED, 'jobs read their parameters'], what='jobs'))
        out.append(Inst(name + '-figures', f, [DRAWN], what='figures'))
    return out + [Inst('multitask-printed', multitask, ['averages are printed under their names'], what='printed')]
