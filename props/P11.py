"""Solving with the external solver."""
import os
import subprocess

from symex import engine as E

from .P04 import Bad, one_row, parse
from .common import Inst, names

BOUNDS = ('models with 2 or 3 states, 2 actions, 2 observations and an unknown row; every combination of options (time limit, horizon, '
          'seed of unknown value or left out, method, grid type, verbosity); solvers that answer with any policy of two '
          'nodes, fail with or without leaving files, or leave no files; two solutions in a row.')
ASSUMPTIONS = ['the solver is a stand-in that reads its options and the model file and writes its two files',
               'numbers travel through command line and files as marked numerals',
               'without a method option the solver uses incremental pruning']


class Solver(object):
    """Stands for the processes started."""

    def __init__(self, w, m, vals, rich):
        self.w, self.m, self.vals, self.rich = w, m, vals, rich
        self.calls, self.answers, self.failing = [], [], []

    def number(self, tok):
        if self.w.symbolic:
            v = E.engine().tokens.lookup(tok)
            if v is not None:
                return v
        return float(tok)

    def run(self, argv, cwd, stdout):
        w = self.w
        k = len(self.calls)
        cwd = cwd or os.getcwd()
        opts, rest = {}, list(argv[1:])
        w.check(os.path.basename(argv[0]) == 'pomdp-solve', 'the solver is run')
        w.check(len(rest) % 2 == 0 and all(x.startswith('-') for x in rest[::2]), 'options have values', rest)
        for a, b in zip(rest[::2], rest[1::2]):
            w.check(a not in opts, 'options are given once')
            opts[a] = b
        self.calls.append((opts, cwd, stdout))
        w.check('-pomdp' in opts and '-o' in opts, 'model and output are given')
        with open(os.path.join(cwd, opts['-pomdp'])) as f:
            txt = f.read()
        try:
            d = parse(w, txt)
        except Bad as e:
            w.check(False, 'the solver gets the model', info=str(e))
            return 1
        T, O, R, b0, g = self.vals
        w.check(d['states'] == self.m.states and d['actions'] == self.m.actions and
                d['observations'] == self.m.observations, 'the solver gets the model')
        for got, want in ((d['T'], T), (d['O'], O)):
            for i, a in enumerate(self.m.actions):
                for x, y in zip(got[a], want[i]):
                    w.check(len(x) == len(y), 'the solver gets the model')
                    w.check_conj([w.conj([w.le(p - q, 1e-4), w.le(q - p, 1e-4)]) for p, q in zip(x, y)],
                                 'the solver gets the model')
        for i, a in enumerate(self.m.actions):
            for j, b in enumerate(self.m.states):
                for x, y in zip(d['R'][a, b], R[i][j]):
                    w.check_conj([w.conj([w.le(p - q, 1e-4), w.le(q - p, 1e-4)]) for p, q in zip(x, y)],
                                 'the solver gets the model')
        w.check(w.eq(d['discount'], g), 'the solver gets the model')
        outcome = w.int('outcome%d' % k, 0, 3).__index__()
        self.failing.append(outcome != 0)
        if outcome in (0, 1):
            vs = [[w.real('v%d.%d.%d' % (k, i, j)) for j in range(len(self.m.states))] for i in range(2)]
            acts = [0, 1] if self.rich else [w.int('a%d.%d' % (k, i), 0, 1).__index__() for i in range(2)]
            self.answers.append((vs, acts))
            base = os.path.join(cwd, opts['-o'])
            with open(base + '.alpha', 'w') as f:
                for a, v in zip(acts, vs):
                    f.write('%d\n%s \n\n' % (a, ' '.join('%s' % x if not isinstance(x, float) else repr(x) for x in v)))
            with open(base + '.pg', 'w') as f:
                f.write('0 %d  1 - \n1 %d  0 1 \n' % tuple(acts))
        else:
            self.answers.append(None)
        # 1: fails late, 2: fails at once, 3: ends well without having written anything
        return (0, 1, -9, 0)[outcome]

    def popen(self):
        solver = self

        class Popen(object):
            def __init__(self, args, *a, **kw):
                self.args, self.stdout, self.stderr, self.stdin, self.pid = args, None, None, None, 1
                self.returncode = solver.run(list(args), kw.get('cwd'), kw.get('stdout'))

            def __enter__(self):
                return self

            def __exit__(self, *exc):
                pass

            def communicate(self, *a, **kw):
                return None, None

            def wait(self, *a, **kw):
                return self.returncode

            poll = wait

            def kill(self):
                pass
            terminate = kill
        return Popen


OPTIONS = ('timeout', 'n_iterations', 'seed')


def asked(w, k, rich):
    kw, exp = {}, {}
    for i, (name, opt) in enumerate(zip(OPTIONS, ('-time_limit', '-horizon', '-rand_seed'))):
        if (w.flag('%s given %d' % (name, k)) if rich else i == 2):
            kw[name] = w.int('%s %d' % (name, k), 0, 10 ** 10)
            exp[opt] = kw[name]
    grid = w.flag('grid %d' % k) if rich else False
    if grid:
        kw['method'] = 'grid'
        t = w.int('grid type %d' % k, 0, 2).__index__()
        if t:
            kw['grid_type'] = ('simplex', 'pairwise')[t - 1]
        exp['-method'], exp['-fg_type'] = 'grid', ('simplex', 'simplex', 'pairwise')[t]
    if rich and w.flag('verbose %d' % k):
        kw['verbose'] = True
    return kw, exp


def solve(w, ns, rich, times):
    old = subprocess.Popen
    subprocess.Popen = None
    try:
        m, vals = one_row(w, ns, 2, 2, 'R' if rich else 'T')
        s = Solver(w, m, vals, rich)
        subprocess.Popen = s.popen()
        for k in range(times):
            kw, exp = asked(w, k, rich)
            p, why = None, None
            try:
                p = m.solve(**kw)
            except Exception as e:
                why = e
            w.check(len(s.calls) == k + 1, 'the solver is run once', '%r' % (why,))
            opts, cwd, stdout = s.calls[k]
            for o in ('-time_limit', '-horizon', '-rand_seed'):
                if o in exp:
                    w.check(o in opts and w.eq(s.number(opts[o]), exp[o]), 'the solver gets the options asked for', o)
                else:
                    w.check(o == '-rand_seed' or o not in opts, 'the solver gets no other options', o)
            w.check(opts.get('-method', 'incprune') == exp.get('-method', 'incprune'), 'the solver gets the options asked for')
            w.check(opts.get('-fg_type') == exp.get('-fg_type'), 'the solver gets the options asked for')
            w.check(not set(opts) - {'-time_limit', '-horizon', '-rand_seed', '-method', '-fg_type', '-o', '-pomdp'},
                    'the solver gets no other options')
            w.check((stdout is None) == bool(kw.get('verbose')), 'the solver is heard when asked for')
            w.check(not os.path.exists(cwd) or os.path.realpath(cwd) == os.path.realpath(os.getcwd()), 'scratch files are removed')
            if s.failing[k]:
                w.check(p is None, 'a failing solver is reported')
                continue
            w.check(p is not None, 'the policy found is returned', '%r' % (why,))
            vs, acts = s.answers[k]
            w.check([p.actions[i] for i in range(len(p.actions))] == ['a%d' % a for a in acts], 'the policy is the one found')
            w.check_all_eq(p.values, vs, 'the policy is the one found')
            t = p.transitions.tolist()
            w.check(len(t) == 2 and w.eq(t[0][0], 1) and t[0][1] is None, 'the policy is the one found')
            w.check_conj([w.eq(t[1][0], 0), w.eq(t[1][1], 1)], 'the policy is the one found')
    finally:
        subprocess.Popen = old


def instances(tier):
    L = ['the solver is run', 'the solver gets the model', 'the solver gets the options asked for', 'the policy is the one found',
         'a failing solver is reported', 'scratch files are removed']
    return [Inst('options', solve, L, ns=2, rich=True, times=1), Inst('twice', solve, L, ns=2, rich=False, times=2),
            Inst('states', solve, L, ns=3, rich=False, times=1)] + (
                [Inst('options-twice', solve, L, ns=2, rich=True, times=2)] if tier == 'thorough' else [])
