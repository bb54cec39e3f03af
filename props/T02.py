"""Conjugate task graphs."""
from .common import Inst

MOD = 'task_models.task'
BOUNDS = ('task graphs made of up to 3 paths with up to 4 transitions in total (thorough 5), every coincidence of '
          'their states and of their actions, deterministic or not.')
ASSUMPTIONS = ['states and actions are compared by equality with consistent hashes (B02)']


class Sym(object):
    """Values identified by an unknown number."""

    def __init__(self, k):
        self.k = k

    def __hash__(self):
        return 7

    def __eq__(self, other):
        return type(self) is type(other) and bool(self.k == other.k)

    def __ne__(self, other):
        return not self == other


def kinds(w):
    st = w.load('task_models.state')
    act = w.load('task_models.action')

    class S(Sym, st.State):
        def __repr__(self):
            return 's'

    class A(Sym, act.Action):
        def __init__(self, k):
            act.Action.__init__(self, 'a')
            self.k = k

        def check(self, before, after):
            return True
    for c in (S, A):
        c.__hash__, c.__eq__ = Sym.__hash__, Sym.__eq__
    return S, A


def has(xs, x):
    return any(all(p == q for p, q in zip(x, y)) for y in xs)


def conjugate(w, lengths):
    mod = w.load(MOD)
    S, A = kinds(w)
    tg = mod.TaskGraph()
    twin = mod.TaskGraph()
    tr, init, term = [], [], []
    for j, n in enumerate(lengths):
        ss = [S(w.int('s%d.%d' % (j, i))) for i in range(n + 1)]
        aa = [A(w.int('a%d.%d' % (j, i))) for i in range(n)]
        path = [ss[0]]
        for a, s in zip(aa, ss[1:]):
            path += [a, s]
        tg.add_path(path)
        twin.add_path(path)
        init.append(ss[0])
        term.append(ss[-1])
        tr += list(zip(ss, aa, ss[1:]))
    before = ([t for t in tg.all_transitions()], set(tg.initial), set(tg.terminal))
    nondet = any(x[0] == y[0] and x[1] == y[1] and not x[2] == y[2]
                 for i, x in enumerate(tr) for y in tr[:i])
    try:
        ctg = tg.conjugate()
        w.check(not nondet, 'non-deterministic graphs are refused')
    except ValueError:
        w.check(nondet, 'non-deterministic graphs are refused')
        ctg = None
    after = [t for t in tg.all_transitions()]
    w.check(len(after) == len(before[0]) and all(has(before[0], t) for t in after) and
            set(tg.initial) == before[1] and set(tg.terminal) == before[2], 'the original is unchanged')
    w.check(tg == twin and twin == tg, 'the original is unchanged')
    if ctg is None:
        return
    I, T = ctg.initial, ctg.terminal
    want = [(I, s, a) for (s, a, _) in tr if s in init]
    want += [(a, s, T) for (_, a, s) in tr if s in term]
    want += [(a, s, b) for (_, a, s) in tr if s not in term for (s2, b, _) in tr if s2 == s]
    got = list(ctg.all_transitions())
    w.check(all(has(got, x) for x in want), 'every consecutive pair is linked')
    w.check(all(has(want, x) for x in got), 'only consecutive pairs are linked')
    w.check(all(not has(got[:i], x) for i, x in enumerate(got)), 'links are listed once')


def instances(tier):
    L = ['every consecutive pair is linked', 'only consecutive pairs are linked',
         'non-deterministic graphs are refused']
    fams = [(2,), (3,), (1, 1), (0, 1), (0, 2), (2, 1), (1, 1, 1), (0, 1, 1), (1, 2, 0), (4,), (2, 2)]
    if tier == 'thorough':
        fams += [(3, 1), (2, 1, 1), (5,)]
    return [Inst('paths-' + '-'.join(map(str, f)), conjugate, L if f != (0, 1) else L[:2], lengths=f)
            for f in fams]
