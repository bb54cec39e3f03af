"""Background exploration and its caller."""
from symex import sched

from .common import Inst, flat, names
from .search import MCP_MOD

BOUNDS = ('every interleaving of the exploring thread and its caller in which a thread is preempted at '
          'most 2 (thorough 3; 1 and 2 in scripts of more than 2 operations) times between scheduling points (lock operations, thread start, join and '
          'liveness, every access to an attribute of the thread object, every call of the model, entry '
          'and exit of an episode, node lookup or action choice) and any number of times where it '
          'waits or sleeps; at most 1 (thorough 3) explorations in a row while the caller could go on; '
          'scripts of up to 4 operations (act, step, failing step, reset, stop, stop twice, '
          'exploitation under the lock).')
ASSUMPTIONS = ['a thread that could run does run eventually, and the exploring thread does not explore for '
               'ever while the caller could go on',
               'operations of the two threads are atomic between the scheduling points listed',
               'threading behaves as in CPython 3.12 (there is no isAlive; join and is_alive pass '
               'through Thread._stop)']


class Model(object):
    """Two states per history: the state tells the history an episode starts from."""

    def __init__(self, w, s, rewards):
        self.w, self.s = w, s
        self.actions, self.observations = names('a', 2), names('o', 2)
        self.n_actions = self.n_observations = 2
        self.n_states = 9
        self.states = names('s', self.n_states)
        self.discount = 0.
        self.start = self.point(0)
        self.rewards = rewards
        self.calls = []         # (thread, action, state, reward)
        self.known = {}
        self.fail = False
        self.monitor = None

    def point(self, i):
        return self.w.array([1. if k == i else 0. for k in range(self.n_states)])

    def sample_start(self):
        return 0

    def sample_transition(self, a, st):
        self.monitor.enter('model')
        try:
            k = len(self.calls)
            # falling rewards make every exploration prefer the other action
            r = self.w.real('r%d' % k) if self.rewards else -2. ** k
            self.calls.append((self.s.current, int(a), int(st), r))
            return 8, 0, r
        finally:
            self.monitor.leave()

    def belief_update(self, a, o, b):
        self.monitor.enter('model')
        try:
            if self.fail and self.s.current is self.s.main:
                raise self.fail('impossible')
            b = [float(x) for x in flat(b)]
            k = (int(a), int(o), b.index(1.))
            i = self.known.setdefault(k, len(self.known) + 1)
            return self.point(i)
        finally:
            self.monitor.leave()


class Monitor(object):
    """Sections of the planner in each thread."""

    def __init__(self, w, s):
        self.w, self.s = w, s
        self.open = {}

    def enter(self, what):
        me = self.s.current
        here = self.open.setdefault(me, [])
        here.append(what)
        self.check()
        if len(here) == 1 or what == 'model':
            self.s.point()
            self.check()

    def check(self):
        inside = [t for t, x in self.open.items() if x]
        self.w.check(len(inside) <= 1, 'planner operations do not overlap', info=str(self.open))

    def leave(self):
        self.check()
        self.open[self.s.current].pop()

    def wrap(self, cls, name):
        f = getattr(cls, name, None)
        if f is None:
            return

        def g(*a, **kw):
            if self.s.over:
                return f(*a, **kw)
            self.enter(name)
            try:
                return f(*a, **kw)
            finally:
                self.leave()
        setattr(cls, name, g)


class Player(object):

    def __init__(self, w, script, preemptions, loops, rewards=False):
        self.w = w
        self.s = s = sched.Sched(w, preemptions, loops)
        w.loader.stubs.update(sched.modules(s, lambda v: hasattr(v, 'simulate_from_node')))
        w.on_draw = lambda d: w.assume(d[3] == 0) if d[0] == 'index' and d[2] is None else None
        self.mod = w.load(MCP_MOD)
        self.pom = w.load('task_models.lib.pomdp')
        self.m = Model(w, s, rewards)
        self.m.monitor = Monitor(w, s)
        self.m.monitor.wrap(self.mod._SearchTree, 'simulate_from_node')
        self.m.monitor.wrap(self.mod._SearchTree, 'get_node')
        self.m.monitor.wrap(self.mod._SearchObservationNode, 'get_best_action')
        self.rewards = rewards
        self.done = 0
        self.state = (0, None)
        self.history = []
        try:
            self.play(script)
        except sched.Stuck as e:
            w.check(False, 'every operation terminates', info=str(e))
        finally:
            s.finish()

    def explorations(self):
        """Explorations since the last call: (state index, action)."""
        c = self.m.calls[self.done:]
        if self.state[1] is None:
            for i in range(self.done, len(self.m.calls)):
                t, a, st, r = self.m.calls[i]
                if t is not self.s.main and st == self.state[0]:
                    tried = [x[1] for x in self.m.calls[:i] if x[2] == st]
                    self.w.check(len(set(tried)) == 2 or a not in tried,
                                 'all actions are explored before one is chosen')
        self.done = len(self.m.calls)
        return [(x[2], x[1]) for x in c if x[0] is not self.s.main]

    def settle(self, new, label):
        """Explorations during the operation follow the state before or after it."""
        ok = [self.state, new, (self.state[0], None)]
        for st, a in self.explorations():
            self.w.check(any(st == n and (b is None or a == b) for n, b in ok), label,
                         info='explored %s between %s and %s' % ((st, a), self.state, new))
        self.state = new

    def follow(self):
        """Between operations exploration follows the current state."""
        self.s.point(voluntary=True)
        if not self.rewards and self.state[1] is None:
            for i in range(self.done, len(self.m.calls)):
                t, a, st, r = self.m.calls[i]
                best = self.best_of([c for c in self.m.calls[:i] if c[2] == st])
                if t is not self.s.main and best is not None:
                    self.w.check(a == best, 'exploration is free before an action is chosen')
        for st, a in self.explorations():
            n, b = self.state
            self.w.check(st == n and (b is None or a == b), 'exploration follows the planner',
                         info='explored %s at %s' % ((st, a), self.state))

    @staticmethod
    def best_of(calls):
        """The action of best value once both are explored (exploration is off)."""
        v = {}
        for t, a, st, r in calls:
            n, x = v.get(a, (0, 0.))
            v[a] = (n + 1, .999 * (x * n + r) / (n + 1) + .001 * r)
        if len(v) < 2:
            return None
        return max(v, key=lambda a: v[a][1])

    def play(self, script):
        w, m = self.w, self.m
        p = self.p = self.mod.AsyncPOMCPPolicyRunner(
            m, horizon=1, iterations=2, exploration=0, logger=lambda *a: None)
        p._keep = p               # collected after the run
        for op in script:
            self.follow()
            getattr(self, 'do_' + op)()
        p._keep = None

    def consistent(self):
        p = self.p
        self.w.check([int(x) for x in p.history] == self.history, 'the history is the executed one')
        b = [float(x) for x in flat(p.belief.array)]
        self.w.check(b.index(1.) == self.state[0], 'the belief is that of the history')

    def do_act(self):
        k = len(self.m.calls)
        name = self.p.get_action()
        a = self.m.actions.index(name)
        mine = [c for c in self.m.calls[k:] if c[0] is self.s.main]
        self.w.check(len(mine) == 2 and all(c[2] == self.state[0] for c in mine),
                     'acting runs its episodes')
        if self.rewards:
            self.best(a)
        self.settle((self.state[0], a), 'exploration follows the planner')
        self.a = a
        self.consistent()

    def best(self, a):
        """Some moment of the call has this action best."""
        w = self.w
        st, ok, k = {}, [], 0
        last = max(i for i, c in enumerate(self.m.calls) if c[0] is self.s.main)
        for i, c in enumerate(self.m.calls):
            if c[2] == self.state[0]:
                n, v = st.get(c[1], (0, 0))
                st[c[1]] = (n + 1, .999 * (v * n + c[3]) / (n + 1) + .001 * c[3])
            if i >= last:
                ok.append(w.conj([a in st and x in st and w.le(st[x][1], st[a][1]) for x in range(2)]))
        w.check(w.disj(ok), 'the action returned has the best estimate')

    def do_step(self):
        o = 1
        self.p.step(self.m.observations[o])
        i = self.m.known[(self.a, o, self.state[0])]
        self.history = self.history + [self.a, o]
        self.settle((i, None), 'exploration follows the planner')
        self.consistent()

    def do_fail(self):
        self.m.fail = self.pom.Impossible
        try:
            self.p.step(self.m.observations[1])
        except self.pom.Impossible:
            self.w.check(True, 'a failing step is reported')
            self.m.fail = False
            self.settle(self.state, 'exploration follows the planner')
            self.consistent()
        else:
            self.m.fail = False
            self.w.check(False, 'a failing step is reported')

    def do_reset(self):
        self.p.reset()
        self.history = []
        self.settle((0, None), 'exploration follows the planner')
        self.consistent()

    def do_wait(self):
        self.s.sleep()
        self.follow()
        self.s.sleep()
        self.follow()

    def do_execute(self):
        seen = []

        def f(x, y=0):
            self.m.monitor.enter('exploitation')
            seen.append((x, y))
            self.m.monitor.leave()
        self.p.execute(f, 1, y=2)
        self.w.check(seen == [(1, 2)], 'exploitation runs once with its arguments')

    def do_stop(self):
        self.p.stop()
        self.settle(self.state, 'exploration follows the planner')
        workers = [t for t in self.s.threads if t is not self.s.main]
        self.w.check(len(workers) == 1, 'one thread explores')
        self.w.check(all(t.finished for t in workers), 'stopping terminates the thread')
        self.w.check(not self.p.thread.is_alive(), 'the stopped thread reports it')
        k = len(self.m.calls)
        self.s.point(voluntary=True)
        self.w.check(len(self.m.calls) == k, 'nothing is explored once stopped')


def play(w, **kw):
    Player(w, **kw)


def instances(tier):
    th = tier == 'thorough'
    out = []
    S = ['stopping terminates the thread', 'the stopped thread reports it', 'nothing is explored once stopped']
    F = ['exploration follows the planner', 'planner operations do not overlap']
    n, l = (3, 3) if th else (2, 1)
    for script, labels in (
            ('stop', S), ('stop stop', S), ('act stop', F + S), ('act step', F),
            ('act fail stop', F + S + ['a failing step is reported']), ('act step act', F),
            ('act reset', F), ('execute stop', S + ['exploitation runs once with its arguments']),
            ('act step stop', F + S), ('act step reset stop', F + S), ('act act step', F)):
        script = script.split()
        k = n if len(script) < 3 else n - 1
        out.append(Inst('-'.join(script), play, labels, script=script, preemptions=k, loops=l))
    out.append(Inst('act-step-wait', play, F + ['all actions are explored before one is chosen'],
                    script=['act', 'step', 'wait'], preemptions=0 if not th else 1, loops=2))
    for script in ('act reset wait',):
        out.append(Inst('free-' + script.replace(' ', '-'), play, F + ['exploration is free before an action is chosen'],
                        script=script.split(), preemptions=1 if th else 0, loops=3 if th else 2))
    for script, k in (('act', 1), ('act act', 0 if not th else 1)):
        out.append(Inst('best-' + script.replace(' ', '-'), play, F + ['the action returned has the best estimate'],
                        script=script.split(), preemptions=k, loops=1, rewards=True))
    return out
