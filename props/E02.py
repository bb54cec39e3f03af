"""Repeating a function in processes."""
import multiprocessing
import queue

from symex.engine import Unsupported
from symex.loader import ModuleProxy

from .common import Inst

MOD = 'task_models.utils.multiprocess'
BOUNDS = ('0 to 3 (thorough 4) repetitions on 1 to 3 processors, every schedule in which processes are seen at most 3 '
          '(thorough 5) times more than needed before they progress (running, result sent, ended), and at most one '
          'process that fails: by an exception, by any other exit code positive or negative before or after sending, '
          'or by ending without a result; 9, 50 and 1100 repetitions on 2, 24 and 1 processors, then 2 and 3 more, '
          'with drawn seeds fixed and at most one process that ends later than others or (of 9) is looked at before it ended.')
ASSUMPTIONS = ['processes and queues are replaced by stand-ins with the semantics of multiprocessing: results sent by '
               'a process that ended can be received', 'drawn seeds are distinct when drawn separately',
               'which error is raised is not judged']


class WaitsForEver(BaseException):
    pass


class TargetFails(ValueError):
    pass


class System(object):

    def __init__(self, w, cpus, fails, slow, kind, fixed=False):
        self.fixed = fixed
        self.w, self.cpus, self.fails, self.slow, self.kind = w, cpus, fails, slow, kind
        self.processes, self.seeds, self.runs, self.items = [], [], [], []
        self.n_draws, self.polls, self.draws = 0, 0, []
        self.current, self.raising = None, False
        self.most = 0
        system = self

        class Process(object):
            def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
                self._f, self._a, self._kw = target, args, kwargs or {}
                self._phase, self._end, self.name, self.daemon = 'new', 0, name, daemon

            def start(self):
                assert self._phase == 'new', 'cannot start a process twice'
                self._phase = 'running'
                self.number = len(system.processes)
                system.processes.append(self)
                self.pid = self.ident = 10000 + self.number
                system.most = max(system.most, len(system.alive()))

            def run(self):
                self._f(*self._a, **self._kw)

            def is_alive(self):
                if self._phase == 'new':
                    return False
                system.poll([self])
                return self._phase != 'ended'

            @property
            def exitcode(self):
                if self._phase in ('running', 'sent'):
                    system.poll([self])
                return self._end if self._phase == 'ended' else None

            def join(self, timeout=None):
                if timeout is not None:
                    system.poll([self])
                    return
                while self._phase != 'ended':
                    system.progress(self)

            def terminate(self):
                if self._phase in ('running', 'sent'):
                    self._phase, self._end = 'ended', -15

            kill = terminate

            def close(self):
                assert self._phase == 'ended'

        class Queue(object):
            def __init__(self, maxsize=0):
                pass

            def put(self, x, block=True, timeout=None):
                system.sent(x)

            put_nowait = put

            def get(self, block=True, timeout=None):
                while not system.items:
                    if not block:
                        system.poll([])
                        raise queue.Empty
                    if not system.alive():
                        if timeout is None:
                            raise WaitsForEver('an empty queue without processes')
                        system.poll([])
                        raise queue.Empty
                    if timeout is not None and system.w.flag('timeout%d' % system.polls):
                        system.poll([])
                        raise queue.Empty
                    system.progress(system.choose(system.alive()))
                return system.items.pop(0)

            def get_nowait(self):
                return self.get(False)

            def empty(self):
                system.poll([])
                return not system.items

            def qsize(self):
                return len(system.items)

            def close(self):
                pass

            join_thread = cancel_join_thread = close
        self.Process, self.Queue = Process, Queue

    def alive(self):
        return [p for p in self.processes if p._phase != 'ended']

    def choose(self, ps):
        return ps[self.w.int('who%d' % self.polls, 0, len(ps) - 1).__index__()] if len(ps) > 1 else ps[0]

    def poll(self, ps):
        """The caller looks: its processes progress now, or it has to look again."""
        self.polls += 1
        if self.polls > (100 * (len(self.processes) + 2) if self.fixed else 150):
            raise WaitsForEver('looks again for ever')
        for p in ps:
            if self.fixed and p.number == self.late and self.lag:
                self.lag -= 1
                continue
            if p._phase in ('running', 'sent'):
                n = 1 if p._phase == 'sent' else 2
                k = self.w.int('progress%d' % self.polls, 0, n).__index__() if self.slow else n
                self.slow -= k < n
                for _ in range(k):
                    if p._phase != 'ended':
                        self.progress(p)

    def progress(self, p):
        """One step of a process: it runs and sends, then it ends."""
        if p._phase == 'sent':
            p._phase = 'ended'
            return
        how = self.kind if self.fails == p.number else 'ok'
        if how.startswith('code'):
            p._end = self.w.int('exit code', -64, 255)
            self.w.assume(self.w.neg(p._end == 0))
        if how == 'code before':
            p._phase = 'ended'
            return
        self.current, self.sending, self.raising = p, [], how == 'raise'
        try:
            p.run()
        except TargetFails:
            p._phase, p._end = 'ended', 1
            return
        finally:
            self.current = None
        if how == 'nothing':
            p._phase = 'ended'
            return
        self.items += self.sending
        p._phase = 'sent'

    def sent(self, x):
        (self.items if self.current is None else self.sending).append(x)

    # random states

    def seed(self, seed=None):
        if self.current is not None:
            self.seeds.append((self.current.number, seed))

    def randint(self, low, high=None, size=None, dtype=None):
        lo, hi = (0, low) if high is None else (low, high)
        if size is not None:
            return [self.randint(lo, hi) for _ in range(int(size))]
        if self.fixed:
            self.n_draws += 1
            return lo + (self.n_draws * 1000003) % (hi - lo)
        x = self.w.int('draw%d' % self.n_draws, lo, hi - 1)
        self.n_draws += 1
        self.draws.append(x)
        for y in self.draws[:-1]:
            self.w.assume(self.w.neg(x == y))
        return x


class Random(object):
    def __init__(self, system):
        self.seed, self.randint = system.seed, system.randint

    def __getattr__(self, n):
        raise Unsupported('np.random.' + n)


def repeated(w, n, cpus, slow, fails, falsy=False, pool=False):
    kind = w.pick('kind', ['raise', 'code before', 'code after', 'nothing']) if fails else 'ok'
    who = w.int('failing', 0, n - 1).__index__() if fails else None
    system = System(w, cpus, who, slow, kind)
    w.loader.stubs['multiprocessing'] = ModuleProxy(
        multiprocessing, Process=system.Process, Queue=system.Queue, SimpleQueue=system.Queue, cpu_count=lambda: cpus)
    mod = w.load(MOD)
    mod.np = ModuleProxy(mod.np, random=Random(system))
    expected = []

    def target():
        k = len(system.runs)
        system.runs.append(system.current)
        if system.raising:
            raise TargetFails('the function fails')
        x = [None, 0, '', False][k] if falsy else 'result %d' % k
        expected.append(x)
        return x
    try:
        out = mod.RepeatPool(target).run(n) if pool else mod.repeat(target, n)
    except WaitsForEver as e:
        w.check(False, 'repeating ends', info=str(e))
        return
    except (Exception if fails else queue.Empty) as e:
        if isinstance(e, AssertionError):
            raise
        w.check(fails, 'errors need a failing process', info=repr(e))
        w.check(True, 'failures are reported')
        w.check(len(system.runs) <= n and system.most <= cpus, 'never more processes than processors')
        return
    ended = [p for p in system.processes if p._phase == 'ended']
    w.check(not any(p.number == who for p in ended), 'failures are reported', info='%s %s' % (who, kind))
    w.check(sorted(map(repr, out)) == sorted(map(repr, expected)) and len(out) == n, 'all results are returned')
    w.check(len(system.runs) == n and None not in system.runs, 'the function runs exactly n times in processes')
    w.check(system.most <= cpus, 'never more processes than processors')
    w.check(sorted(k for k, _ in system.seeds) == list(range(len(system.processes))) and
            len(system.processes) == n, 'each process has its seed')
    seeds = [s for _, s in system.seeds]
    w.check(system.n_draws > 0 or not n, 'each process has its seed', info='seeds are not random')
    w.check_conj([w.conj([s >= 0, s < 2 ** 32]) for s in seeds] + [
        w.neg(s == t) for i, s in enumerate(seeds) for t in seeds[:i]], 'each process has its seed')


def wide(w, n, cpus):
    """Many repetitions on many processors, then fewer with the same pool."""
    system = System(w, cpus, None, w.int('slow', 0, 1).__index__() if n < 20 else 0, 'ok', fixed=True)
    system.late = w.pick('late', [None, 0, cpus - 1, n - 1] if n < 100 else [None])
    system.lag = 8
    w.loader.stubs['multiprocessing'] = ModuleProxy(
        multiprocessing, Process=system.Process, Queue=system.Queue, SimpleQueue=system.Queue, cpu_count=lambda: cpus)
    mod = w.load(MOD)
    mod.np = ModuleProxy(mod.np, random=Random(system))

    def target():
        system.runs.append(system.current)
        return 'result %d' % (len(system.runs) - 1)
    pool, first = mod.RepeatPool(target), 0
    for k in (n, 2, 3):
        out = pool.run(k) if n < 100 else mod.repeat(target, k)
        w.check(sorted(out) == sorted('result %d' % (first + i) for i in range(k)), 'all results are returned')
        first += k
        w.check(len(system.runs) == first and None not in system.runs, 'the function runs exactly n times in processes')
    w.check(system.most <= cpus, 'never more processes than processors')
    w.check(len(system.processes) == first and len(set(s for _, s in system.seeds)) == first, 'each process has its seed')


def instances(tier):
    th = tier == 'thorough'
    slow = 5 if th else 3
    L = ['all results are returned', 'the function runs exactly n times in processes',
         'never more processes than processors', 'each process has its seed']
    out = [Inst('none', repeated, L[:3], n=0, cpus=2, slow=0, fails=False)]
    for n, c in ((1, 2), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3)) + (((4, 2), (4, 3)) if th else ()):
        out.append(Inst('works-%d-%d' % (n, c), repeated, L, n=n, cpus=c, slow=slow, fails=False,
                        falsy=n == 2, pool=n == 3))
        out.append(Inst('fails-%d-%d' % (n, c), repeated, ['failures are reported'], n=n, cpus=c, slow=slow, fails=True))
    for n, c in ((9, 2), (50, 24), (1100, 1)):
        out.append(Inst('wide-%d-%d' % (n, c), wide, L, n=n, cpus=c))
    return out
