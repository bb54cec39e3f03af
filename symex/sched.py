"""Stand-ins for threading and time under which the interleaving of the threads
is an unknown of the world: exactly one thread runs at any time, and at every
scheduling point the next one is a (solver) choice."""
import threading as _th
import types


class Killed(BaseException):
    """Unwinds a thread when its run is over."""


class Stuck(Exception):
    """No thread can go on."""


class Sched(object):

    def __init__(self, w, preemptions, loops):
        self.w = w
        self.left = preemptions      # involuntary switches still allowed
        self.loops = loops           # sleeps of a thread while another one could run
        self.threads = []
        self.main = _Rec('main')
        self.main.os = _th.current_thread()
        self.current = self.main
        self.threads.append(self.main)
        self.n_points = 0
        self.over = False
        self.error = None
        self.trace = []

    # -- choice of the next thread

    def enabled(self):
        return [t for t in self.threads if not t.finished and (t.blocked is None or t.blocked())]

    def point(self, voluntary=False):
        """The running thread may be replaced here."""
        me = self.current
        if self.over:
            if me is not self.main:
                raise Killed()
            return
        if _th.current_thread() is not me.os:
            return                       # e.g. a destructor run elsewhere
        en = self.enabled()
        if not en:
            raise Stuck('no thread can go on')
        if me in en and not voluntary and self.left <= 0:
            return
        if len(en) == 1:
            nxt = en[0]
        else:
            self.n_points += 1
            order = ([me] if me in en else []) + [t for t in en if t is not me]
            nxt = self.w.pick('sched%d' % self.n_points, order)
        if nxt is me:
            return
        if me in en and not voluntary:
            self.left -= 1
        self.switch(me, nxt)

    def switch(self, me, nxt):
        self.current = nxt
        nxt.sem.release()
        me.sem.acquire()
        self.back(me)

    def back(self, me):
        if self.over and me is not self.main:
            raise Killed()
        if self.error is not None and me is self.main:
            e, self.error = self.error, None
            raise e

    def wait(self, cond):
        """Block the running thread until cond()."""
        me = self.current
        if self.over:
            if me is not self.main:
                raise Killed()
            return
        while not cond():
            me.blocked = cond
            try:
                self.point(voluntary=True)
            finally:
                me.blocked = None

    def sleep(self, *a):
        me = self.current
        if self.over:
            if me is not self.main:
                raise Killed()
            return
        me.sleeps += 1
        others = [t for t in self.enabled() if t is not me]
        if others and me.sleeps > self.loops:
            nxt = others[0] if len(others) == 1 else self.w.pick('sched%d' % self._next(), others)
            self.switch(me, nxt)
        else:
            if not others and me.sleeps > self.loops + 6:
                raise Stuck('a thread goes on for ever while the others wait')
            self.point(voluntary=True)

    def _next(self):
        self.n_points += 1
        return self.n_points

    # -- threads

    def spawn(self, obj):
        r = _Rec(obj.name)
        r.obj = obj
        obj.__dict__['_rec'] = r

        def body():
            r.sem.acquire()
            try:
                if not self.over:
                    obj.run()
            except Killed:
                pass
            except BaseException as e:
                if self.error is None:
                    self.error = e
            r.finished = True
            if self.over:
                return
            if self.error is not None:
                nxt = self.main
            else:
                en = self.enabled()
                if not en:
                    self.error = Stuck('no thread can go on')
                    nxt = self.main
                elif len(en) == 1:
                    nxt = en[0]
                else:
                    try:
                        nxt = self.w.pick('sched%d' % self._next(), en)
                    except BaseException as e:
                        self.error, nxt = e, self.main
            self.current = nxt
            nxt.sem.release()
        r.os = _th.Thread(target=body, daemon=True)
        r.os.start()
        self.threads.append(r)

    def finish(self):
        """End of the run: unwind what is left."""
        self.over = True
        for t in self.threads:
            if t is not self.main and not t.finished:
                self.current = t
                t.sem.release()
                t.os.join(20)
        self.current = self.main


class _Rec(object):

    def __init__(self, name):
        self.name = name
        self.sem = _th.Semaphore(0)
        self.blocked = None
        self.finished = False
        self.sleeps = 0
        self.os = None
        self.obj = None

    def __repr__(self):
        return '<%s>' % self.name


def modules(s, constant=lambda v: False):
    """The threading and time modules on this scheduler. constant(v): v is only ever
    bound once as an attribute of a thread."""

    class Lock(object):
        _re = False

        def __init__(self):
            self.owner, self.depth = None, 0

        def acquire(self, blocking=True, timeout=-1):
            s.point()
            me = s.current
            if s.over:
                return True
            if self._re and self.owner is me:
                self.depth += 1
                return True
            if self.owner is not None and not blocking:
                return False
            if self.owner is not None and timeout is not None and timeout >= 0:
                if s.w.flag('timeout%d' % s._next()):
                    return False
            s.wait(lambda: self.owner is None)
            self.owner, self.depth = me, 1
            return True

        def release(self):
            if s.over:
                return
            if self.owner is None:
                raise RuntimeError('release unlocked lock')
            self.depth -= 1
            if self.depth == 0:
                self.owner = None
            s.point()

        def locked(self):
            s.point()
            return self.owner is not None

        def __enter__(self):
            self.acquire()
            return self

        def __exit__(self, *a):
            self.release()

    class RLock(Lock):
        _re = True

    class Event(object):

        def __init__(self):
            self._flag = False

        def is_set(self):
            s.point()
            return self._flag
        isSet = is_set

        def set(self):
            self._flag = True
            s.point()

        def clear(self):
            self._flag = False
            s.point()

        def wait(self, timeout=None):
            s.point()
            if timeout is None:
                s.wait(lambda: self._flag)
                return True
            if not self._flag:
                s.sleep(timeout)
            return self._flag

    class Condition(object):

        def __init__(self, lock=None):
            self._lock = lock or RLock()
            self.acquire, self.release = self._lock.acquire, self._lock.release
            self._gen = 0

        def __enter__(self):
            self._lock.acquire()
            return self

        def __exit__(self, *a):
            self._lock.release()

        def wait(self, timeout=None):
            g = self._gen
            depth, self._lock.depth = self._lock.depth, 1
            self._lock.release()
            if timeout is None:
                s.wait(lambda: self._gen != g)
            else:
                s.sleep(timeout)
            self._lock.acquire()
            self._lock.depth = depth
            return self._gen != g

        def wait_for(self, pred, timeout=None):
            while not pred():
                self.wait(timeout)
            return True

        def notify(self, n=1):
            self._gen += 1

        notify_all = notify

    class Thread(object):
        """As in CPython 3.12: no isAlive, and liveness passes through _stop."""
        _INNER = ('_rec', '_is_stopped', '_started', 'name', 'daemon', '_target', '_args', '_kwargs')

        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
            self.name = name or 'thread%d' % len(s.threads)
            self.daemon = daemon
            self._target, self._args, self._kwargs = target, args, kwargs or {}
            self._started = Event()
            self._is_stopped = False
            self._rec = None

        def __getattribute__(self, n):
            v = object.__getattribute__(self, n)
            if n in object.__getattribute__(self, '__dict__') and n not in Thread._INNER \
                    and not isinstance(v, (Lock, Event, Condition)) and not constant(v):
                s.point()
            return v

        def __setattr__(self, n, v):
            object.__setattr__(self, n, v)
            if n not in Thread._INNER and self.__dict__.get('_rec') is not None:
                s.point()

        def start(self):
            if self._rec is not None:
                raise RuntimeError('threads can only be started once')
            self._started._flag = True
            s.spawn(self)
            s.point()

        def run(self):
            if self._target:
                self._target(*self._args, **self._kwargs)

        def _stop(self):
            object.__setattr__(self, '_is_stopped', True)

        def is_alive(self):
            s.point()
            if self._is_stopped or not self._started._flag:
                return False
            if self._rec.finished:
                self._stop()
            return not self._is_stopped

        def join(self, timeout=None):
            s.point()
            if self._rec is None:
                raise RuntimeError('cannot join thread before it is started')
            if self._rec is s.current:
                raise RuntimeError('cannot join current thread')
            if timeout is not None and not self._rec.finished:
                if s.w.flag('timeout%d' % s._next()):
                    return
            s.wait(lambda: self._rec.finished)
            if self._rec.finished:
                self._stop()

        @property
        def ident(self):
            return id(self)

        def setDaemon(self, d):
            self.daemon = d

    class _Main(object):
        name = 'MainThread'
        daemon = False

        def is_alive(self):
            return True

    main_obj = _Main()
    th = types.ModuleType('threading')
    for c in (Lock, RLock, Event, Condition, Thread):
        setattr(th, c.__name__, c)
    th.current_thread = lambda: s.current.obj or main_obj
    th.main_thread = lambda: main_obj
    th.get_ident = lambda: id(s.current)
    import time as real
    tm = types.ModuleType('time')
    for n in dir(real):
        if not n.startswith('__'):
            setattr(tm, n, getattr(real, n))
    tm.sleep = s.sleep
    return {'threading': th, 'time': tm}
