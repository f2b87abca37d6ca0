"""Caller threads under a baton: exactly one runs, the seed decides at every source line who is next.

Real Python threads are used for their stacks only.  sys.settrace delivers an event per source line of
phasor (and of harness callbacks that opt in); at each event the running thread asks the scheduler whether
to hand the baton over.  Locks created by phasor code are simulated (the seam rewrites `import threading`),
so that a blocked thread is known to be blocked and a deadlock is detected instead of hanging.
"""
import math
import sys
import threading as _real
import types

from . import boot
from . import sched as S
from .core import Violation

CUR = types.SimpleNamespace(baton=None)


class Killed(BaseException):
    """unwinds parked threads once the run is over"""


class _Th(object):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
        self.sem = _real.Semaphore(0)
        self.done = False
        self.blocked = None
        self.exc = None
        self.steps = 0


class Baton(object):
    def __init__(self, sched, p, only_dirs=None, opcodes=False, limit=2000000):
        """p: chance in 1000 that a line event hands the baton over"""
        self.sched = sched
        self.seed = S.splitmix(sched.seed, 0xBA70)
        self.p = p
        self.dirs = tuple(only_dirs or (boot.REPO + '/phasor',))
        self.opcodes = opcodes
        self.threads = []
        self.cur = None
        self.ev = 0              # yield points so far
        self.limit = limit
        self.switches = 0
        self.main = _real.Semaphore(0)
        self.dead = False
        self.error = None
        self.quiet = 0

    def spawn(self, name, fn):
        self.threads.append(_Th(name, fn))

    # -- trace -------------------------------------------------------------------------
    def _trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.dirs):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.point()
        return self._local

    # -- scheduling --------------------------------------------------------------------
    def runnable(self):
        return [t for t in self.threads if not t.done and t.blocked is None]

    def decide(self, cands):
        """cands[0] is the default"""
        i = self.sched.n
        out = self.sched.order(cands, 'switch')
        return out[0]

    def point(self, force=False):
        """a place where a preemption may happen"""
        if self.dead:
            raise Killed()
        me = self.cur
        self.ev += 1
        if self.ev > self.limit:
            self.error = Violation('no-progress', 'more than {0} yield points'.format(self.limit))
            self.dead = True
            self.main.release()
            raise Killed()
        if not force and (S.splitmix(self.seed, self.ev) >> 40) % 1000 >= self.p:
            return
        run = self.runnable()
        if len(run) < 2:
            return
        run.remove(me)
        nxt = self.decide([me] + run)
        if nxt is not me:
            self.switch(nxt)

    def switch(self, nxt):
        me = self.cur
        self.switches += 1
        self.cur = nxt
        nxt.sem.release()
        me.sem.acquire()
        if self.dead:
            raise Killed()

    def block(self, what):
        """park the current thread until unblock(); someone else runs"""
        me = self.cur
        me.blocked = what
        run = self.runnable()
        if not run:
            self.error = Violation('deadlock', 'every thread is blocked: ' + ', '.join(
                '{0} on {1}'.format(t.name, t.blocked) for t in self.threads if not t.done))
            self.dead = True
            self.main.release()
            raise Killed()
        self.switch(self.decide(run))

    def unblock(self, th):
        th.blocked = None

    def _body(self, th):
        th.sem.acquire()
        try:
            if not self.dead:
                if not isinstance(self, MonBaton):
                    sys.settrace(self._trace)
                th.fn()
        except Killed:
            pass
        except BaseException as e:
            th.exc = e
        finally:
            sys.settrace(None)
            th.done = True
            if not self.dead:
                run = self.runnable()
                if run:
                    self.cur = self.decide(run)
                    self.cur.sem.release()
                elif any(not t.done for t in self.threads):
                    self.error = Violation('deadlock', 'every remaining thread is blocked: ' + ', '.join(
                        '{0} on {1}'.format(t.name, t.blocked) for t in self.threads if not t.done))
                    self.dead = True
                    self.main.release()
                else:
                    self.main.release()

    def run(self):
        _real.stack_size(64 * 1024 * 1024)
        ths = [_real.Thread(target=self._body, args=(t,), daemon=True) for t in self.threads]
        CUR.baton = self
        try:
            for t in ths:
                t.start()
            self.cur = self.decide(list(self.threads))
            self.cur.sem.release()
            self.main.acquire()
        finally:
            if not all(t.done for t in self.threads):
                self.dead = True
            CUR.baton = None
            if self.dead:
                for t in self.threads:
                    t.sem.release()
            for t in ths:
                t.join(5)
        if self.error:
            raise self.error


class MonBaton(Baton):
    """the same with sys.monitoring in place of sys.settrace, for long runs: line events of the package only, preempted at seeded gaps"""
    TOOL = 4

    def __init__(self, sched, p, limit=30000000):
        Baton.__init__(self, sched, p, limit=limit)
        self.root = boot.REPO + '/phasor/'
        self.k = 0
        self.next = 0
        self.stop = None         # (thread index, event number, exception): cut that thread short then
        self._gap()

    def _gap(self):
        # geometric with mean 1000/p
        self.k += 1
        u = ((S.splitmix(self.seed, self.k) >> 11) + 1) / float(1 << 53)
        self.next = self.ev + 1 + int(-math.log(u) * 1000. / self.p)

    def _event(self, code, line):
        if not code.co_filename.startswith(self.root):
            return sys.monitoring.DISABLE
        if self.dead:
            raise Killed()
        me = self.cur
        self.ev += 1
        me.steps += 1
        if self.stop is not None and me is self.threads[self.stop[0]] and me.steps > self.stop[1]:
            exc, self.stop = self.stop[2], None
            raise exc
        if self.ev >= self.next:
            self._gap()
            self.point(force=True)

    def _trace(self, frame, event, arg):
        return None

    def run(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'phasor-baton')
        m.register_callback(self.TOOL, m.events.LINE, self._event)
        m.restart_events()
        m.set_events(self.TOOL, m.events.LINE)
        try:
            Baton.run(self)
        finally:
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, m.events.LINE, None)
            m.free_tool_id(self.TOOL)


def active():
    """the baton, when the calling thread is one of its simulated threads and runs now"""
    b = CUR.baton
    if b is None or b.cur is None:
        return None
    return b


# ---- simulated primitives handed to phasor in place of threading's --------------------------------

class Lock(object):
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._n = 0
        self._waiters = []
        self._real = _real.RLock() if self._reentrant else _real.Lock()

    def acquire(self, blocking=True, timeout=-1):
        b = active()
        if b is None:
            return self._real.acquire(blocking, timeout)
        b.point()
        me = b.cur
        if self._reentrant and self._owner is me:
            self._n += 1
            return True
        while self._owner is not None:
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                # simulated time passes only when nothing else happens: a bounded wait may expire here
                b.point(force=True)
                if self._owner is not None:
                    return False
                break
            self._waiters.append(me)
            b.block('lock')
        self._owner = me
        self._n = 1
        return True

    def release(self):
        b = active()
        if b is None:
            return self._real.release()
        if self._owner is None or (self._reentrant and self._owner is not b.cur):
            raise RuntimeError('release unlocked lock')
        self._n -= 1
        if self._n == 0:
            self._owner = None
            w, self._waiters = self._waiters, []
            for t in w:
                b.unblock(t)
        if sys.exc_info()[0] is not Killed:
            b.point()

    def locked(self):
        return self._owner is not None if active() else self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        if a and a[0] is Killed:
            return
        self.release()

    def _is_owned(self):
        b = active()
        return self._owner is b.cur if b else self._real._is_owned()


class RLock(Lock):
    _reentrant = True


class Condition(object):
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else RLock()
        self._w = []
        self.acquire = self._lock.acquire
        self.release = self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        b = active()
        if b is None:
            raise RuntimeError('Condition.wait outside a simulated thread')
        me = b.cur
        n, self._lock._n = self._lock._n, 1
        self._lock.release()
        if timeout is None:
            self._w.append(me)
            b.block('condition')
        else:
            b.point(force=True)
        self._lock.acquire()
        self._lock._n = n
        return True

    def wait_for(self, pred, timeout=None):
        r = pred()
        while not r:
            self.wait(timeout)
            r = pred()
            if timeout is not None:
                break
        return r

    def notify(self, n=1):
        b = active()
        w, self._w = self._w[:n], self._w[n:]
        for t in w:
            b.unblock(t)

    def notify_all(self):
        self.notify(len(self._w))

    notifyAll = notify_all


class Semaphore(object):
    def __init__(self, value=1):
        self._v = value
        self._c = Condition(Lock())

    def acquire(self, blocking=True, timeout=None):
        with self._c:
            while self._v == 0:
                if not blocking:
                    return False
                self._c.wait(timeout)
                if timeout is not None and self._v == 0:
                    return False
            self._v -= 1
        return True

    def release(self, n=1):
        with self._c:
            self._v += n
            self._c.notify(n)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


BoundedSemaphore = Semaphore

_names = {n: globals()[n] for n in ('Lock', 'RLock', 'Condition', 'Semaphore', 'BoundedSemaphore')}
shim = types.ModuleType('threading')
shim.__dict__.update({k: v for k, v in _real.__dict__.items() if not k.startswith('__')})
shim.__dict__.update(_names)


def _get_ident():
    b = active()
    return 1000 + b.threads.index(b.cur) if b else _real.get_ident()


shim.get_ident = _get_ident


class _Local(object):
    """threading.local per simulated thread (real threads back the simulated ones, so the real one works)"""


shim.local = _real.local
