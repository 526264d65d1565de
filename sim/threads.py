"""
Cooperative threads under a seeded scheduler.

Real threads carry the stacks, but exactly one of them holds the baton. It can lose it at any line (or byte code)
of the files in scope, and whenever it waits for a lock; who goes on is decided by the schedule alone.
"""
import _thread
import os
import random
import sys
import threading

ACTIVE = None  # the Baton of this process, if any
_real_allocate = _thread.allocate_lock


class Deadlock(BaseException):
    pass


class StepLimit(BaseException):
    pass


class SimLock:
    """threading.Lock for simulated threads"""

    def __init__(self):
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        while self._owner is not None:
            if not blocking or ACTIVE is None:
                if ACTIVE is None and blocking:
                    raise RuntimeError('lock held for ever')
                return False
            if timeout is not None and timeout >= 0:
                return False
            ACTIVE.wait_for(self)
        self._owner = _thread.get_ident()
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError('release unlocked lock')
        self._owner = None
        if ACTIVE is not None:
            ACTIVE.wake(self)

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()

    def _at_fork_reinit(self):
        self._owner = None


class SimRLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self._owner is not None and self._owner != me:
            if not blocking or ACTIVE is None or (timeout is not None and timeout >= 0):
                return False
            ACTIVE.wait_for(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            if ACTIVE is not None:
                ACTIVE.wake(self)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *args):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        state = (self._count, self._owner)
        self._count, self._owner = 0, None
        if ACTIVE is not None:
            ACTIVE.wake(self)
        return state

    def _acquire_restore(self, state):
        while self._owner is not None:
            ACTIVE.wait_for(self)
        self._count, self._owner = state

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


def patch_locks():
    """Before the code under test is imported."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._RLock = SimRLock


class Thread:
    def __init__(self, index, job):
        self.index = index
        self.job = job
        self.gate = _real_allocate()
        self.gate.acquire()
        self.state = 'ready'
        self.lock = None
        self.ident = None
        self.lines = 0


class Schedule:
    """{'seed', 'rate'}: a switch about every ``rate`` events; {'list': [[event, thread], ...]}: exactly those."""

    def __init__(self, spec, n):
        self.spec = spec
        self.n = n
        if 'list' in spec:
            self.queue = list(spec['list'])
            self.rng = None
        else:
            self.rng = random.Random(spec['seed'])
            self.rate = spec['rate']
        self.performed = []

    def first(self):
        return self.rng.randrange(self.n) if self.rng else 0

    def next_after(self, count):
        """-> event number of the next switch"""
        if self.rng is None:
            return self.queue[0][0] if self.queue else None
        return count + 1 + int(self.rng.expovariate(1.0 / self.rate))

    def choose(self):
        if self.rng is None:
            return self.queue.pop(0)[1]
        return self.rng.randrange(self.n)


class Baton:
    def __init__(self, jobs, schedule, in_scope, opcodes=False, interrupt=None, limit=6_000_000, on_event=None):
        self.threads = [Thread(i, job) for i, job in enumerate(jobs)]
        self.schedule = Schedule(schedule, len(jobs))
        self.in_scope = in_scope
        self.opcodes = opcodes
        self.interrupts = {}
        for item in interrupt or ():
            self.interrupts.setdefault(item['thread'], []).append(item)
        self.limit = limit
        self.count = 0
        self.next_at = None
        self.current = None
        self.switches = 0
        self.main = _real_allocate()
        self.main.acquire()
        self.failure = None
        self.scope = {}
        self.fired = {}
        self.where = []

    # -- running -----------------------------------------------------------------------------

    def run(self):
        global ACTIVE
        ACTIVE = self
        old = _thread.stack_size(16 * 1024 * 1024)
        for t in self.threads:
            _thread.start_new_thread(self._carry, (t,))
        _thread.stack_size(old)
        first = self.schedule.first()
        if self.schedule.rng is None and self.schedule.queue and self.schedule.queue[0][0] == 0:
            first = self.schedule.choose()
        self.performed_first = first
        self.schedule.performed.append([0, first])
        self.next_at = self.schedule.next_after(0)
        self.current = self.threads[first]
        self.current.gate.release()
        self.main.acquire()
        ACTIVE = None
        if self.failure is not None:
            raise self.failure

    def _carry(self, t):
        t.gate.acquire()
        t.ident = _thread.get_ident()
        try:
            if self.failure is None:
                t.job(t)
        except (Deadlock, StepLimit) as exc:
            self.failure = self.failure or exc
        except BaseException as exc:  # pylint: disable=broad-except
            self.failure = self.failure or exc
        finally:
            sys.settrace(None)
            t.state = 'done'
            self._pass_on(t)

    def _pass_on(self, t):
        """Thread ``t`` cannot go on."""
        ready = [x for x in self.threads if x.state == 'ready']
        if not ready:
            if all(x.state == 'done' for x in self.threads):
                self.main.release()
                return
            self.failure = self.failure or Deadlock('all threads wait')
            for x in self.threads:
                if x.state == 'blocked':
                    x.state = 'ready'
            ready = [x for x in self.threads if x.state == 'ready']
            if not ready:
                self.main.release()
                return
        following = min(ready, key=lambda x: (x.index - t.index) % len(self.threads))
        self.current = following
        following.gate.release()

    def trace_on(self):
        """Called by a job of this baton in its own thread."""
        sys.settrace(self._glob)

    def _glob(self, frame, event, arg):
        code = frame.f_code
        inside = self.scope.get(code)
        if inside is None:
            inside = self.scope[code] = bool(self.in_scope(code.co_filename))
        if not inside:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event not in ('line', 'opcode'):
            return self._local
        self.count += 1
        me = self.current
        if event == 'line':
            me.lines += 1
            mine = self.interrupts.get(me.index)
            if mine and mine[0]['line'] == me.lines:
                item = mine.pop(0)
                self.fired[item['kind']] = self.fired.get(item['kind'], 0) + 1
                raise item['make']()
        if self.count > self.limit:
            self.failure = StepLimit('{} events'.format(self.count))
            raise self.failure
        if self.next_at is not None and self.count >= self.next_at:
            f = frame
            while f is not None:
                if f.f_code.co_filename.startswith('<frozen importlib'):
                    return self._local
                f = f.f_back
            n = self.schedule.choose()
            self.schedule.performed.append([self.count, n])
            self.next_at = self.schedule.next_after(self.count)
            other = self.threads[n]
            if other is not me and other.state == 'ready':
                self.where.append((frame.f_code.co_name, frame.f_lineno))
                self._switch(me, other)
        return self._local

    def _switch(self, me, other):
        self.switches += 1
        self.current = other
        other.gate.release()
        me.gate.acquire()
        if self.failure is not None:
            raise StepLimit('stopped')

    # -- locks -------------------------------------------------------------------------------

    def wait_for(self, lock):
        me = self.current
        me.state, me.lock = 'blocked', lock
        self.switches += 1
        self._pass_on(me)
        me.gate.acquire()
        if self.failure is not None:
            raise Deadlock('stopped')

    def wake(self, lock):
        for t in self.threads:
            if t.state == 'blocked' and t.lock is lock:
                t.state, t.lock = 'ready', None


class PerThread:
    """A text stream that keeps what each simulated thread writes apart."""
    encoding = 'utf-8'
    errors = 'strict'
    closed = False

    def __init__(self):
        self.parts = {}

    def write(self, text):
        if not isinstance(text, str):
            raise TypeError('write() argument must be str, not {}'.format(type(text).__name__))
        self.parts.setdefault(_thread.get_ident(), []).append(text)
        return len(text)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def take(self):
        return ''.join(self.parts.pop(_thread.get_ident(), []))

    def flush(self):
        pass

    def isatty(self):
        return False

    def writable(self):
        return True


def pid():
    return os.getpid()
