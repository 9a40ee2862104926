"""Seeded thread scheduler: real Python threads, exactly one of them running at any time.

The baton may change hands at every line of converter21 code a thread is about to execute (and, in call mode,
before every call made by converter21 code), and whenever a thread blocks on a lock or ends.  Locks made through
`threading` are replaced by cooperative ones, so a lock that some other thread holds is a scheduling decision
and a deadlock is observed rather than suffered.
"""
from __future__ import annotations

import _thread
import os
import threading

from . import core

_real_lock = _thread.allocate_lock
CURRENT = None          # the active Scheduler, if any


class SimDeadlock(BaseException):
    pass


class SimAbort(BaseException):
    """A simulated death of one thread's conversion."""


class SimLock:
    """threading.Lock under the scheduler."""

    def __init__(self):
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        while self._held:
            s = CURRENT
            if not blocking or timeout == 0:
                return False
            if s is None or not s.mine():
                if timeout is not None and timeout > 0:
                    return False
                raise SimDeadlock('acquiring a held lock outside the simulation')
            if not s.block(self, timeout is not None and timeout > 0):
                return False
        self._held = True
        return True

    def release(self):
        if not self._held:
            raise RuntimeError('release unlocked lock')
        self._held = False
        s = CURRENT
        if s is not None:
            s.wake(self)

    def locked(self):
        return self._held

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._held = False


class SimRLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self._owner is not None and self._owner != me:
            s = CURRENT
            if not blocking or timeout == 0:
                return False
            if s is None or not s.mine():
                if timeout is not None and timeout > 0:
                    return False
                raise SimDeadlock('acquiring a held lock outside the simulation')
            if not s.block(self, timeout is not None and timeout > 0):
                return False
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            s = CURRENT
            if s is not None:
                s.wake(self)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        s = CURRENT
        if s is not None:
            s.wake(self)
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


def install():
    """Before music21 and converter21 are imported."""
    threading.Lock = SimLock
    threading.RLock = SimRLock


class Scheduler:
    """
    spec: {'mode': 'dense'|'sparse'|'window'|'serial'|'pause'|'explicit', 'seed': int, 'gap': int, 'switches': [[n, to], ...]}
    """

    def __init__(self, bodies, spec, aborts=None):
        self.bodies = bodies
        self.n = len(bodies)
        self.spec = spec
        self.aborts = aborts or {}          # thread -> line number (of that thread) at which it dies
        self.rng = core.derive_rng('sched', spec.get('seed', 0))
        self.sems = [_real_lock() for _ in bodies]
        self.donelock = _real_lock()
        for s in self.sems:
            s.acquire()
        self.donelock.acquire()
        self.idents = {}
        self.running = 0
        self.state = ['ready'] * self.n     # ready | blocked | done
        self.waiting = [None] * self.n
        self.results = [None] * self.n
        self.lines = 0
        self.tlines = [0] * self.n
        self.switches: list = []            # [line number, thread] as taken
        self.sites: set = set()
        self.deadlock = None
        self.where = ('', 0)
        self.explicit = {}
        if spec['mode'] == 'explicit':
            self.explicit = {n: to for n, to in spec['switches']}
        self.next = self._gap()
        self.burst = 0
        self.fired = []
        # pause mode: [thread, (file, function, line, occurrence)]: there the thread stops until no other can go on
        self.pauses = [[p[0], tuple(p[1]), 0] for p in spec.get('pauses', ())]

    # --- scheduling decisions

    def _gap(self):
        m, g = self.spec['mode'], max(1, self.spec.get('gap', 10))
        if m in ('explicit', 'serial', 'pause'):
            return 1 << 60
        if m == 'dense':
            return self.lines + 1 + int(self.rng.expovariate(1.0 / g))
        if m == 'sparse':
            return self.lines + 1 + int(self.rng.expovariate(1.0 / (g * 100)))
        if m == 'window':
            # a burst of switches at nearly every line, then a long quiet stretch
            if getattr(self, 'burst', 0) > 0:
                self.burst -= 1
                return self.lines + 1 + self.rng.randrange(3)
            self.burst = 40
            return self.lines + 1 + int(self.rng.expovariate(1.0 / (g * 200)))
        raise core.HarnessError(m)

    def mine(self):
        return _thread.get_ident() in self.idents

    def _ready(self):
        r = [i for i in range(self.n) if self.state[i] == 'ready']
        if not r and 'held' in self.state:
            # nobody else can go on: the thread that stopped first does
            i = self.state.index('held')
            self.state[i] = 'ready'
            r = [i]
        return r

    def point(self, code, _x=None, *rest):
        """The running thread is about to execute the next line (or call)."""
        me = self.idents.get(_thread.get_ident())
        if me is None:
            return
        self.lines += 1
        self.tlines[me] += 1
        if self.tlines[me] == self.aborts.get(me, -1):
            self.fired.append(me)
            raise SimAbort('simulated')
        to = None
        if self.pauses and _x is not None and self._pause(me, code, _x):
            return
        if self.explicit:
            to = self.explicit.get(self.lines)
            if to is not None and self.state[to] != 'ready':
                to = None
        elif self.lines >= self.next:
            others = [i for i in range(self.n) if self.state[i] == 'ready' and i != me]
            if others:
                to = others[self.rng.randrange(len(others))]
            self.next = self._gap()
        if to is not None and to != me:
            self.switches.append([self.lines, to])
            if len(self.sites) < 4000:
                self.sites.add(f'{os.path.basename(code.co_filename)}:{code.co_qualname}')
            self._hand(me, to)

    def _pause(self, me, code, line):
        for p in self.pauses:
            if p[0] == me and p[1][2] == line and code.co_qualname == p[1][1] and os.path.basename(code.co_filename) == p[1][0]:
                p[2] += 1
                if p[2] == p[1][3] + 1:
                    self.pauses.remove(p)
                    self.state[me] = 'held'
                    r = self._ready()
                    if me in r:
                        return False
                    to = r[0]
                    self.switches.append([self.lines, to])
                    self.sites.add(f'{os.path.basename(code.co_filename)}:{code.co_qualname}')
                    self._hand(me, to)
                    return True
        return False

    def _hand(self, me, to):
        self.running = to
        self.sems[to].release()
        self.sems[me].acquire()
        if self.deadlock is not None:
            raise SimDeadlock(self.deadlock)

    # --- blocking

    def block(self, lock, timed):
        """The running thread cannot take this lock; False: its wait timed out."""
        me = self.idents[_thread.get_ident()]
        self.state[me] = 'blocked'
        self.waiting[me] = lock
        r = self._ready()
        if not r:
            if timed:
                self.state[me] = 'ready'
                return False
            self.deadlock = f'threads {[i for i in range(self.n) if self.state[i] == "blocked"]} wait for each other'
            self.state[me] = 'ready'
            raise SimDeadlock(self.deadlock)
        self._hand(me, r[0])
        return True

    def wake(self, lock):
        for i in range(self.n):
            if self.waiting[i] is lock and self.state[i] == 'blocked':
                self.state[i] = 'ready'
                self.waiting[i] = None

    # --- running

    def _main(self, i):
        self.sems[i].acquire()
        self.idents[_thread.get_ident()] = i
        try:
            if self.deadlock is None:
                self.results[i] = ('ok', self.bodies[i]())
        except SimDeadlock as e:
            self.results[i] = ('deadlock', str(e))
        except SimAbort:
            self.results[i] = ('aborted', None)
        except BaseException as e:                           # noqa: BLE001
            import traceback
            self.results[i] = ('exc', f'{type(e).__name__}: {e}', traceback.format_exc()[-1500:])
        del self.idents[_thread.get_ident()]
        self.state[i] = 'done'
        left = self._ready()
        if not left:
            blocked = [j for j in range(self.n) if self.state[j] == 'blocked']
            if blocked:
                self.deadlock = f'threads {blocked} wait for a lock that no one will release'
                for j in blocked:
                    self.state[j] = 'ready'
                left = blocked
        if left:
            self.running = left[0]
            self.sems[left[0]].release()
        else:
            self.donelock.release()

    def run(self, calls=False):
        global CURRENT
        CURRENT = self
        try:
            for i in range(self.n):
                _thread.start_new_thread(self._main, (i,))
            with core.Monitor(on_line=self.point, on_call=self.point_call if calls else None):
                self.sems[0].release()
                self.donelock.acquire()
        finally:
            CURRENT = None
        return self.results

    def point_call(self, code, off, callee, arg):
        self.point(code)
