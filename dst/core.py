# coding=utf-8
"""The simulator: one seeded (or explicitly listed) schedule decides which caller thread runs at every traced
line (or bytecode) of the code under test, which lock waiter wakes, and where a fault is raised.

Real threads are used, but exactly one holds the baton at any time; every hand-over is a decision of the plan.
"""
import sys
import os
import random
import hashlib
import _thread
import threading
import time as _time

_real_allocate = _thread.allocate_lock
_real_ident = _thread.get_ident

REPO = os.environ.get('DST_REPO', '/repo')


class SimAbort(BaseException):
    """Raised inside parked threads to unwind them when a run is over."""


class Violation(Exception):
    def __init__(self, kind, detail, key=None):
        super(Violation, self).__init__(kind, detail)
        self.kind, self.detail, self.key = kind, detail, key


class HarnessError(Exception):
    """Something is wrong with the machinery itself; never reported as a violation."""


class InjectedError(Exception):
    """An ordinary exception raised by simulated user code."""


EXCS = {
    'KeyboardInterrupt': KeyboardInterrupt,
    'MemoryError': MemoryError,
    'SystemExit': SystemExit,
    'RecursionError': RecursionError,
    'InjectedError': InjectedError,
    'ValueError': ValueError,
    'TypeError': TypeError,
    'KeyError': KeyError,
    'AttributeError': AttributeError,
    'ImportError': ImportError,
    'RuntimeError': RuntimeError,
    'IndexError': IndexError,
    'LookupError': LookupError,
    'OSError': OSError,
    'NotImplementedError': NotImplementedError,
    'AssertionError': AssertionError,
    'ZeroDivisionError': ZeroDivisionError,
    'Exception': Exception,
    'GeneratorExit': GeneratorExit,
    'UnicodeError': UnicodeError,
    'StopIteration': StopIteration,
}
EXCS.update({e.__name__: e for e in (OverflowError, NameError, EOFError, TimeoutError, PermissionError, BufferError,
                                     FileNotFoundError, UserWarning, ReferenceError)})


def rng_for(*parts):
    h = hashlib.sha256('|'.join(map(str, parts)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


# --- Lock seam -------------------------------------------------------------------------------------------------

_SIM = None      # the running simulation, if any


class SimLock(object):
    """threading.Lock / RLock stand-in. Outside a simulation it is just a real lock."""

    reentrant = False

    def __init__(self):
        self._real = _real_allocate()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _real_ident()
        if self.reentrant and self._owner == me:
            self._count += 1
            return True
        sim = _SIM
        th = sim.by_ident.get(me) if sim is not None else None
        if th is None:
            if self._owner == me and blocking and timeout < 0:
                raise HarnessError('self deadlock outside of the simulation')
            got = self._real.acquire(blocking, timeout)
        else:
            got = sim.acquire(th, self, blocking, timeout)
        if got:
            self._owner = me
            self._count = 1
            if th is not None:
                th.held.append(self)
        return got

    def release(self):
        me = _real_ident()
        if self.reentrant:
            if self._owner != me:
                raise RuntimeError('cannot release un-acquired lock')
            self._count -= 1
            if self._count:
                return
        self._drop()

    def _drop(self):
        self._owner = None
        self._count = 0
        self._real.release()
        sim = _SIM
        if sim is not None:
            sim.released(self)

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_):
        self.release()

    # threading.Condition protocol
    def _is_owned(self):
        return self._owner == _real_ident()

    def _release_save(self):
        state = self._count
        self._drop()
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count = state

    def _at_fork_reinit(self):
        self._real = _real_allocate()
        self._owner = None
        self._count = 0


class SimRLock(SimLock):
    reentrant = True


_REAL = {}
_SEAMS = ((threading, 'Lock'), (threading, 'RLock'), (threading, '_allocate_lock'), (threading, '_CRLock'),
          (_thread, 'allocate_lock'), (_thread, 'RLock'))


def install_lock_seam():
    """From now on, locks created by anybody are simulator-aware. To be called before importing whatami."""
    for module, name in _SEAMS:
        _REAL[module, name] = getattr(module, name)
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._CRLock = SimRLock
    _thread.allocate_lock = SimLock
    _thread.RLock = SimRLock
    real_sleep = _time.sleep
    _REAL['sleep'] = real_sleep

    def sleep(secs):
        sim = _SIM
        th = sim.by_ident.get(_real_ident()) if sim is not None else None
        if th is None:
            return real_sleep(secs)
        sim.clock += max(0., secs)
        sim.point(th, 'sleep')
    _time.sleep = sleep


# --- Clock and host name seam

_ENV = None      # simulated clock and host, if any: object with time() and hostname()


def set_env(env):
    global _ENV
    _ENV = env


def install_env_seam():
    """From now on, the time of the day and the name of the host can be simulated. To be called before importing
    whatami."""
    import socket

    def wrap(module, name, simulated):
        real = getattr(module, name)
        _REAL[module, name] = real

        def wrapper(*args):
            return real(*args) if _ENV is None else simulated(real, *args)
        wrapper.__name__ = name
        setattr(module, name, wrapper)

    def with_now(real, secs=None):
        return real(_ENV.time() if secs is None else secs)

    def strftime(real, fmt, t=None):
        return real(fmt, _REAL[_time, 'localtime'](_ENV.time()) if t is None else t)

    def uname(real):
        info = real()
        return type(info)((info[0], _ENV.hostname()) + tuple(info[2:]))

    wrap(_time, 'time', lambda real: _ENV.time())
    wrap(_time, 'time_ns', lambda real: int(_ENV.time() * 10 ** 9))
    for name in ('localtime', 'gmtime', 'ctime'):
        wrap(_time, name, with_now)
    wrap(_time, 'strftime', strftime)
    wrap(socket, 'gethostname', lambda real: _ENV.hostname())
    wrap(os, 'uname', uname)


def uninstall_lock_seam():
    """From now on, new locks are real ones."""
    for module, name in _SEAMS:
        setattr(module, name, _REAL[module, name])


# --- Scheduler -------------------------------------------------------------------------------------------------

class SimThread(object):
    def __init__(self, tid):
        self.tid = tid
        self.baton = _real_allocate()
        self.baton.acquire()
        self.state = 'ready'
        self.waiting = None
        self.held = []
        self.opid = None
        self.opstep = 0
        self.faults = []
        self.ident = None
        self.fired_now = False


class Sim(object):
    """
    sched: {'kind': 'none' | 'rand' | 'pct' | 'list', ...}
    faults: [{'op': opid, 'at': n, 'exc': name}]: raise at the n-th traced point within the operation
    """

    def __init__(self, sched=None, faults=(), files=(), gran='line', step_cap=3000000, on_fatal=None):
        sched = sched or {'kind': 'none'}
        self.sched = sched
        self.kind = sched['kind']
        self.rng = rng_for('sched', sched.get('seed', 0))
        self.p = sched.get('p', 0.)
        self.pct = set(sched.get('at', ()))
        self.listed = {}
        for tid, opid, opstep, forced, target in sched.get('switches', ()):
            self.listed[(tid, opid, opstep, forced)] = target
        self.switches = []
        self.fault_plan = {}
        for f in faults:
            self.fault_plan.setdefault(f['op'], []).append(f)
        self.files = tuple(files)
        self.gran = gran
        self._filecache = {}
        self.steps = 0
        self.step_cap = step_cap
        self.clock = 0.
        self.seq = 0
        self.by_ident = {}
        self.threads = []
        self.current = None
        self.multi = False
        self.log = []
        self.fired = {}
        self.probes = {}
        self.nswitch_inside = 0
        self.on_fatal = on_fatal
        self.main = _real_allocate()
        self.main.acquire()
        self.failure = None
        self.where = hashlib.sha256()

    # --- bookkeeping

    def count(self, kind, n=1):
        self.fired[kind] = self.fired.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def event(self, *what):
        self.seq += 1
        self.log.append(what)
        return self.seq

    def fatal(self, kind, detail):
        v = Violation(kind, detail)
        if self.on_fatal is not None:
            self.on_fatal(self, v)   # does not return
        raise v

    # --- tracing

    def _traced(self, fn):
        t = self._filecache.get(fn)
        if t is None:
            t = self._filecache[fn] = any(fn.startswith(f) for f in self.files)
        return t

    def tracer(self, th):
        point = self.point
        traced = self._traced
        opcodes = self.gran == 'opcode'

        def local(frame, event, arg):
            if event == 'line':
                if not opcodes:
                    point(th, frame.f_lineno)
            elif event == 'opcode':
                point(th, frame.f_lineno)
            return local

        def globaltrace(frame, event, arg):
            if traced(frame.f_code.co_filename):
                if opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return globaltrace

    # --- the decision point

    def point(self, th, where):
        if th is not self.current:     # e.g. a finaliser running somewhere else
            return
        self.steps += 1
        th.opstep += 1
        if self.steps > self.step_cap:
            self.fatal('no-progress', 'more than %d steps' % self.step_cap)
        if th.faults and th.faults[0]['at'] <= th.opstep:
            f = th.faults.pop(0)
            th.fired_now = True
            self.count(f['exc'])
            self.event('fault', th.tid, th.opid, f['exc'], where)
            raise EXCS[f['exc']]('injected')
        if not self.multi:
            return
        target = None
        if self.kind == 'list':
            t = self.listed.get((th.tid, th.opid, th.opstep, 0))
            if t is not None and t < len(self.threads) and t != th.tid and self.threads[t].state == 'ready':
                target = self.threads[t]
        elif self.kind == 'rand':
            if self.rng.random() < self.p:
                target = self._other(th)
        elif self.kind == 'pct':
            if self.steps in self.pct:
                target = self._other(th)
        if target is not None:
            self.switches.append([th.tid, th.opid, th.opstep, 0, target.tid])
            if th.opstep > 1:
                self.nswitch_inside += 1
            self.event('sw', th.tid, target.tid, where)
            self._handover(th, target)

    def here(self, label='user'):
        """An explicit point, for simulated user code."""
        th = self.by_ident.get(_real_ident())
        if th is not None:
            self.point(th, label)

    def _other(self, th):
        ready = [t for t in self.threads if t.state == 'ready' and t is not th]
        return self.rng.choice(ready) if ready else None

    def _handover(self, th, target):
        self.current = target
        target.baton.release()
        th.baton.acquire()

    def _forced(self, th):
        """th cannot go on: choose who runs next (None if nobody can)."""
        ready = [t for t in self.threads if t.state == 'ready']
        if not ready:
            return None
        if self.kind == 'list':
            t = self.listed.get((th.tid, th.opid, th.opstep, 1))
            if t is not None and t < len(self.threads) and self.threads[t].state == 'ready':
                target = self.threads[t]
            else:
                target = ready[0]
        elif self.kind == 'none':
            target = ready[0]
        else:
            target = self.rng.choice(ready)
        self.switches.append([th.tid, th.opid, th.opstep, 1, target.tid])
        self.event('run', th.tid, target.tid)
        return target

    # --- locks

    def acquire(self, th, lock, blocking, timeout):
        if lock._real.acquire(False):
            return True
        if not blocking:
            return False
        self.probe('lock-contention')
        while True:
            if lock._owner is not None and lock._owner not in self.by_ident:
                return lock._real.acquire(blocking, timeout)     # held by a thread that is not ours
            th.state = 'blocked'
            th.waiting = lock
            target = self._forced(th) if self.multi else None
            if target is None:
                th.state = 'ready'
                th.waiting = None
                if timeout is not None and timeout >= 0:
                    self.clock += timeout
                    return False
                self.fatal('deadlock', 'nobody can run: %s' % ', '.join(
                    't%d %s in op %r' % (t.tid, t.state, t.opid) for t in self.threads))
            self._handover(th, target)
            th.waiting = None
            if lock._real.acquire(False):
                return True

    def released(self, lock):
        for t in self.threads:
            if t.waiting is lock and t.state == 'blocked':
                t.state = 'ready'

    # --- operations

    def op(self, th, opid, fn, trace=None, canon=None):
        """Runs one operation; returns (outcome, inv, res, fired).

        outcome is ('ok', value) or ('exc', exception); fired tells if a fault was raised by the simulator in it.
        """
        th.opid = opid
        th.opstep = 0
        th.faults = sorted(self.fault_plan.get(opid, ()), key=lambda f: f['at'])
        th.fired_now = False
        if trace is None:
            trace = self.multi or bool(th.faults)
        inv = self.event('inv', th.tid, opid)
        if self.multi:
            faults, th.faults = th.faults, []
            self.point(th, 'op')
            th.faults = faults
        try:
            try:
                if trace:
                    sys.settrace(self.tracer(th))
                out = ('ok', fn())
            finally:
                if trace:
                    sys.settrace(None)
                    # an exception raised by the tracer can leave frames marked, harmless once untraced
                th.faults = []
        except (SimAbort, Violation, HarnessError):
            raise
        except BaseException as e:
            out = ('exc', e)
        while th.held:
            lock = th.held.pop()
            # An asynchronous interrupt can hit between taking a lock and entering the block that releases it.
            # Every "lock.acquire(); try:" has that window, so we do not take it as a defect.
            if th.fired_now and lock._owner == th.ident:
                self.probe('lock-left-behind')
                lock._drop()
        desc = out[1] if out[0] == 'ok' else type(out[1]).__name__
        if out[0] == 'ok' and canon is not None:
            desc = canon(out[1])
        res = self.event('res', th.tid, opid, out[0], desc)
        return out, inv, res, th.fired_now

    # --- single threaded histories

    def enter(self):
        """Makes the calling thread the only simulated thread."""
        global _SIM
        th = SimThread(0)
        th.ident = _real_ident()
        self.threads = [th]
        self.by_ident = {th.ident: th}
        self.current = th
        self.multi = False
        _SIM = self
        return th

    def leave(self):
        global _SIM
        _SIM = None

    # --- concurrent histories

    def run_threads(self, programs):
        """programs: list of callables(th). Runs them all to the end under the schedule."""
        global _SIM
        self.threads = [SimThread(i) for i in range(len(programs))]
        self.multi = True
        _SIM = self

        def body(th, program):
            th.ident = _real_ident()
            self.by_ident[th.ident] = th
            th.baton.acquire()
            try:
                program(th)
            except SimAbort:
                pass
            except BaseException as e:
                if self.failure is None:
                    self.failure = e
            sys.settrace(None)
            th.state = 'done'
            th.opid = 'end'
            th.opstep = 0
            if self.failure is not None:
                self.main.release()
                return
            target = self._forced(th)
            if target is None:
                blocked = [t for t in self.threads if t.state == 'blocked']
                if blocked:
                    self.failure = Violation('deadlock', 'threads %r wait for ever for a lock' %
                                             [t.tid for t in blocked])
                self.main.release()
            else:
                self.current = target
                target.baton.release()

        for th, program in zip(self.threads, programs):
            _thread.start_new_thread(body, (th, program))
        while len(self.by_ident) < len(self.threads):
            pass
        starter = SimThread(-1)
        starter.opid = 'start'
        first = self._forced(starter)
        self.current = first
        first.baton.release()
        self.main.acquire()
        _SIM = None
        self.multi = False
        if self.failure is not None:
            raise self.failure

    def loghash(self):
        h = hashlib.sha256()
        for e in self.log:
            h.update(repr(e).encode('utf-8', 'backslashreplace'))
        return h.hexdigest()[:16]

    def interleaving_hash(self):
        h = hashlib.sha256()
        for e in self.log:
            if e[0] in ('sw', 'run', 'inv', 'fault'):
                h.update(repr(e).encode())
        return h.hexdigest()[:16]


# --- Linearizability -------------------------------------------------------------------------------------------

def linearizable(ops, init, step, cap=400000):
    """
    ops: list of dicts {inv, res, maybe, ...}; step(state, op) -> iterable of next states consistent with what was
    observed (empty if none). `maybe` operations (interrupted ones) can also have had no effect.
    Returns True, False, or None if the search was too big.
    """
    n = len(ops)
    full = (1 << n) - 1
    seen = set()
    stack = [(0, init)]
    work = 0
    while stack:
        done, state = stack.pop()
        if done == full:
            return True
        if (done, state) in seen:
            continue
        seen.add((done, state))
        work += 1
        if work > cap:
            return None
        horizon = min(ops[i]['res'] for i in range(n) if not done >> i & 1)
        for i in range(n):
            if done >> i & 1 or ops[i]['inv'] > horizon:
                continue
            for nxt in step(state, ops[i]):
                stack.append((done | 1 << i, nxt))
            if ops[i].get('maybe'):
                stack.append((done | 1 << i, state))
    return False
