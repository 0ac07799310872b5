# coding=utf-8
"""What several properties share: traced files, fault plans, schedules, simulated user objects."""
import os
import random

from ..core import REPO, EXCS, InjectedError, Violation

WHATAMI = os.path.join(REPO, 'whatami') + os.sep
INTERRUPTS = ('KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'SystemExit', 'RecursionError')
USER_ERRORS = ('InjectedError', 'ValueError', 'TypeError', 'KeyError', 'AttributeError', 'ImportError',
               'RuntimeError', 'IndexError', 'OSError', 'NotImplementedError', 'AssertionError',
               'ZeroDivisionError', 'StopIteration', 'LookupError', 'UnicodeError', 'OverflowError', 'NameError',
               'EOFError', 'TimeoutError', 'PermissionError', 'BufferError', 'FileNotFoundError', 'UserWarning',
               'ReferenceError', 'ValueError', 'TypeError', 'KeyError', 'AttributeError', 'ImportError')


def module_files(*modules):
    """Traces the whole library, or only some of its modules."""
    if not modules:
        return (WHATAMI,)
    return tuple(os.path.join(WHATAMI, m) for m in modules)


def sched(rng, nsteps=400, max_at=12):
    """A way of scheduling threads."""
    if rng.random() < .6:
        return {'kind': 'rand', 'seed': rng.randrange(1 << 40), 'p': rng.choice((.003, .01, .03, .1, .1, .3, .6))}
    n = rng.randrange(1, max_at)
    return {'kind': 'pct', 'seed': rng.randrange(1 << 40), 'at': sorted(rng.sample(range(1, nsteps), n))}


def maybe_fault(rng, faults, opid, p, reach, excs=INTERRUPTS):
    """With probability p, a fault in the given operation at some of its first `reach` points."""
    if rng.random() < p:
        faults.append({'op': opid, 'at': 1 + int(reach * rng.random() ** 1.7), 'exc': rng.choice(excs)})


class Raiser(object):
    """User code that fails."""

    def __init__(self, exc):
        self.exc = exc
        self.raised = None

    def __call__(self, *_, **__):
        self.raised = EXCS[self.exc]('user code')
        raise self.raised


def describe(out):
    """An outcome as text."""
    return '%s %s' % (out[0], out[1] if out[0] == 'ok' else '%s: %s' % (type(out[1]).__name__, out[1]))


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def check(cond, kind, detail, *args):
    if not cond:
        raise Violation(kind, detail % args if args else detail)


def expect_error(out, error, kind, what):
    """The outcome must be that error of user code, the very same or one that mentions it as its cause."""
    check(out[0] == 'exc', kind, '%s: user code failed with %r but the call returned %s', what, error,
          short(out[1]) if out[0] == 'ok' else '')


def run_concurrently(sim, threads, perform, canon=None, after=None):
    """Runs the operations of each thread under the schedule; returns the history.

    perform(th, op) -> a callable with no arguments, the operation itself.
    """
    history = []

    def program(ops):
        def body(th):
            for op in ops:
                fn = perform(th, op)
                out, inv, res, fired = sim.op(th, op['id'], fn, canon=canon)
                history.append({'op': op, 'inv': inv, 'res': res, 'out': out, 'fired': fired, 'thread': th.tid,
                                'maybe': fired and out[0] == 'exc'})
                if after is not None:
                    after(op, out, fired)
        return body

    sim.run_threads([program(ops) for ops in threads])
    return history


def tell(history, limit=40):
    """A concurrent history as text."""
    lines = []
    for h in sorted(history, key=lambda h: h['inv'])[:limit]:
        lines.append('[%d..%d] t%d %s -> %s%s' % (
            h['inv'], h['res'], h['thread'],
            short({k: v for k, v in h['op'].items() if k not in ('id', 'seed')}, 160),
            short(h['out'][1], 120) if h['out'][0] == 'ok' else type(h['out'][1]).__name__,
            ' (interrupted)' if h['fired'] else ''))
    return '\n    '.join([''] + lines)


def looks(rng):
    """How often to look at everything during a history: looking can hide (or make) trouble."""
    return [rng.choice((1, 1, .5, .1)), rng.randrange(10 ** 6)]


def look_now(plan, op_id):
    """Whether to look at everything after this operation."""
    p, salt = plan['look']
    return random.Random(salt * 1009 + op_id).random() < p
