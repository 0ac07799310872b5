# coding=utf-8
"""C14: experiment information records what was asked, when and where it was asked."""
import linecache
import os
import sys
import time

from .. import core, gen
from ..core import Violation, EXCS, rng_for
from ..runner import Prop
from .common import module_files, maybe_fault, sched, run_concurrently, short, USER_ERRORS

KEYS = ['title', 'data_setup', 'model_setup', 'eval_setup', 'fsource', 'date', 'idate', 'host', 'comments']
ZONES = ('UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'IST-5:30', 'NZST-12NZDT,M9.5.0,M4.1.0/3',
         'AAA11')
HOSTS = ('alpha', 'beta', 'node-17.cluster', 'localhost', '')
EPOCHS = (0, 951782399, 1078012799, 1143333000, 1194153000, 1331996400, 1467331199, 1483228799, 1582934399, 1700000000,
          2147483640, 4102444799)
FORMAT = '%Y-%m-%d %H:%M:%S'


class Host(object):
    """The simulated clock and host name. Remembers all the values they have had."""

    def __init__(self, plan, here):
        self.times = [plan['epoch']]
        self.hosts = [plan['host']]
        self.rng = rng_for('ticks', plan['ticks'])
        self.tick = plan['tick']
        self.fails = None       # exception to raise when asked for the host name
        self.here = here
        self.reads = 0

    def time(self):
        self.reads += 1
        self.here()
        t = self.times[-1]
        if self.tick:
            self.advance(self.rng.random() * self.tick)
        return t

    def advance(self, secs):
        t = self.times[-1] + secs
        # outside of these, dates cannot be shown in all the time zones
        self.times.append(min(max(t, 90000.), 7000000000.))

    def hostname(self):
        self.here()
        if self.fails is not None:
            raise self.fails
        return self.hosts[-1]


class Setup(object):
    """Things that can describe data, models..."""

    def __init__(self, here, whatid, exc):
        self.here, self.whatid, self.exc = here, whatid, exc

    def describe(self):
        self.here()
        if self.exc is not None:
            raise self.exc
        return self.whatid


class WithWhat(Setup):
    def what(self):
        return WithId(self.here, self.describe(), None)


class WithId(Setup):
    def id(self):
        return self.describe()


class C14(Prop):
    ID = 'C14'
    RUNS = {'quick': 6000, 'thorough': 150000}
    RULE = 'Half of the runs are histories of 2-10 calls in one thread, half are 2-4 threads with up to 8 calls, ' \
           'under a random or PCT schedule, on a simulated host: the clock ticks at each read and jumps (also ' \
           'backwards, over changes of daylight saving time, in 6 time zones), the host is renamed, and the time ' \
           'source, host name lookup, source lookup and setups can fail; the time source can make a call itself. ' \
           'Some calls are interrupted.'
    REAL = ('whatami.misc.mlexp_info_helper', 'whatami.whatutils', 'whatami.what', 'datetime', 'inspect')
    STUB = ('clock', 'host name', 'time source', 'source files (in linecache)', 'thread scheduler', 'interrupts')
    NEED_PROBES = ('right', 'user-error', 'concurrent', 'jump', 'renamed', 'nested', 'source', 'no-source',
                   'host-failed', 'itime-failed', 'setup-failed', 'interrupted')

    def prepare(self):
        import whatami.whatutils  # noqa
        import datetime           # noqa
        from whatami import mlexp_info_helper
        mlexp_info_helper('warm up')

    def make_plan(self, rng, index, tier):
        faults = []
        pfault = rng.choice((0, 0, .15))
        pfail = rng.choice((0, .1, .4))

        def setup(depth):
            r = rng.random()
            fails = rng.choice(USER_ERRORS) if rng.random() < pfail * .6 else None
            if r < .3:
                return ['none']
            if r < .5:
                return ['text', rng.choice(('', 'data', 'rfc(n=1)', "it's"))]
            if r < .7:
                return ['what', gen.what(rng, 2, kinds=gen.PLAIN + ('what',))]
            if r < .85:
                return ['withwhat', 'w(x=%d)' % rng.randrange(9), fails]
            return ['withid', 'i(x=%d)' % rng.randrange(9), fails]

        def source():
            r = rng.random()
            if r < .5:
                return None
            if r < .5 + pfail * .3:
                return ['lost']
            if r < .5 + pfail * .4:
                return ['builtin']
            return ['code', rng.randrange(3)]

        def clock(depth):
            r = rng.random()
            if r < .4:
                return None
            if r < .4 + pfail * .5:
                return ['fails', rng.choice(USER_ERRORS)]
            if r < .85 or depth:
                return ['value', rng.choice(('2001-01-01', '', 0, None, 'drift'))]
            return ['nested', call(depth + 1)]

        def call(depth=0):
            return {'title': rng.choice(('t', '', 'Experiment 1', None)), 'data': setup(depth), 'model': setup(depth),
                    'eval': setup(depth), 'source': source(), 'comments': rng.choice((None, 'none', 'x', '')),
                    'itime': clock(depth), 'named': rng.random() < .6}

        def op(i):
            o = {'id': i}
            r = rng.random()
            if r < .7:
                o.update(do='info', call=call(), spoil=rng.random() < .3)
            elif r < .85:
                o.update(do='jump', secs=rng.choice((1, -1, 3600, -3600, 86400, -86400 * 30, 3599.9, 86400 * 183, .4)))
            elif r < .93 or not pfail:
                o.update(do='rename', host=rng.choice(HOSTS))
            else:
                o.update(do='hostfails', exc=rng.choice((None, 'OSError', 'OSError', 'ValueError', 'UnicodeError')))
            maybe_fault(rng, faults, i, pfault, 60)
            return o
        plan = {'faults': faults, 'epoch': rng.choice(EPOCHS) + rng.choice((0, 0, .5, -2, 3600)) + 90000.,
                'zone': rng.choice(ZONES),
                'host': rng.choice(HOSTS), 'tick': rng.choice((0, 0, .3, 2, 4000)), 'ticks': rng.randrange(1 << 30)}
        if rng.random() < .5:
            plan['ops'] = [op(i) for i in range(rng.randrange(2, 11))]
            return plan
        n = rng.choice((2, 2, 3, 4))
        threads, i = [], 0
        for _ in range(n):
            ops = []
            for _ in range(rng.randrange(1, 2 + 7 // n)):
                ops.append(op(i))
                i += 1
            threads.append(ops)
        plan.update(threads=threads, sched=sched(rng, 200), gran='opcode' if rng.random() < .15 else 'line')
        return plan

    # --- execution

    def execute(self, plan, make_sim):
        sim = make_sim(faults=plan['faults'], files=module_files('misc.py', 'whatutils.py', 'what.py'),
                       sched=plan.get('sched'), gran=plan.get('gran', 'line'))
        os.environ['TZ'] = plan['zone']
        time.tzset()
        env = Host(plan, sim.here)
        functions = [self.function(i) for i in range(3)]
        core.set_env(env)
        try:
            if 'ops' in plan:
                th = sim.enter()
                for op in plan['ops']:
                    out, _, _, fired = sim.op(th, op['id'], self.perform(sim, env, functions, op), canon=self.canon)
                    self.verify(sim, op, out, fired)
                sim.leave()
                if len(plan['ops']) > 3:
                    sim.probe('nontrivial')
            else:
                history = run_concurrently(
                    sim, plan['threads'], lambda th, op: self.perform(sim, env, functions, op), canon=self.canon)
                for h in history:
                    self.verify(sim, h['op'], h['out'], h['fired'])
                sim.probe('concurrent')
        finally:
            core.set_env(None)
            for f in functions:
                linecache.cache.pop(f.__code__.co_filename, None)
            os.environ['TZ'] = 'UTC0'
            time.tzset()

    @staticmethod
    def canon(v):
        return list(map(str, v.values())) if hasattr(v, 'values') else None

    @staticmethod
    def function(i, lost=False):
        lines = ['# experiment %d\n' % i] * (i + 1) + ['def experiment%d(x=%d):\n' % (i, i), '    y = x + %d\n' % i,
                                                       '    return y\n']
        filename = '<dst-%s-%d>' % ('lost' if lost else 'source', i)
        if not lost:
            linecache.cache[filename] = (1, None, lines, filename)
        ns = {'__name__': 'dst_experiments'}
        exec(compile(''.join(lines), filename, 'exec'), ns)
        f = ns['experiment%d' % i]
        f.expected = (lines[i + 1:], i + 2)
        return f

    def perform(self, sim, env, functions, op):
        do = op['do']
        if do == 'jump':
            return lambda: env.advance(op['secs'])
        if do == 'rename':
            return lambda: env.hosts.append(op['host'])
        if do == 'hostfails':
            def change():
                env.fails = None if op['exc'] is None else EXCS[op['exc']]('no host name')
            return change

        def fn():
            return self.info(sim, env, functions, op['call'], op)
        return fn

    def info(self, sim, env, functions, call, op):
        """Makes a call, remembering what it must return in op['expected']."""
        from whatami import mlexp_info_helper
        expected = {'errors': [], 'nested': None, 'hosts': None, 'times': None}
        op['expected'] = expected

        def setup(spec):
            kind = spec[0]
            if kind == 'none':
                return None, None
            if kind == 'text':
                return spec[1], spec[1]
            if kind == 'what':
                return gen.build(spec[1]), gen.ref(spec[1])
            exc = None
            if spec[2] is not None:
                exc = EXCS[spec[2]]('setup')
                expected['errors'].append(exc)
            return {'withwhat': WithWhat, 'withid': WithId}[kind](sim.here, spec[1], exc), spec[1]
        data, data_id = setup(call['data'])
        model, model_id = setup(call['model'])
        evals, evals_id = setup(call['eval'])
        f, fsource = None, None
        if call['source'] is not None:
            kind = call['source'][0]
            if kind == 'code':
                f = functions[call['source'][1]]
                fsource = f.expected
            elif kind == 'lost':
                f = self.function(0, lost=True)
                expected['errors'].append(OSError)
            else:
                f = sorted
                expected['errors'].append(TypeError)
        itime, idate = None, [None]
        if call['itime'] is not None:
            kind, value = call['itime']
            if kind == 'fails':
                exc = EXCS[value]('time source')
                expected['errors'].append(exc)

                def itime():
                    sim.here()
                    raise exc
            elif kind == 'value':
                def itime():
                    sim.here()
                    idate[0] = 'at %r' % env.times[-1] if value == 'drift' else value
                    return idate[0]
            else:
                nested = expected['nested'] = {'call': value, 'id': op['id']}

                def itime():
                    sim.here()
                    try:
                        idate[0] = self.info(sim, env, functions, value, nested)
                    except BaseException as e:
                        nested['out'] = ('exc', e)
                        expected['errors'].append(e)
                        raise
                    nested['out'] = ('ok', idate[0])
                    return idate[0]
        expected['info'] = [call['title'], data_id, model_id, evals_id, fsource, None, idate, None, call['comments']]
        t0, h0 = len(env.times) - 1, len(env.hosts) - 1
        fails = [env.fails]
        try:
            if call['named']:
                return mlexp_info_helper(title=call['title'], data_setup=data, model_setup=model, eval_setup=evals,
                                         exp_function=f, comments=call['comments'], itime=itime)
            return mlexp_info_helper(call['title'], data, model, evals, f, call['comments'], itime)
        except BaseException as e:
            # only the simulated host raises these
            if e.args == ('no host name',):
                fails.append(e)
            raise
        finally:
            expected['times'] = env.times[t0:]
            expected['hosts'] = env.hosts[h0:]
            fails.append(env.fails)
            if any(x is not None for x in fails):
                expected['errors'].append('host')
            expected['hostfails'] = fails

    def verify(self, sim, op, out, fired):
        if 'expected' not in op:
            if op['do'] in ('jump', 'rename'):
                sim.probe('jump' if op['do'] == 'jump' else 'renamed')
            return
        expected = op.pop('expected')
        call = op['call']
        if expected['nested'] is not None and 'out' in expected['nested']:
            sim.probe('nested')
            nested = dict(expected['nested'])
            self.verify(sim, nested, nested['out'], fired and nested['out'][0] == 'exc')
        if out[0] == 'exc':
            e = out[1]
            if fired and type(e).__name__ in ('KeyboardInterrupt', 'MemoryError', 'SystemExit', 'RecursionError'):
                sim.probe('interrupted')
                return
            for x in expected['errors']:
                if x is e or (isinstance(x, type) and type(e) is x):
                    sim.probe('user-error')
                    sim.probe('no-source' if isinstance(x, type) else
                              'setup-failed' if e.args == ('setup',) else 'itime-failed')
                    return
                if x == 'host' and e.args == ('no host name',):
                    sim.probe('host-failed')
                    return
            raise Violation('error', '%s raised %s: %s, that does not come from its arguments' % (
                short(call, 600), type(e).__name__, e))
        if fired:
            raise Violation('hidden', '%s was interrupted but it returned' % short(call, 600))
        sure = [e for e in expected['errors'] if not isinstance(e, str)]
        if all(x is not None for x in expected['hostfails']):
            sure.append('host') if len(expected['hosts']) == 1 and len({id(x) for x in expected['hostfails']}) == 1 \
                else None
        if sure:
            raise Violation('hidden', '%s must fail because of %s, but it returned %s' % (
                short(call, 600), sure, short(dict(out[1]))))
        info = out[1]
        if list(info) != KEYS:
            raise Violation('keys', '%s returned the keys %s' % (short(call, 600), list(info)))
        want = expected['info']
        for key, value in zip(KEYS, want):
            got = info[key]
            if key == 'date':
                texts = {time.strftime(FORMAT, time.localtime(t)) for t in expected['times']}
                if got not in texts:
                    raise Violation('date', '%s returned date %r, but it was called at %s' % (
                        short(call, 600), got, sorted(texts)[:10]))
            elif key == 'host':
                if got not in expected['hosts']:
                    raise Violation('host', '%s returned host %r, but it was called in %r' % (
                        short(call, 600), got, expected['hosts']))
            elif key == 'idate':
                if got is not value[0] and got != value[0]:
                    raise Violation('idate', '%s returned idate %r instead of %r' % (
                        short(call, 600), got, value[0]))
            elif key == 'fsource' and value is not None:
                sim.probe('source')
                if tuple(got) != value:
                    raise Violation('fsource', '%s returned fsource %r instead of %r' % (
                        short(call, 600), got, value))
            elif got != value or type(got) is not type(value):
                raise Violation(key, '%s returned %s %r instead of %r' % (short(call, 600), key, got, value))
        sim.probe('right')
        if op.get('spoil'):
            for key in KEYS:
                info[key] = 'spoilt'
            info['another'] = 'spoilt'


PROP = C14()
