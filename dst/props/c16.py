# coding=utf-8
"""C16: describing the calling function gives the parameters of that very call."""
import inspect
import linecache
import os
import sys
import types

from ..core import Violation, _real_ident
from ..runner import Prop
from .common import module_files, maybe_fault, sched, short

# name: (signature, parameters, kind)
ODD = {'self_': 4, 'selfish': 5, 'Self': 6, 'cls2': 7, 'CLS': 8, '__p': 9, 'depth': 10, 'X': 11}
SHAPES = {
    'odd': ('x, y=3' + ''.join(', %s=%d' % kv for kv in sorted(ODD.items())), ['x', 'y'] + sorted(ODD), 'def'),
    'f': ('x, y=3', ['x', 'y'], 'def'),
    'g': ('x, y=3, *rest', ['x', 'y'], 'def'),
    'h': ('x, y=3, **extra', ['x', 'y'], 'def'),
    'full': ('x, y=3, *rest, **extra', ['x', 'y'], 'def'),
    'kwonly': ('x, *, y=3', ['x', 'y'], 'def'),
    'none': ('x=1, y=None', ['x', 'y'], 'def'),
    'method': ('self, x, y=3, **extra', ['x', 'y'], 'method'),
    'clsmethod': ('cls, x, y=3', ['x', 'y'], 'clsmethod'),
    'inner': ('x, y=3', ['x', 'y'], 'closure'),
    'gen': ('x, y=3, **extra', ['x', 'y'], 'gen'),
    'gen2': ('x, y=3', ['x', 'y'], 'gen'),
}
BODY = '''
    me = ENTER()
    z = None
    while me.more():
        if me.kind == 'x':
            x = me.value
        elif me.kind == 'y':
            y = me.value
        elif me.kind == 'z':
            z = me.value
        elif me.kind == 'dict':
            me.got(call_dict(**me.options))
        elif me.kind == 'what':
            me.got(call2what(**me.options))
        elif me.kind == 'default':
            me.got(call_dict())
        elif me.kind == 'defwhat':
            me.got(call2what())
        elif me.kind == 'helper':
            me.got(helper(me))
        elif me.kind == 'helper2':
            me.got(helper2(1, me, z))
        elif me.kind == 'call':
            me.callee()(*me.args, **me.kwargs)
        elif me.kind == 'locals':
            me.verify(x, y, z)
'''
YIELD = '''        elif me.kind == 'yield':
            yield
'''
EXTRA = '''        elif me.kind == 'extra':
            extra[me.key] = me.value
'''
FREE = '''        elif me.kind == 'free':
            free
'''
INSIDE = '''        elif me.kind == 'listcomp':
            me.got([(x, call_dict(depth=2, **me.options))[1] for _ in (0,)][0])
        elif me.kind == 'genexpr':
            me.got(list((x, call2what(depth=2, **me.options))[1] for _ in (0,))[0])
        elif me.kind == 'lambda':
            me.got((lambda: (y, call2what(depth=2, **me.options))[1])())
'''
EXPRESSIONS = ('h', 'gen2', 'kwonly', 'method')     # their parameters are used from inner functions
HELPERS = '''
def helper(me, x='helper', y=0):
    return call_dict(depth=2, **me.options)


def helper2(x, me, z):
    y = helper3(me, x, 4)
    return y


def helper3(me, y, x):
    return call2what(depth=3, **me.options)
'''


def source():
    parts = [HELPERS]
    for name, (signature, _, kind) in sorted(SHAPES.items()):
        body = BODY + (EXTRA if 'extra' in signature else '') + (YIELD if kind == 'gen' else '') + \
            (INSIDE if name in EXPRESSIONS else '')
        if kind in ('def', 'gen'):
            parts.append('def %s(%s):%s' % (name, signature, body))
        elif kind == 'closure':
            code = 'def %s(%s):%s' % (name, signature, body + FREE)
            parts.append('def make_inner(free):\n' + '\n'.join('    ' + line for line in code.splitlines()) +
                         '\n    return inner')
        else:
            code = 'def %s(%s):%s' % (name, signature, body)
            if kind == 'clsmethod':
                code = '@classmethod\n' + code
            parts.append('class Class_%s(object):\n' % name + '\n'.join('    ' + line for line in code.splitlines()))
    return '\n\n\n'.join(parts) + '\n'


FILENAME = '/dst-programs/programs.py'
VALUES = (0, 1, 2, 'a', 'b', None, (1, 2), 3.5, True)


class Activation(object):
    """One call to one of the functions: what it does and what its locals are."""

    def __init__(self, world, spec, parent=None):
        self.world, self.spec, self.parent = world, spec, parent
        self.shape = spec['shape']
        signature, _, kind = SHAPES[self.shape]
        self.state = {'x': spec['x'], 'y': spec['y'], 'z': None}
        if self.shape == 'odd':
            self.state.update(ODD)
        self.rest = tuple(spec['rest']) if '*rest' in signature else None
        self.extra = dict(spec['extra']) if 'extra' in signature else None
        self.steps = list(spec['steps'])
        self.kind = None
        self.other = {}
        if kind == 'closure':
            self.other['free'] = 'free'

    def start(self):
        """The callable and arguments."""
        signature, _, kind = SHAPES[self.shape]
        ns = self.world.ns
        f = ns.get(self.shape)
        if kind == 'method':
            obj = ns['Class_' + self.shape]()
            self.other['self'] = obj
            f = getattr(obj, self.shape)
        elif kind == 'clsmethod':
            self.other['cls'] = ns['Class_' + self.shape]
            f = getattr(ns['Class_' + self.shape], self.shape)
        elif kind == 'closure':
            f = ns['make_inner']('free')
        args, kwargs = [self.spec['x']], {}
        if self.rest:
            args += [self.spec['y']] + list(self.rest)
        elif self.shape == 'kwonly' or self.spec['named']:
            kwargs['y'] = self.spec['y']
        else:
            args.append(self.spec['y'])
        if self.extra is not None:
            kwargs.update(self.extra)
        return f, args, kwargs

    # --- called from the functions

    def more(self):
        if not self.steps:
            return False
        step = self.steps.pop(0)
        self.kind = step['k']
        if self.kind in ('x', 'y', 'z'):
            self.value = self.state[self.kind] = step['v']
        elif self.kind == 'extra':
            self.key, self.value = step['key'], step['v']
            self.extra[self.key] = self.value
        elif self.kind in ('dict', 'helper', 'what', 'helper2', 'default', 'defwhat', 'listcomp', 'genexpr', 'lambda'):
            self.step = step
            self.options = dict(step.get('o', {}))
            self.up = self.options.get('depth') == 2
            described = self.parent if self.up else self
            if described is None:
                self.kind = 'skip'
                return True
            if self.kind in ('listcomp', 'genexpr', 'lambda'):
                self.world.sim.probe('inside-expression')
            if self.kind in ('dict', 'helper', 'default', 'listcomp'):
                self.expected = described.dictionary(self.options)
                if isinstance(self.expected, str):     # it must fail
                    self.kind = 'skip'
            else:
                self.expected = described.what()
            if step.get('once') and 'ignores' in self.options:
                self.options['ignores'] = iter(tuple(self.options['ignores']))     # can be read only once
                self.world.sim.probe('ignores-once')
        elif self.kind == 'call':
            child = Activation(self.world, step['spec'], self)
            f, self.args, self.kwargs = child.start()
            self.world.entering(child)
            if SHAPES[child.shape][2] == 'gen':
                gen = f(*self.args, **self.kwargs)
                child.parent = None
                self.world.abandon()
                self.world.gens.append((child, gen))
                self.args, self.kwargs = (), {}
                f = lambda: None          # noqa
            self._callee = f
        return True

    def callee(self):
        return self._callee

    def dictionary(self, options):
        signature, params, _ = SHAPES[self.shape]
        d = {p: self.state[p] for p in params}
        d.update({k: v for k, v in self.other.items() if k in ('self', 'cls')})
        if self.rest and not options.get('ignore_varargs', False):
            return 'ValueError'
        for k in options.get('ignores', ('cls', 'self')):
            d.pop(k, None)
        if self.extra is not None:
            d.update(self.extra)
        d.update(options.get('overrides') or {})
        d.update({k: v for k, v in options.items() if k not in (
            'depth', 'ignores', 'ignore_varargs', 'overrides')})
        return d

    def what(self):
        d = dict(self.state, me=self, **self.other)
        if self.rest is not None:
            d['rest'] = self.rest
        if self.extra is not None:
            d['extra'] = dict(self.extra)
        return self.shape, d

    def got(self, result):
        self.world.got(self, self.step, self.expected, result)
        if self.step.get('spoil'):
            conf = result if isinstance(result, dict) else result.conf
            for k in list(conf):
                conf[k] = 'spoilt'
            conf['other'] = 1

    def verify(self, x, y, z):
        if (x, y, z) != (self.state['x'], self.state['y'], self.state['z']):
            raise Violation('locals', '%s: the locals are now %r instead of %r' % (
                self.shape, (x, y, z), self.state))


class World(object):
    def __init__(self, sim):
        from whatami import call_dict, call2what
        self.sim = sim
        self.ns = {'__name__': 'dst_programs', 'call_dict': call_dict, 'call2what': call2what, 'ENTER': self.enter}
        exec(CODE[0], self.ns)
        self.pending = {}
        self.gens = []
        self.results = []

    def entering(self, activation):
        self.pending[_real_ident()] = activation

    def enter(self):
        return self.pending.pop(_real_ident())

    def abandon(self):
        self.pending.pop(_real_ident(), None)

    def got(self, activation, step, expected, result):
        self.check(activation, step, expected, result, 'result')
        if not step.get('spoil'):
            self.results.append((activation, step, expected, result))
        self.sim.probe('up' if activation.up else 'described')
        self.sim.event('got', activation.shape)
        depth = 0
        a = activation
        while a.parent is not None:
            depth += a.parent.shape == activation.shape
            a = a.parent
        if depth:
            self.sim.probe('recursive')

    @staticmethod
    def check(activation, step, expected, result, kind):
        if type(expected) is dict:
            if type(result) is not dict or list(sorted(result)) != list(sorted(expected)) or any(
                    result[k] is not expected[k] and result[k] != expected[k] for k in expected):
                raise Violation(kind, '%s in %s must be %s, but it is %s' % (
                    {k: v for k, v in step.items()}, activation.shape, short(expected), short(result)))
            return
        name, conf = expected
        nonid = set(step.get('o', {}).get('non_id_keys') or ())
        if result.name != name or set(result.conf) != set(conf) or any(
                result.conf[k] is not conf[k] and result.conf[k] != conf[k] for k in conf) or \
                set(result.non_id_keys) != nonid:
            raise Violation(kind, '%s in %s must be %s, but it is %s with %s (non id %s)' % (
                step, activation.shape, short(expected), result.name, short(result.conf), result.non_id_keys))

    def final(self):
        for activation, step, expected, result in self.results:
            if type(expected) is tuple and 'extra' in expected[1]:
                # the snapshot is not deep
                expected[1]['extra'] = result.conf['extra']
            self.check(activation, step, expected, result, 'snapshot')


CODE = []


class C16(Prop):
    ID = 'C16'
    RUNS = {'quick': 3200, 'thorough': 80000}
    RULE = 'Each run is 1-4 threads with up to 8 top calls or resumptions of shared generators, under a random or PCT ' \
           'schedule with switches at any line of the functions and of the library. The functions (of 11 shapes: ' \
           'varargs, keyword arguments, keyword only, methods, class methods, closures, generators) change their ' \
           'locals, call each other and themselves, and describe themselves or their callers, directly or through ' \
           'helpers, at any moment; results are checked at once and again at the end. Some calls are interrupted.'
    REAL = ('whatami.misc.call_dict', 'whatami.whatutils.call2what', 'whatami.what', 'inspect')
    STUB = ('thread scheduler', 'interrupts', 'user functions')
    NEED_PROBES = ('described', 'up', 'recursive', 'resumed', 'elsewhere', 'spoilt', 'interrupted', 'varargs-refused',
                   'ignores-once', 'inside-expression')

    def prepare(self):
        import whatami.whatutils  # noqa
        text = source()
        CODE.append(compile(text, FILENAME, 'exec'))
        lines = text.splitlines(True)
        linecache.cache[FILENAME] = (len(text), None, lines, FILENAME)
        # so inspect finds the module of the functions, instead of looking for it each time among all the modules
        sys.modules['dst_programs'] = types.ModuleType('dst_programs')
        sys.modules['dst_programs'].__file__ = FILENAME
        inspect.modulesbyfile[FILENAME] = 'dst_programs'

    def make_plan(self, rng, index, tier):
        faults = []
        pfault = rng.choice((0, 0, .12))
        shapes = rng.sample(sorted(SHAPES), rng.choice((1, 2, 3, len(SHAPES))))
        budget = [0]

        def options(what):
            o = {}
            if what:
                if rng.random() < .5:
                    o['non_id_keys'] = rng.sample(('x', 'y', 'z', 'me', 'self'), rng.randrange(4))
                return o
            if rng.random() < .3:
                o['ignores'] = rng.choice(((), ('x',), ('self', 'cls', 'y'), ('nothing',), ('self', 'cls')))
            if rng.random() < .6:
                o['ignore_varargs'] = rng.random() < .7
            if rng.random() < .2:
                o['overrides'] = {rng.choice(('x', 'y', 'w', 'depth')): rng.choice(VALUES)}
            if rng.random() < .2:
                o[rng.choice(('x', 'y', 'w'))] = rng.choice(VALUES)
            return o

        def activation(depth, shape=None):
            budget[0] += 1
            shape = shape or rng.choice(shapes)
            signature, _, kind = SHAPES[shape]
            steps = []
            for _ in range(rng.randrange(1, 6)):
                r = rng.random()
                if r < .25:
                    steps.append({'k': rng.choice('xyz'), 'v': rng.choice(VALUES)})
                elif r < .3 and 'extra' in signature:
                    steps.append({'k': 'extra', 'key': rng.choice('pqr'), 'v': rng.choice(VALUES)})
                elif r < .45:
                    steps.append({'k': 'dict', 'o': options(False), 'spoil': rng.random() < .3,
                                  'once': rng.random() < .3})
                elif r < .6:
                    steps.append({'k': 'what', 'o': options(True), 'spoil': rng.random() < .3})
                elif r < .64:
                    steps.append({'k': rng.choice(('default', 'defwhat'))})
                elif r < .74:
                    k = rng.choice(('dict', 'what'))
                    steps.append({'k': k, 'o': dict(options(k == 'what'), depth=2), 'spoil': rng.random() < .3})
                elif r < .82:
                    k = rng.choice(('helper', 'helper2') if shape not in EXPRESSIONS or rng.random() < .5 else
                                   ('listcomp', 'genexpr', 'lambda'))
                    steps.append({'k': k, 'o': options(k not in ('helper', 'listcomp')), 'spoil': rng.random() < .2})
                elif r < .87:
                    steps.append({'k': 'locals'})
                elif r < .92 and kind == 'gen':
                    steps.append({'k': 'yield'})
                elif depth < 4 and budget[0] < 14:
                    steps.append({'k': 'call', 'spec': activation(
                        depth + 1, shape if rng.random() < .5 else None)})
            return {'shape': shape, 'x': rng.choice(VALUES), 'y': rng.choice(VALUES), 'steps': steps,
                    'rest': [rng.choice(VALUES) for _ in range(rng.choice((0, 0, 1, 2)))],
                    'extra': [[k, rng.choice(VALUES)] for k in rng.sample('pq', rng.randrange(3))],
                    'named': rng.random() < .5}

        def op(i):
            maybe_fault(rng, faults, i, pfault, 60)
            if rng.random() < .3:
                return {'id': i, 'do': 'resume', 'gen': rng.randrange(3)}
            return {'id': i, 'do': 'call', 'spec': activation(0)}
        n = rng.choice((1, 2, 2, 3, 4))
        threads, i = [], 0
        for _ in range(n):
            ops = []
            for _ in range(rng.randrange(1, 2 + 7 // n)):
                ops.append(op(i))
                i += 1
            threads.append(ops)
        return {'threads': threads, 'faults': faults, 'sched': sched(rng, 250),
                'gran': 'opcode' if rng.random() < .15 else 'line'}

    def execute(self, plan, make_sim):
        sim = make_sim(faults=plan['faults'], files=module_files('misc.py', 'whatutils.py') + (FILENAME,),
                       sched=plan['sched'], gran=plan['gran'])
        world = World(sim)
        busy = set()
        where = {}

        def call(op):
            a = Activation(world, op['spec'])
            f, args, kwargs = a.start()

            def fn():
                world.entering(a)
                r = f(*args, **kwargs)
                if isinstance(r, types.GeneratorType):
                    world.abandon()
                    world.gens.append((a, r))
            return fn

        def resume(op, th):
            def fn():
                if op['gen'] >= len(world.gens):
                    return None
                a, g = world.gens[op['gen']]
                if id(g) in busy:
                    return None
                busy.add(id(g))
                try:
                    world.entering(a)
                    if where.setdefault(id(g), th.tid) != th.tid:
                        sim.probe('elsewhere')
                    try:
                        next(g)
                        sim.probe('resumed')
                    except StopIteration:
                        pass
                finally:
                    world.abandon()
                    busy.discard(id(g))
            return fn

        failures = []

        def program(ops):
            def body(th):
                for op in ops:
                    fn = call(op) if op['do'] == 'call' else resume(op, th)
                    out, _, _, fired = sim.op(th, op['id'], fn, canon=lambda v: None)
                    world.abandon()
                    if out[0] == 'exc':
                        if not fired:
                            failures.append((op, out[1]))
                        else:
                            sim.probe('interrupted')
            return body

        sim.run_threads([program(ops) for ops in plan['threads']])
        for op, e in failures:
            raise Violation('error', 'in %s: %s: %s' % (short(op, 600), type(e).__name__, e))
        world.final()
        self.varargs(sim, world, plan)
        if any('spoil' in str(t) for t in plan['threads']):
            sim.probe('spoilt')

    @staticmethod
    def varargs(sim, world, plan):
        """Unnamed arguments are refused unless ignored."""
        from whatami import call_dict

        def f(x, *rest):
            return call_dict()
        for rest in ((), (1,)):
            try:
                got = f(0, *rest)
            except ValueError:
                if not rest:
                    raise Violation('varargs', 'refused without varargs')
                sim.probe('varargs-refused')
            else:
                if rest:
                    raise Violation('varargs', 'varargs were not refused')
                if got != {'x': 0}:
                    raise Violation('varargs', 'the call is %r' % got)

    def shrink_lists(self, plan):
        paths = super(C16, self).shrink_lists(plan)

        def inside(path, spec):
            paths.append(path + ('steps',))
            for i, s in enumerate(spec['steps']):
                if s['k'] == 'call':
                    inside(path + ('steps', i, 'spec'), s['spec'])
        if 'group' not in plan:
            for t, ops in enumerate(plan['threads']):
                for i, op in enumerate(ops):
                    if op['do'] == 'call':
                        inside(('threads', t, i, 'spec'), op['spec'])
        return paths


PROP = C16()
