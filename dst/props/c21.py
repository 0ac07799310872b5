# coding=utf-8
"""C21: partials and curried functions are described with the parameters that a call would use."""
import functools
import inspect

from .. import gen
from ..core import EXCS, HarnessError, Violation, rng_for
from ..runner import Prop
from .common import USER_ERRORS, module_files, maybe_fault, run_concurrently, sched, short

# name, parameters (those from the first with True have a default), extra text of the signature, how it is defined
SHAPES = (
    ('one', (('a', False),), '', 'def'),
    ('two', (('a', False), ('b', False)), '', 'def'),
    ('three', (('a', False), ('b', False), ('c', True)), '', 'def'),
    ('four', (('d', False), ('c', True), ('b', True), ('a', True)), '', 'def'),
    ('defaults', (('a', True), ('b', True)), '', 'def'),
    ('none', (), '', 'def'),
    ('lambda', (('a', False), ('b', True)), '', 'lambda'),
    ('closure', (('b', False), ('a', True)), '', 'closure'),
    ('over', (('a', False), ('b', True)), '', 'over'),
    ('itself', (('a', False), ('b', True)), '', 'itself'),
    ('rest', (('a', False), ('b', True)), '*rest, **more', 'def'),
)
PARAMS = ('a', 'b', 'c', 'd')


class P(functools.partial):
    """A class of partials."""


class Boom(object):
    """Its what() fails."""

    def __init__(self, exc):
        self.exc = exc

    def what(self):
        raise EXCS[self.exc]('user code')


class Unbound(Exception):
    """A call would be refused."""


class Unspecified(Exception):
    """Parameters that do not have a name of their own."""


class Fails(Exception):
    """A what() fails."""


def define(shape, defaults):
    name, params, extra, how = SHAPES[shape]
    scope = {'hidden': object(), 'other': lambda q, r=5: (q, r)}
    for (k, has), v in zip([p for p in params if p[1]], defaults):
        scope['_d_' + k] = v
    text = ', '.join([k + ('=_d_' + k if has else '') for k, has in params] + ([extra] if extra else []))
    if how == 'lambda':
        exec('made = lambda %s: a' % text, scope)
    elif how == 'closure':
        exec('def make(cell):\n    def closure(%s):\n        return cell\n    return closure\nmade = make(hidden)' % text,
             scope)
    elif how == 'itself':
        exec('def make():\n    def itself(%s):\n        return a and itself(a - 1, b)\n    return itself\nmade = make()' % text,
             scope)
    elif how == 'over':
        exec('def make(cell):\n    def over(%s):\n        return cell(a, b)\n    return over\nmade = make(other)' % text,
             scope)
    else:
        exec('def %s(%s):\n    return ()' % (name, text), scope)
    return scope['made'] if how != 'def' else scope[name]


class Node(object):
    def __init__(self, real, owner, private):
        self.real, self.owner, self.private = real, owner, private


class C21(Prop):
    ID = 'C21'
    LOOKALIKES = {'b': 'A', 'c': 'cc', 'd': 'aa'}, {'a': 'func', 'b': 'args', 'c': 'keywords', 'd': 'name'}
    RUNS = {'quick': 4000, 'thorough': 100000}
    RULE = 'Half of the runs are histories of 4-24 operations in one thread; the others, 2-3 threads with up to 9 ' \
           'operations each under a random or PCT schedule: deriving partials, partials of a class of partials, ' \
           'curried and whatable functions from each other, by position and by name, giving more arguments to ' \
           'curried functions, calling them, changing the defaults of functions, the keywords of partials and ' \
           'the values given, and describing them in seven ways, also when the arguments do not fit or the what() ' \
           'of a value fails. Some operations are interrupted.'
    REAL = ('whatami.misc (callable2call, curry2partial)', 'whatami.plugins', 'whatami.what', 'whatami.whatutils',
            'toolz.curry')
    STUB = ('thread scheduler', 'interrupts', 'user functions and values')
    NEED_PROBES = ('right', 'refused', 'failed', 'curry-in-partial', 'whatable-in-partial', 'over-default', 'changed',
                   'interrupted', 'concurrent', 'deep', 'nested', 'curried', 'snapshot', 'called',
                   'in-place')
    ASSUMPTIONS = ('arguments that take no named parameter (*args, **kwargs) and functions without a known '
                   'signature are not described, see DESIGN.md',)

    def prepare(self):
        from toolz import curry
        from whatami import What, whatable
        import whatami.whatutils     # noqa
        What('w', {'v': functools.partial(whatable(lambda x=1: x)), 'c': curry(lambda x, y: x)(1)}).id()

    # --- Plans

    def val(self, rng):
        r = rng.random()
        if r < .15:
            return ['cell']
        if r < .3:
            return ['node', rng.randrange(50)]
        if r < .33:
            return ['boom', rng.choice(USER_ERRORS)]
        return gen.value(rng, rng.choice((0, 0, 1, 2)), kinds=gen.PLAIN + ('what', 'W'))

    def make_plan(self, rng, index, tier):
        faults, n = [], 0
        alone = rng.random() < .5
        pfault = rng.choice((0, 0, .15, .4))
        threads = []
        for _ in range(1 if alone else rng.choice((2, 2, 3))):
            ops = []
            for _ in range(rng.randrange(4, 25) if alone else rng.randrange(1, 10)):
                op = {'id': n, 'seed': rng.randrange(1 << 30), 'on': rng.choice((-1, -1, -1, -2, -3)) if rng.random() < .5
                      else rng.randrange(30)}
                n += 1
                r = rng.random()
                if r < .38:
                    op.update(do='derive', how=rng.choice(('partial', 'partial', 'partial', 'P', 'curry', 'curry',
                                                           'whatable', 'more', 'inplace')),
                              args=[self.val(rng) for _ in range(rng.choice((0, 1, 1, 1, 2, 3)))],
                              kwargs=[[k, self.val(rng)] for k in rng.sample(PARAMS, rng.choice((0, 0, 1, 1, 2)))])
                elif r < .43:
                    op.update(do='new', shape=rng.randrange(len(SHAPES)), vals=[self.val(rng) for _ in range(3)])
                elif r < .83:
                    op.update(do='describe', how=rng.choice('VVLNOWCI'))
                    maybe_fault(rng, faults, op['id'], pfault, 120)
                elif r < .88:
                    op.update(do='call', nargs=rng.randrange(3), kwargs=rng.sample(PARAMS, rng.randrange(2)))
                else:
                    op.update(do=rng.choice(('defaults', 'keywords', 'cell')), vals=[self.val(rng) for _ in range(3)],
                              key=rng.choice(PARAMS))
                ops.append(op)
            threads.append(ops)
        return {'threads': threads, 'faults': faults, 'alone': alone,
                'shapes': [rng.randrange(len(SHAPES)) for _ in range(3)],
                'vals': [[self.val(rng) for _ in range(3)] for _ in range(3)],
                'sched': {'kind': 'none'} if alone else sched(rng, nsteps=600)}

    # --- The values

    def make(self, spec, th):
        """(real value, is it private?)"""
        private = False
        if spec[0] == 'cell':
            real = self.cells[th][0]
            private = True
        elif spec[0] == 'node':
            nodes = self.visible(th)
            node = nodes[spec[1] % len(nodes)]
            real, private = node.real, node.private
        elif spec[0] == 'boom':
            real = Boom(spec[1])
        else:
            real = gen.build(spec)
        self.values[id(real)] = real, spec
        return real, private

    def render(self, real):
        """The id of a value."""
        for cell, specs in self.cells.values():
            if real is cell:
                return '[' + ','.join(gen.ref(s) for s in specs) + ']'
        if isinstance(real, Boom):
            raise Fails(real.exc)
        if callable(real) and (isinstance(real, functools.partial) or inspect.isfunction(real) or self.is_curry(real)):
            return self.expected(real, 'N')
        if id(real) not in self.values:
            raise HarnessError('unknown value %r' % (real,))
        return gen.ref(self.values[id(real)][1])

    @staticmethod
    def is_curry(real):
        from toolz import curry
        return isinstance(real, curry)

    def walk(self, real, depth=0):
        """The innermost function, and the arguments given to it so far."""
        if isinstance(real, functools.partial) or self.is_curry(real):
            f, args, kwargs = self.walk(real.func, depth + 1)
            kwargs = dict(kwargs)
            kwargs.update(real.keywords or {})
            return f, args + tuple(real.args), kwargs
        if id(real) in self.wrapped:
            return self.walk(self.wrapped[id(real)][1], depth + 1)
        return real, (), {}

    def parameters(self, real):
        """name, {parameter: value} of a call to this."""
        f, args, kwargs = self.walk(real)
        if not inspect.isfunction(f):
            raise HarnessError('%r is not a function' % (f,))
        name = 'lambda' if f.__name__ == '<lambda>' else f.__name__
        signature = inspect.signature(f)
        try:
            bound = signature.bind_partial(*args, **kwargs)
        except TypeError:
            raise Unbound()
        got = dict(bound.arguments)
        if got.pop('rest', None) or got.pop('more', None):
            raise Unspecified()
        for k, p in signature.parameters.items():
            if p.default is not p.empty:
                if k in got and k not in kwargs:
                    self.sim.probe('over-default')
                got.setdefault(k, p.default)
        return name, got

    def expected(self, real, how):
        if id(real) in self.inplace and how not in 'WC':
            name, got = self.inplace[id(real)][1]
        elif id(real) in self.wrapped and how not in 'WC':
            self.sim.probe('snapshot')
            name, got = self.wrapped[id(real)][2]
        else:
            name, got = self.parameters(real)
        if how == 'C':
            return name, got
        text = {k: self.render(v) for k, v in sorted(got.items())}
        return '%s(%s)' % (name, ','.join('%s=%s' % kv for kv in sorted(text.items())))

    # --- Running

    def visible(self, th):
        return [n for n in self.nodes if n.owner in (None, th)]

    def add(self, real, owner, private):
        if len(self.nodes) < 60:
            self.nodes.append(Node(real, owner, private))
        self.values[id(real)] = real, None

    def execute(self, plan, make_sim):
        sim = self.sim = make_sim(sched=plan['sched'], faults=plan['faults'], files=module_files())
        self.nodes, self.values, self.wrapped, self.inplace = [], {}, {}, {}
        self.cells = {t: ([], []) for t in range(len(plan['threads']))}
        self.pending = {}
        for shape, vals in zip(plan['shapes'], plan['vals']):
            vals = [['int', 3] if v[0] in ('cell', 'node', 'boom') else v for v in vals]
            self.add(define(shape, [self.make(v, 0)[0] for v in vals]), None, False)
        # with these several threads play at once
        self.base = len(self.nodes)
        self.derived(self.nodes[0].real, 'partial', (), {}, None, False)
        run_concurrently(sim, plan['threads'], self.perform, canon=lambda v: v if isinstance(v, str) else None,
                         after=self.after)
        from whatami import What
        for node in self.nodes:
            try:
                out = 'ok', What('w', {'v': node.real}).id()
            except Exception as e:
                out = 'exc', e
            self.judge('V', out, False, node, self.told(node.real, 'V'))
        if len(plan['threads']) > 1:
            sim.probe('concurrent')
        sim.probe('nontrivial')

    def told(self, real, how):
        """What a description must give."""
        try:
            return 'ok', self.expected(real, how)
        except Unbound:
            return 'refused', None
        except Unspecified:
            return 'whatever', None
        except Fails as e:
            return 'fails', e.args[0]

    def derived(self, real, how, args, kwargs, owner, private):
        from toolz import curry
        from whatami import whatable
        if how in ('partial', 'P', 'curry'):
            if how == 'curry':
                new = curry(real, *args, **kwargs)
                self.sim.probe('curried')
            else:
                new = (functools.partial if how == 'partial' else P)(real, *args, **kwargs)
                if self.is_curry(new.func):
                    self.sim.probe('curry-in-partial')
                if id(new.func) in self.wrapped:
                    self.sim.probe('whatable-in-partial')
        elif how == 'more':
            if not self.is_curry(real):
                return
            new = real.bind(*args, **kwargs) if hasattr(real, 'bind') else curry(real, *args, **kwargs)
        elif how == 'inplace':
            if not inspect.isfunction(real) or id(real) in self.wrapped or not any(
                    n.real is real and n.owner == owner for n in self.nodes):
                return
            told = self.expected(real, 'C')
            if whatable(real, modify_func_inplace=True) is not real:
                raise Violation('copy', 'whatable did not decorate the function in place')
            self.inplace[id(real)] = real, told
            self.sim.probe('in-place')
            return
        else:
            if self.is_curry(real):
                return
            try:
                told = self.expected(real, 'C')
            except (Unbound, Unspecified):
                return
            new = whatable(real)
            if new is real:
                raise Violation('copy', 'whatable changed the function')
            self.wrapped[id(new)] = new, real, told
        self.add(new, owner, private)

    @staticmethod
    def state(real):
        """The parts of a callable."""
        parts = []
        while True:
            if hasattr(real, 'keywords') and hasattr(real, 'func'):
                parts += [real, real.args, [(k, id(v)) for k, v in sorted(real.keywords.items())]]
                real = real.func
            else:
                return [id(p) if not isinstance(p, (list, tuple)) else p if isinstance(p, list) else [id(x) for x in p]
                        for p in parts + [real, getattr(real, '__defaults__', None) or ()]] + \
                    [sorted(k for k in vars(real))]

    def perform(self, th, op):
        from whatami import What, whatable
        from whatami.misc import callable2call, extract_decorated_function_from_closure
        from whatami.whatutils import obj2what, what2id
        do, rng = op['do'], rng_for(op['seed'])
        t = th.tid
        nodes = self.visible(t)
        mine = [n for n in nodes if n.owner == t]
        node = nodes[op['on'] % len(nodes)]
        if op['on'] < 0 and mine:
            node = mine[op['on'] % len(mine)]
        real = node.real
        if do == 'derive':
            private = node.private
            args, kwargs = [], {}
            for spec in op['args']:
                v, p = self.make(spec, t)
                args.append(v)
                private = private or p
            for k, spec in op['kwargs']:
                kwargs[k], p = self.make(spec, t)
                private = private or p
            return lambda: self.derived(real, op['how'], args, kwargs, t, True)
        if do == 'new':
            made = [self.make(spec, t)[0] for spec in op['vals']]
            return lambda: self.add(define(op['shape'], made), t, True)
        if do == 'call':
            args, kwargs = [3] * op['nargs'], {k: 4 for k in op['kwargs']}

            def call():
                try:
                    real(*args, **kwargs)
                    self.sim.probe('called')
                except Exception:
                    pass
            return call
        if do == 'cell':
            cell, specs = self.cells[t]

            def change():
                # one step for the other threads
                new = [s for s in op['vals'] if s[0] not in ('cell', 'node', 'boom')]
                cell[:] = [gen.build(s) for s in new]
                specs[:] = new
                self.sim.probe('changed')
            return change
        if do in ('defaults', 'keywords'):
            candidates = [n for n in mine if (
                inspect.isfunction(n.real) and n.real.__defaults__ and id(n.real) not in self.wrapped if do == 'defaults'
                else hasattr(n.real, 'keywords'))]
            if not candidates:
                return lambda: None
            target = candidates[op['on'] % len(candidates)].real
            made = []
            for spec in op['vals']:
                # no cycles
                made.append(self.make(spec if spec[0] != 'node' else ['int', spec[1]], t)[0])
            if do == 'defaults':
                def change():
                    target.__defaults__ = tuple(made)[:len(target.__defaults__)]
                    self.sim.probe('changed')
                return change

            def change():
                if op['key'] in target.keywords and rng.random() < .5:
                    del target.keywords[op['key']]
                else:
                    target.keywords[op['key']] = made[0]
                self.sim.probe('changed')
            return change
        # describing
        how = op['how']
        if how == 'W' and self.is_curry(real):
            how = 'V'       # it would decorate the very object
        if how == 'W' and id(real) in self.wrapped and rng.random() < .5:
            how = 'N'
        told = self.told(real, how)
        before = self.state(real)
        self.pending[op['id']] = how, node, told, before
        return {'V': lambda: What('w', {'v': real}).id(),
                'L': lambda: What('w', {'v': [1, {'k': real}]}).id(),
                'N': lambda: What('w', {'v': What('x', {'y': real})}).id(),
                'O': lambda: obj2what(real).id(),
                'W': lambda: whatable(real).what().id(),
                'C': lambda: callable2call(real, closure_extractor=extract_decorated_function_from_closure),
                'I': lambda: what2id(real)}[how]

    def after(self, op, out, fired):
        if op['id'] not in self.pending:
            if out[0] == 'exc':
                raise out[1]
            return
        how, node, told, before = self.pending.pop(op['id'])
        self.judge(how, out, fired and out[0] == 'exc', node, told)
        if self.state(node.real) != before:
            raise Violation('changed', 'describing %s changed it' % short(node.real))

    def judge(self, how, out, interrupted, node, told):
        sim = self.sim
        if interrupted:
            sim.probe('interrupted')
            return
        kind, must = told
        if kind == 'whatever' or how == 'C' and id(node.real) in self.wrapped:
            return
        if kind == 'fails':
            sim.probe('failed')
            types = (EXCS[must], RuntimeError) if must == 'StopIteration' else (EXCS[must],)
            if out[0] == 'ok' or not isinstance(out[1], types):
                raise Violation('hidden', 'a what() failed with %s but describing %s (%s) gave %s' % (
                    must, short(node.real), how, short(out[1])))
            return
        if kind == 'refused':
            sim.probe('refused')
            if how in 'OI':
                return      # these can also tell about the object itself
            if out[0] == 'ok' or not isinstance(out[1], (ValueError, TypeError)):
                raise Violation('accepted', 'no call to %s is possible, but describing it (%s) gave %s' % (
                    short(node.real), how, short(out[1])))
            return
        if out[0] == 'exc':
            raise Violation('error', 'describing %s (%s) failed with %s, must give %s' % (
                short(node.real), how, short(out[1]), short(must)))
        sim.probe('right')
        if how == 'C':
            name, got = out[1]
            if name != must[0] or set(got) != set(must[1]) or any(got[k] is not must[1][k] for k in got):
                raise Violation('parameters', 'a call to %s would be %s, but it was described as %s' % (
                    short(node.real), short(must), short(out[1])))
            got.clear()         # it is ours
            return
        must = {'V': 'w(v=%s)', 'L': 'w(v=[1,{\'k\':%s}])', 'N': 'w(v=x(y=%s))'}.get(how, '%s').replace('%s', must, 1)
        if out[1] != must:
            raise Violation('id', 'the id of %s (%s) is %s, must be %s' % (
                short(node.real), how, short(out[1], 900), short(must, 900)))
        if must.count('(') > 4:
            sim.probe('deep')
        if any(v[0] == 'node' for v in ()) or hasattr(node.real, 'func') and any(
                callable(a) for a in tuple(node.real.args) + tuple(node.real.keywords.values())):
            sim.probe('nested')


PROP = C21()
