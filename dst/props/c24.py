# coding=utf-8
"""C24: what is decorated behaves like the original, and nothing else changes."""
import functools

from ..core import EXCS, HarnessError, Violation, rng_for
from ..runner import Prop
from .common import USER_ERRORS, module_files, maybe_fault, run_concurrently, sched, short

CALL_ERRORS = USER_ERRORS + ('KeyboardInterrupt', 'SystemExit', 'MemoryError', 'GeneratorExit')
MEMBERS = ('foo', 'bar', 'baz')


class Token(object):
    """An argument or result, only known by its identity."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __eq__(self, other):
        raise Violation('compared', 'the arguments were compared')

    __hash__ = object.__hash__


# --- Functions of different shapes. All call body(args, kwargs) with what they got.

def shapes(body):
    def two(x, y=2):
        """Two parameters."""
        return body('two', (x, y), {})

    def varargs(x, *args, **kwargs):
        return body('varargs', (x,) + args, kwargs)

    def keyword(x=1, *, k=3):
        """A keyword only parameter."""
        return body('keyword', (x,), {'k': k})

    def none():
        return body('none', (), {})

    def gen(x, n='n'):
        yield body('gen', (x, n), {})

    anonymous = lambda x, z=7: body('<lambda>', (x, z), {})     # noqa: E731

    class Holder(object):
        def method(self, x, y=2):
            return body('method', (x, y), {})

        @staticmethod
        def static(x=0):
            return body('static', (x,), {})

    two.mark = ['an attribute']
    annotated = functools.partial(two, y='bound')
    return (two, varargs, keyword, none, gen, anonymous, Holder.method, Holder.static, annotated,
            functools.partial(varargs))


NSHAPES = 10
# ids of the whatable functions
IDS = ("two(y=2)", "varargs()", "keyword(x=1)", "none()", "gen(n='n')", "lambda(z=7)", "method(y=2)", "static(x=0)",
       "two(y='bound')", "varargs()")


def expected_call(shape, args, kwargs):
    """How the body is called; None if the call must be refused."""
    def bind(names, defaults, only=()):
        if len(args) > len(names):
            return None
        got = dict(zip(names, args))
        for k, v in kwargs.items():
            if k in got or k not in names + only:
                return None
            got[k] = v
        for k, v in defaults.items():
            got.setdefault(k, v)
        return got if len(got) == len(names) + len(only) else None
    if shape in (1, 9):
        if 'x' in kwargs:
            if args:
                return None
            return ('varargs', (kwargs['x'],), {k: v for k, v in kwargs.items() if k != 'x'})
        return ('varargs', args, dict(kwargs)) if args else None
    if shape == 2:
        got = bind(('x',), {'x': 1, 'k': 3}, ('k',))
        return got and ('keyword', (got['x'],), {'k': got['k']})
    if shape == 3:
        return ('none', (), {}) if not args and not kwargs else None
    name, names, defaults = {0: ('two', ('x', 'y'), {'y': 2}), 4: ('gen', ('x', 'n'), {'n': 'n'}),
                             5: ('<lambda>', ('x', 'z'), {'z': 7}), 6: ('method', ('self', 'x', 'y'), {'y': 2}),
                             7: ('static', ('x',), {'x': 0}), 8: ('two', ('x', 'y'), {'y': 'bound'})}[shape]
    if shape == 8 and len(args) > 1:
        return None
    got = bind(names, defaults)
    if got is None:
        return None
    return (name, tuple(got[n] for n in names if n != 'self'), {})


class Decorated(object):
    """A function, its decorated version and what is expected of it."""

    def __init__(self, shape, original, how, target):
        self.shape, self.original, self.how, self.decorated = shape, original, how, target


class C24(Prop):
    ID = 'C24'
    RUNS = {'quick': 5000, 'thorough': 100000}
    RULE = 'Half of the runs are histories of 4-18 operations in one thread; the others, 2-3 threads with up to 7 ' \
           'operations each under a random or PCT schedule: decorating functions of ten shapes (in place or not, also ' \
           'again), calling them with right and wrong arguments while they fail, yield, call themselves or describe ' \
           'themselves, decorating classes, subclasses and instances with several options, and creating classes with ' \
           'metaclasses that decorate members, given once for all the classes, with decorators that fail at times. ' \
           'Some operations are interrupted.'
    REAL = ('whatami.what.whatable', 'whatami.misc (callable2call, decorate_some)', 'whatami.whatutils.whatamize_object')
    STUB = ('thread scheduler', 'interrupts', 'user functions, classes and decorators')
    NEED_PROBES = ('called', 'refused', 'raised', 'recursive', 'described', 'in-place', 'class', 'instance', 'subclass',
                   'own-what', 'meta', 'meta-failed', 'interrupted', 'concurrent', 'iterator', 'redecorated',
                   'namespace')

    def prepare(self):
        import whatami.whatutils     # noqa
        from whatami import whatable
        whatable(lambda x=1: x).what().id()

    def make_plan(self, rng, index, tier):
        faults, n = [], 0
        alone = rng.random() < .5
        threads = []
        pfault = rng.choice((0, 0, .2, .5))
        for _ in range(1 if alone else rng.choice((2, 2, 3))):
            ops = []
            for _ in range(rng.randrange(4, 19) if alone else rng.randrange(1, 8)):
                op = {'id': n, 'seed': rng.randrange(1 << 30), 'slot': rng.randrange(3)}
                n += 1
                r = rng.random()
                if r < .15:
                    op.update(do='decorate', shape=rng.randrange(NSHAPES), how=rng.choice(
                        ('new', 'new', 'called', 'inplace', 'whatfunc')))
                    maybe_fault(rng, faults, op['id'], pfault, 60)
                elif r < .45:
                    op.update(do='call', nargs=rng.choice((0, 1, 1, 1, 2, 2, 3)),
                              kwargs=rng.sample(('x', 'y', 'k', 'z', 'n'), rng.choice((0, 0, 0, 1, 1, 2))),
                              act=rng.choice(('return', 'return', 'raise', 'recurse', 'describe', 'yield')),
                              exc=rng.choice(CALL_ERRORS))
                elif r < .55:
                    op.update(do='describe')
                    maybe_fault(rng, faults, op['id'], pfault, 100)
                elif r < .75:
                    op.update(do=rng.choice(('class', 'class', 'whatclass', 'instance', 'subclass', 'ownwhat')))
                    maybe_fault(rng, faults, op['id'], pfault, 40)
                elif r < .8:
                    op.update(do='metaclass', form=rng.choice(('one', 'list', 'tuple', 'generator', 'map')),
                              n=rng.randrange(1, 4))
                else:
                    op.update(do='meta', fail=rng.random() < .2, sub=rng.random() < .4, same=rng.random() < .4)
                    maybe_fault(rng, faults, op['id'], pfault, 15)
                ops.append(op)
            threads.append(ops)
        return {'threads': threads, 'faults': faults, 'alone': alone,
                'sched': {'kind': 'none'} if alone else sched(rng, nsteps=500)}

    # --- Functions

    def execute(self, plan, make_sim):
        sim = self.sim = make_sim(sched=plan['sched'], faults=plan['faults'],
                                  files=module_files())
        self.calls = {}             # op id: calls that the body got
        self.active = {}            # thread id: operation and decorated function
        self.slots = []
        self.kept = []              # everything decorated, checked at the end
        self.classes = []
        self.metas = []
        self.namespaces = [None] * 3
        for i in range(3):
            self.slots.append(self.decorate(*self.original({'shape': i, 'how': 'new'})))
            self.new_meta({'form': ('one', 'list', 'tuple')[i], 'n': 1 + i})
        self.pending = {}
        run_concurrently(sim, plan['threads'], self.perform, canon=lambda v: None, after=self.after)
        for d in self.kept:
            self.check_decorated(d)
            got = d.decorated.what().id()
            if got != self.fid(d):
                raise Violation('id', 'at the end the id of the function %d is %r, must be %r' % (
                    d.shape, got, self.fid(d)))
        for c in self.classes:
            self.check_class(c)
        if not plan['alone'] and len(plan['threads']) > 1:
            sim.probe('concurrent')
        sim.probe('nontrivial')

    @staticmethod
    def fid(d):
        return 'custom()' if d.how == 'whatfunc' else IDS[d.shape]

    def body(self, name, args, kwargs):
        th = self.sim.by_ident.get(self.ident())
        stack = self.active.get(th.tid if th is not None else None)
        if not stack:
            raise Violation('call', 'the function %s was called by nobody' % name)
        record, act = stack[-1]
        record.append((name, args, kwargs))
        return act()

    @staticmethod
    def ident():
        import _thread
        return _thread.get_ident()

    def original(self, op):
        f = shapes(self.body)[op['shape']]
        how = op['how']
        if how == 'inplace' and isinstance(f, functools.partial):
            how = 'new'
        return op['shape'], f, how, self.snapshot(f)

    def decorate(self, shape, original, how, before):
        from whatami import whatable, What
        if how == 'inplace':
            decorated = whatable(original, modify_func_inplace=True)
            if decorated is not original:
                raise Violation('in-place', 'decorating a function in place gave other function')
            self.sim.probe('in-place')
        elif how == 'called':
            decorated = whatable(modify_func_inplace=False)(original)
        elif how == 'whatfunc':
            decorated = whatable(original, whatfunc=lambda f: What('custom', {}))
        else:
            decorated = whatable(original)
        d = Decorated(shape, original, how, decorated)
        d.before = before
        self.check_decorated(d)
        self.kept.append(d)
        return d

    @staticmethod
    def snapshot(f):
        return {k: v for k, v in vars(f).items()}, getattr(f, '__defaults__', None), getattr(f, '__doc__', None)

    def check_decorated(self, d):
        f, w = d.original, d.decorated
        if d.how != 'inplace':
            if w is f:
                raise Violation('copy', 'decorating the function %d changed it' % d.shape)
            if hasattr(f, 'what'):
                raise Violation('copy', 'the original function %d has got a what' % d.shape)
            if self.snapshot(f) != d.before:
                raise Violation('copy', 'the original function %d has been changed: %s, was %s' % (
                    d.shape, short(self.snapshot(f)), short(d.before)))
        for attr in ('__name__', '__doc__', '__module__'):
            if hasattr(f, attr) and getattr(w, attr, None) != getattr(f, attr):
                raise Violation('name', 'the %s of the function %d is %r, must be %r' % (
                    attr, d.shape, getattr(w, attr, None), getattr(f, attr)))
        if d.shape == 0 and getattr(w, 'mark', None) is not f.mark:
            raise Violation('name', 'the decorated function has lost its attributes')

    # --- Classes

    def new_class(self, owner):
        class A(object):
            cattr = 'class'

            def __init__(self, a=1):
                self.a = a
                self._private = 0

            @property
            def prop(self):
                return 'p'

        class Sub(A):
            def __init__(self, a=1):
                super(Sub, self).__init__(a)
                self.b = 2

        self.classes.append({'A': A, 'Sub': Sub, 'options': {'A': None, 'Sub': None}, 'own': (A(5), Sub(5)),
                             'owner': owner})
        return self.classes[-1]

    @staticmethod
    def class_id(name, options, a):
        """The id of an instance of a class with such options."""
        if options == 'whatclass':
            return 'byfunc(a=%d)' % a
        conf = {'a': str(a)}
        if name == 'Sub':
            conf['b'] = '2'
        if options.get('add_properties', True):
            conf['prop'] = "'p'"
        if options.get('add_class'):
            conf['cattr'] = "'class'"
        for k in options.get('excludes', ()):
            conf.pop(k, None)
        return '%s(%s)' % (name, ','.join('%s=%s' % kv for kv in sorted(conf.items())))

    def check_class(self, c):
        from whatami import is_whatable
        for name, inst in zip(('A', 'Sub'), c['own']):
            options = c['options'][name]
            if options is None and name == 'Sub':
                options = c['options']['A']
            if options is None:
                if 'what' in dir(c[name]) or is_whatable(inst):
                    raise Violation('leak', 'the class %s, that has not been decorated, has got a what' % name)
                continue
            got = inst.what().id()
            must = self.class_id(name, options, 5)
            if got != must:
                raise Violation('class', 'the id of an instance of %s is %r, must be %r' % (name, got, must))

    # --- Metaclasses

    def new_meta(self, op):
        from whatami.misc import decorate_some
        applied = []        # marks of the decorators, in order of application
        failing = set()

        def decorator(i):
            def decorate(f):
                self.sim.here('decorator')
                if self.current() in failing:
                    raise EXCS['InjectedError']('user code')

                def wrapper(*args):
                    return ['d%d' % i] + f(*args)
                return wrapper
            return decorate
        ds = [decorator(i) for i in range(op['n'])]
        form = op['form']
        if form == 'one':
            ds = ds[:1]
        given = {'one': lambda: ds[0], 'list': lambda: list(ds), 'tuple': lambda: tuple(ds),
                 'generator': lambda: (d for d in ds), 'map': lambda: map(lambda d: d, ds)}[form]()
        meta = decorate_some(name='M', foo=given, bar=decorator(9))
        if form in ('generator', 'map'):
            self.sim.probe('iterator')
        self.metas.append({'meta': meta, 'foo': ['d%d' % i for i in reversed(range(len(ds)))], 'bar': ['d9'],
                           'failing': failing, 'applied': applied, 'form': form})
        return self.metas[-1]

    def current(self):
        th = self.sim.by_ident.get(self.ident())
        return th.tid if th is not None else 'outside'

    # --- Operations

    def perform(self, th, op):
        from whatami import whatable, What
        from whatami.whatutils import whatamize_object
        do, rng = op['do'], rng_for(op['seed'])
        if do == 'decorate':
            original = self.pending[op['id']] = self.original(op)

            def decorate():
                self.slots[op['slot']] = self.decorate(*original)
            return decorate
        if do == 'metaclass':
            return lambda: self.new_meta(op) and None
        d = self.slots[op['slot']]
        if do == 'describe':
            self.pending[op['id']] = self.fid(d)
            return lambda: d.decorated.what().id()
        if do == 'call':
            return self.call(th, op, d)
        if do == 'meta':
            return self.meta(th, op, rng)
        mine = [c for c in self.classes if c['owner'] == th.tid]
        options = rng.choice(({}, {'add_properties': False}, {'add_class': True}, {'excludes': ('what', 'a')}))
        if do in ('class', 'subclass', 'whatclass'):
            c = rng.choice(mine) if len(mine) > 3 or (mine and rng.random() < .5) else self.new_class(th.tid)
            name = 'Sub' if do == 'subclass' else 'A'
            self.pending[op['id']] = c, name, ('whatclass' if do == 'whatclass' else options)
            if do == 'whatclass':
                def byfunc(self):
                    return What('byfunc', {'a': self.a})
                byfunc.whatami = True
                if c['options'][name] is not None:
                    return lambda: whatamize_object(c[name], byfunc, force=True)
                return lambda: whatable(c[name], whatfunc=byfunc) and None
            if c['options'][name] is not None:
                self.sim.probe('redecorated')
            if rng.random() < .5:
                return lambda: whatable(**options)(c[name])
            return lambda: whatable(c[name], **options)
        if do == 'instance':
            c = self.new_class(th.tid)
            inst, other = c['A'](7), c['A'](8)
            self.pending[op['id']] = inst, other, options
            return lambda: whatable(inst, **options)

        class Own(object):
            def what(self, needed):
                return needed

            a = 3
        self.pending[op['id']] = Own
        return lambda: whatable(Own())

    def call(self, th, op, d):
        args = tuple(Token('arg%d' % i) for i in range(op['nargs']))
        kwargs = {k: Token(k) for k in op['kwargs']}
        if d.shape == 6 and args:
            args = (Token('self'),) + args
        result = Token('result')
        error = EXCS[op['exc']]('user code')
        record = []
        stack = self.active.setdefault(th.tid, [])
        act = op['act']

        def again():
            # from inside, other call that fails or not, and then goes on
            inner = []
            a = tuple(Token('inner%d' % i) for i in range({3: 0, 6: 2}.get(d.shape, 1)))
            token = Token('inner result')
            stack.append((inner, lambda: token))
            try:
                got = d.decorated(*a)
                if d.shape == 4:
                    got = list(got)[0]
            finally:
                stack.pop()
            self.check_calls(d, inner, a, {})
            if got is not token:
                raise Violation('result', 'the inner call of the function %d gave %r' % (d.shape, got))
            self.sim.probe('recursive')
            return result

        def describe():
            got = d.decorated.what().id()
            if got != self.fid(d):
                raise Violation('id', 'inside the function %d its id is %r, must be %r' % (d.shape, got, self.fid(d)))
            return result

        def fail():
            raise error

        def pause():
            for _ in range(3):
                self.sim.here('user')
            return result
        action = {'return': lambda: result, 'raise': fail, 'recurse': again, 'describe': describe, 'yield': pause}[act]
        self.pending[op['id']] = d, args, kwargs, result, error if act == 'raise' else None, record

        def run():
            stack.append((record, action))
            try:
                got = d.decorated(*args, **kwargs)
                if d.shape == 4 and not (isinstance(got, Token)):
                    if record:
                        raise Violation('call', 'the generator started before it was asked for')
                    got = next(got)
                return got
            finally:
                stack.pop()
        return run

    def check_calls(self, d, record, args, kwargs):
        must = expected_call(d.shape, args, kwargs)
        if must is None:
            if record:
                raise Violation('call', 'the function %d accepted %r %r' % (d.shape, args, kwargs))
            return False
        if len(record) != 1:
            raise Violation('call', 'the function %d was called %d times' % (d.shape, len(record)))
        name, a, k = record[0]

        def same(x, y):
            return x is y or (type(x) in (int, str) and type(x) is type(y) and x == y)
        if name != must[0] or len(a) != len(must[1]) or not all(map(same, a, must[1])) or list(k) != list(must[2]) \
                or not all(same(k[x], must[2][x]) for x in k):
            raise Violation('call', 'the function %d got %r, must get %r' % (d.shape, record[0], must))
        return True

    def meta(self, th, op, rng):
        m = self.metas[rng.randrange(len(self.metas))]
        slot = op['slot']

        def foo(self, x):
            return ['foo', x]

        def bar(self):
            return ['bar']

        def baz(self):
            return ['baz']
        namespace = {'foo': foo, 'bar': bar, 'baz': baz, 'value': 3}
        for k in ('foo', 'bar', 'baz'):
            if rng.random() < .2:
                del namespace[k]
        if op['same']:
            # the same namespace for several classes
            if self.namespaces[slot] is None:
                self.namespaces[slot] = namespace, dict(namespace)
            else:
                self.sim.probe('namespace')
            namespace, pristine = self.namespaces[slot]
        else:
            pristine = dict(namespace)
        self.pending[op['id']] = m, namespace, pristine

        def create():
            if op['fail']:
                m['failing'].add(th.tid)
            try:
                base = m['meta']('Base', (), namespace)
            finally:
                if op['fail']:
                    m['failing'].discard(th.tid)
            if not op['sub']:
                return base, None

            class Sub(base):
                def foo(self, x):
                    return ['subfoo'] + (super(Sub, self).foo(x) if 'foo' in pristine else [])
            return base, Sub
        return create

    # --- Judging

    def after(self, op, out, fired):
        do = op['do']
        if isinstance(out[1], (Violation, HarnessError)) and out[0] == 'exc':
            raise out[1]
        interrupted = fired and out[0] == 'exc'
        if interrupted:
            self.sim.probe('interrupted')
        pending = self.pending.get(op['id'])
        if do in ('decorate', 'metaclass'):
            if out[0] == 'exc' and not fired:
                raise Violation('error', 'decorating the function %s failed with %s' % (op.get('shape'), short(out[1])))
            if interrupted and do == 'decorate':
                shape, f, how, before = pending
                if how != 'inplace' and self.snapshot(f) != before:
                    raise Violation('copy', 'a decoration that was interrupted has changed the function %d' % shape)
        elif do == 'describe':
            self.sim.probe('described')
            if not interrupted and (out[0] == 'exc' or out[1] != pending):
                raise Violation('id', 'the id of a whatable function is %s, must be %r' % (short(out[1]), pending))
        elif do == 'call':
            self.judge_call(op, out, *pending)
        elif do in ('class', 'subclass', 'whatclass'):
            self.judge_class(op, out, interrupted, *pending)
        elif do == 'instance':
            self.judge_instance(out, interrupted, *pending)
        elif do == 'ownwhat':
            self.judge_own(out, interrupted, pending)
        elif do == 'meta':
            self.judge_meta(op, out, interrupted, *pending)

    def judge_call(self, op, out, d, args, kwargs, result, error, record):
        if not self.check_calls(d, record, args, kwargs):
            self.sim.probe('refused')
            if out[0] == 'ok' or type(out[1]) is not TypeError:
                raise Violation('call', 'wrong arguments for the function %d gave %s' % (d.shape, short(out[1])))
            return
        if error is not None:
            self.sim.probe('raised')
            if d.shape == 4 and isinstance(error, StopIteration):
                return
            if out[0] != 'exc' or out[1] is not error:
                raise Violation('result', 'the function %d raised %r, but the call gave %s' % (
                    d.shape, error, short(out[1])))
            return
        self.sim.probe('called')
        if out[0] != 'ok' or out[1] is not result:
            raise Violation('result', 'the function %d returned %r but the call gave %s' % (
                d.shape, result, short(out[1])))

    def judge_class(self, op, out, interrupted, c, name, options):
        if interrupted:
            # either with what it had before, or with the new one
            if 'what' in vars(c[name]):
                got = c['own'][('A', 'Sub').index(name)].what().id()
                for o in (options, c['options'][name]):
                    if o is not None and got == self.class_id(name, o, 5):
                        c['options'][name] = o
                        break
                else:
                    raise Violation('class', 'after an interrupt the id of an instance of %s is %r' % (name, got))
            self.check_class(c)
            return
        if out[0] == 'exc':
            raise Violation('error', 'decorating the class %s failed with %s' % (name, short(out[1])))
        self.sim.probe('subclass' if name == 'Sub' else 'class')
        c['options'][name] = options
        self.check_class(c)

    def judge_instance(self, out, interrupted, inst, other, options):
        from whatami import is_whatable
        if is_whatable(other) or 'what' in vars(type(inst)):
            raise Violation('leak', 'decorating an instance has changed its class')
        if interrupted:
            if 'what' not in vars(inst):
                return
        elif out[0] == 'exc' or out[1] is not inst:
            raise Violation('error', 'decorating an instance gave %s' % short(out[1]))
        self.sim.probe('instance')
        must = self.class_id('A', options, 7)
        got = inst.what().id()
        if got != must:
            raise Violation('class', 'the id of a decorated instance is %r, must be %r' % (got, must))

    def judge_own(self, out, interrupted, own):
        self.sim.probe('own-what')
        if out[0] == 'ok':
            raise Violation('own-what', 'an object with other what was decorated')
        if set(vars(own)) & {'whatami'} or hasattr(own.what, 'whatami'):
            raise Violation('own-what', 'the other what was changed')

    def judge_meta(self, op, out, interrupted, m, namespace, pristine):
        if set(namespace) != set(pristine) or any(namespace[k] is not pristine[k] for k in pristine):
            raise Violation('namespace', 'creating a class has changed the namespace that it was given')
        if interrupted:
            return
        if op['fail'] and ('foo' in pristine or 'bar' in pristine):
            self.sim.probe('meta-failed')
            if out[0] == 'ok' or not isinstance(out[1], EXCS['InjectedError']):
                raise Violation('meta', 'a decorator failed, but the class was created')
            return
        if out[0] == 'exc':
            raise Violation('meta', 'creating a class failed with %s' % short(out[1]))
        self.sim.probe('meta')
        base, sub = out[1]
        b = base()
        for k in ('foo', 'bar', 'baz'):
            if k not in pristine:
                if hasattr(b, k):
                    raise Violation('meta', 'the class has got a %s' % k)
                continue
            got = b.foo('x') if k == 'foo' else getattr(b, k)()
            must = m.get(k, []) + ([k, 'x'] if k == 'foo' else [k])
            if got != must:
                raise Violation('meta', '%s (decorators given as %s) gave %r, must give %r' % (k, m['form'], got, must))
        if sub is not None:
            got = sub().foo('x')
            must = m['foo'] + ['subfoo'] + (m['foo'] + ['foo', 'x'] if 'foo' in pristine else [])
            if got != must:
                raise Violation('meta', 'the overriden foo (decorators given as %s) gave %r, must give %r' % (
                    m['form'], got, must))


PROP = C24()
