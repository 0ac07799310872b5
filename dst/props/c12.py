# coding=utf-8
"""C12: import helpers return the first thing that imports and report the rest."""
import importlib
import importlib.machinery
import sys
import types

from ..core import Violation, EXCS
from ..runner import Prop
from .common import module_files, maybe_fault, short

SCHEME = 'dst://'
FAILURES = ('ImportError', 'ImportError', 'ImportError', 'ModuleNotFoundError', 'ValueError', 'SyntaxError',
            'KeyboardInterrupt', 'AttributeError', 'OSError', 'MemoryError', 'RuntimeError', 'KeyError', 'SystemExit')
ERRORS = dict(EXCS, ModuleNotFoundError=ModuleNotFoundError, SyntaxError=SyntaxError)
MEMBERS = ('A', 'B', 'C')
USED = ('array', 'DataFrame', '__version__', 'x', '__name__', '__doc__', 'shape')


class World(object):
    """A simulated tree of modules: path hook, finder and loader."""

    def __init__(self, modules, here):
        self.modules = modules
        self.here = here
        self.attempts = {}
        self.errors = []
        self.log = []         # of the ongoing call: [name, exception or None]
        self.side = set()     # modules imported by other modules in the ongoing call

    # path hook

    def __call__(self, path):
        if not path.startswith(SCHEME):
            raise ImportError
        return Finder(self, path[len(SCHEME):])

    def start(self):
        del self.log[:]
        self.side.clear()

    def install(self):
        self.clean()
        sys.path_hooks.insert(0, self)
        sys.path.append(SCHEME)

    def clean(self):
        sys.path_hooks[:] = [h for h in sys.path_hooks if not isinstance(h, World)]
        sys.path[:] = [p for p in sys.path if not p.startswith(SCHEME)]
        for cached in [p for p in sys.path_importer_cache if p.startswith(SCHEME)]:
            del sys.path_importer_cache[cached]
        self.unload()

    @staticmethod
    def unload(name=None):
        for n in [n for n in sys.modules if n.split('.')[0].startswith('dstm')]:
            if name is None or n == name or n.startswith(name + '.'):
                del sys.modules[n]

    def children(self, name):
        prefix = name + '.' if name else ''
        return [n for n in self.modules if n.startswith(prefix) and n != name and '.' not in n[len(prefix):]]

    @staticmethod
    def loaded(name):
        return name in sys.modules

    def would(self, tried):
        """The first of the variants that would be imported now (None if none), leaving everything as it was."""
        modules = {n: (m, dict(m.__dict__)) for n, m in sys.modules.items() if n.startswith('dstm')}
        attempts, log, side, here = self.attempts, self.log, self.side, self.here
        self.attempts, self.log, self.side, self.here = dict(attempts), [], set(), lambda: None
        self.errors = []
        try:
            for v in tried:
                try:
                    importlib.import_module(v)
                    return v
                except ImportError as e:
                    self.errors.append((v, str(e)))
                except BaseException:
                    return None        # it ends here
            return None
        finally:
            self.imported = {n for n, _ in self.log}
            self.attempts, self.log, self.side, self.here = attempts, log, side, here
            self.unload()
            for n, (m, d) in modules.items():
                m.__dict__.clear()
                m.__dict__.update(d)
                sys.modules[n] = m

    # loader

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        name = module.__name__
        m = self.modules[name]
        attempt = self.attempts[name] = self.attempts.get(name, 0) + 1
        entry = [name, None]
        self.log.append(entry)
        try:
            self.here()
            for other, tolerant in m['imports'][:m['half']]:
                self.side.add(other)
                try:
                    __import__(other)
                except ImportError:
                    if not tolerant:
                        raise
            if attempt <= m['fails'] or m['fails'] < 0:
                raise ERRORS[m['exc']]('%s failed, attempt %d' % (name, attempt))
            for other, tolerant in m['imports'][m['half']:]:
                self.side.add(other)
                try:
                    __import__(other)
                except ImportError:
                    if not tolerant:
                        raise
            for member, kind in m['members'].items():
                if kind == 'plain':
                    setattr(module, member, type(member, (object,), {}))
                elif kind == 'what':
                    setattr(module, member, type(member, (object,), {'what': 'own'}))
                elif kind == 'inherits':
                    setattr(module, member, type(member, (type('Base', (object,), {'what': 'inherited'}),), {}))
            lazy = {k: v for k, v in m['members'].items() if v in ERRORS}
            if lazy:
                def getter(n):
                    if n in lazy:
                        raise ERRORS[lazy[n]]('%s.%s' % (name, n))
                    raise AttributeError(n)
                module.__getattr__ = getter
        except BaseException as e:
            entry[1] = e
            raise


class Finder(object):
    def __init__(self, world, package):
        self.world, self.package = world, package

    def find_spec(self, name, target=None):
        m = self.world.modules.get(name)
        if m is None or m['absent'] or name.rpartition('.')[0] != self.package:
            return None
        spec = importlib.machinery.ModuleSpec(name, self.world, is_package=m['pkg'])
        if m['pkg']:
            spec.submodule_search_locations = [SCHEME + name]
        return spec

    def find_module(self, name, path=None):
        return None

    def iter_modules(self, prefix=''):
        for n in self.world.children(self.package):
            if self.world.modules[n]['listed']:
                yield prefix + n.rpartition('.')[2], self.world.modules[n]['pkg']

    def invalidate_caches(self):
        pass


class C12(Prop):
    ID = 'C12'
    RUNS = {'quick': 8000, 'thorough': 200000}
    RULE = 'Each run is a simulated tree of up to 14 modules and packages (each absent, importable, failing with one ' \
           'of 12 exceptions always or the first times, before or after importing others, listed or not, with or ' \
           'without members, some that fail when accessed), and a history of 3-12 imports with the helpers, uses of ' \
           'what they returned, repairs, breakages and unloads; some calls are interrupted at any line.'
    REAL = ('whatami.misc (import helpers)', 'whatami.whatutils.whatamize_object', 'importlib', 'pkgutil')
    STUB = ('module files (simulated by a path hook)', 'interrupts')
    NEED_PROBES = ('first', 'later-variant', 'lazy', 'lazy-used', 'member', 'member-none', 'member-raised',
                   'whatamized', 'whatamize-kept', 'whatamize-forgiven', 'submodules', 'submodules-ignored',
                   'submodules-raised', 'not-import-error', 'recovered')

    def prepare(self):
        import whatami.whatutils  # noqa

    # --- plans

    def make_plan(self, rng, index, tier):
        modules = {}
        pfail = rng.choice((.1, .3, .6))

        def state():
            fails = 0 if rng.random() > pfail else rng.choice((-1, -1, -1, 1, 2))
            return {'absent': rng.random() < pfail * .35, 'fails': fails, 'exc': rng.choice(FAILURES),
                    'half': rng.randrange(3), 'listed': rng.random() > .04}

        def add(name, depth):
            if len(modules) >= 14:
                return
            pkg = depth < 3 and rng.random() < (.7 if depth == 0 else .4)
            modules[name] = dict(state(), pkg=pkg, imports=[], members={
                m: rng.choice(('plain', 'plain', 'plain', 'what', 'what', 'inherits', 'ImportError', 'AttributeError',
                               'ValueError')) for m in MEMBERS if rng.random() < .7})
            if pkg:
                for i in range(rng.randrange(4)):
                    add(name + '.' + rng.choice('abcd') + str(i), depth + 1)

        tops = ['dstm%d' % i for i in range(rng.randrange(1, 5))]
        for t in tops:
            add(t, 0)
        names = list(modules)
        for m in modules.values():
            for _ in range(rng.choice((0, 0, 0, 1, 2))):
                m['imports'].append([rng.choice(names), rng.random() < .4])
        faults = []
        ops = []

        def anyname():
            r = rng.random()
            if r < .9:
                return rng.choice(names)
            return rng.choice(('dstm9', names[0] + '.zz', 'dstm9.x'))

        for i in range(rng.randrange(3, 13)):
            o = {'id': i}
            r = rng.random()
            hint = rng.choice((None, 'pip', 'conda', 'apt-get install it'))
            variants = [anyname() for _ in range(rng.choice((0, 0, 1, 2, 3)))]
            if r < .27:
                o.update(do='import', name=anyname(), hint=hint, variants=variants, slot=rng.randrange(3))
            elif r < .36:
                o.update(do='use', slot=rng.randrange(3), attr=rng.choice(USED))
            elif r < .54:
                o.update(do='member', fqn=anyname() + '.' + rng.choice(MEMBERS), hint=hint, variants=variants,
                         fail=rng.random() < .5, default=rng.random() < .2)
            elif r < .68:
                o.update(do='whatamize', fqn=anyname() + '.' + rng.choice(MEMBERS), fail=rng.random() < .5,
                         force=rng.random() < .3)
            elif r < .88:
                o.update(do='submodules', name=rng.choice(tops) if rng.random() < .7 else anyname(),
                         recurse=rng.random() < .6, ignore=rng.random() < .7, module=rng.random() < .25)
            elif r < .96:
                o.update(do='set', name=rng.choice(names), state=state())
            else:
                o.update(do='unload', name=rng.choice(names))
            maybe_fault(rng, faults, i, .08, 25)
            ops.append(o)
        return {'modules': modules, 'ops': ops, 'faults': faults}

    # --- execution

    def execute(self, plan, make_sim):
        sim = make_sim(faults=plan['faults'], files=module_files('misc.py', 'whatutils.py'))
        world = World({n: dict(m) for n, m in plan['modules'].items()}, sim.here)
        world.install()
        slots = {}
        th = sim.enter()
        try:
            for op in plan['ops']:
                if op['do'] in ('set', 'unload'):
                    if op['do'] == 'set':
                        world.modules[op['name']].update(op['state'])
                    else:
                        world.unload(op['name'])
                    sim.event('world', op['id'])
                    continue
                world.start()
                getattr(self, op['do'])(sim, th, op, world, slots)
        finally:
            sim.leave()
            world.clean()

    @staticmethod
    def canon(v):
        if issubclass(type(v), types.ModuleType):
            return 'module %s' % v.__name__
        if type(v) is dict:
            return sorted(v)
        return type(v).__name__

    def call(self, sim, th, op, world, fn):
        """Runs a call. Returns its outcome, None if the call ended in an error other than ImportError."""
        before = dict(world.attempts)
        out, _, _, fired = sim.op(th, op['id'], fn, canon=self.canon)
        if fired:
            if out[0] == 'ok' or isinstance(out[1], ImportError):
                raise Violation('hidden', '%s was interrupted but %s' % (self.tell(op), self.said(out)))
            sim.probe('interrupted')
            return None
        if any(e is not None for _, e in world.log):
            sim.probe('nontrivial')
        others = [e for _, e in world.log if e is not None and not isinstance(e, ImportError)]
        if others:
            sim.probe('not-import-error')
            if out[0] == 'ok' or out[1] is not others[0]:
                raise Violation('hidden', '%s found the error %r when importing, but %s' % (
                    self.tell(op), others[0], self.said(out)))
            return None
        for name, e in world.log:
            if e is None and before.get(name) and world.modules[name]['fails'] > 0:
                sim.probe('recovered')
        return out

    @staticmethod
    def tell(op):
        return '%s' % {k: v for k, v in op.items() if k != 'id'}

    @staticmethod
    def said(out):
        return 'it returned %s' % short(out[1]) if out[0] == 'ok' else 'it raised %s: %s' % (
            type(out[1]).__name__, out[1])

    def first(self, op, world, tried, first):
        """Checks that no variant after the first that can be imported has been imported."""
        for i, v in enumerate(tried):
            if v == first:
                for later in tried[i + 1:]:
                    if later not in world.imported and any(n == later for n, _ in world.log):
                        raise Violation('needless', '%s imported %s, after having imported %s' % (
                            self.tell(op), later, v))
                return v
        return None

    def explained(self, op, errors, e, tried, hint):
        """The error must tell about every variant and how to install."""
        text = str(e)
        for v in tried:
            if v not in text:
                raise Violation('message', '%s does not tell about %s: %s' % (self.tell(op), v, text))
        for v, error in errors:
            if error not in text:
                raise Violation('message', '%s does not tell the error %s of %s: %s' % (
                    self.tell(op), error, v, text))
        if hint in ('pip', 'conda'):
            hint = '%s install %s' % (hint, tried[0])
        if hint is not None and hint not in text:
            raise Violation('message', '%s does not tell how to install (%s): %s' % (self.tell(op), hint, text))

    # each operation; `import` is a keyword

    def op_import(self, sim, th, op, world, slots):
        from whatami.misc import maybe_import
        tried = op['variants'] or [op['name']]
        first = world.would(tried)
        out = self.call(sim, th, op, world, lambda: maybe_import(op['name'], op['hint'], *op['variants']))
        if out is None:
            return
        if out[0] == 'exc':
            raise Violation('eager', '%s must not fail until used, but %s' % (self.tell(op), self.said(out)))
        if first is not None:
            self.first(op, world, tried, first)
            if out[1] is not sys.modules[first]:
                raise Violation('variant', '%s must return %s, but %s' % (
                    self.tell(op), first, 'it returned another thing'))
            sim.probe('first' if first == tried[0] else 'later-variant')
            slots.pop(op['slot'], None)
            return
        lazy = out[1]
        if issubclass(type(lazy), types.ModuleType) or lazy is None:
            raise Violation('variant', '%s: none of %s can be imported, but it returned %r' % (
                self.tell(op), tried, lazy))
        sim.probe('lazy')
        self.touch(op, lazy, 'some_member', world.errors, tried, op['hint'])
        slots[op['slot']] = (lazy, world.errors, tried, op['hint'])

    def touch(self, op, lazy, attr, errors, tried, hint):
        try:
            got = getattr(lazy, attr)
        except ImportError as e:
            self.explained(op, errors, e, tried, hint)
            return
        except BaseException as e:
            raise Violation('lazy', '%s: using %s raised %s: %s instead of ImportError' % (
                self.tell(op), attr, type(e).__name__, e))
        raise Violation('lazy', '%s: using %s returned %r instead of raising ImportError' % (self.tell(op), attr, got))

    def use(self, sim, th, op, world, slots):
        if op['slot'] in slots:
            lazy, errors, tried, hint = slots[op['slot']]
            sim.event('use', op['id'])
            sim.probe('lazy-used')
            for _ in range(2):
                self.touch(op, lazy, op['attr'], errors, tried, hint)

    def expected_member(self, op, world, tried, first, member):
        """Must the call return, and what? ('ok', value) or ('exc', class)."""
        if first is None:
            return 'exc', ImportError
        self.first(op, world, tried, first)
        try:
            return 'ok', getattr(sys.modules[first], member)
        except Exception as e:
            return 'exc', type(e)

    def member(self, sim, th, op, world, slots):
        from whatami.misc import maybe_import_member
        module, _, member = op['fqn'].rpartition('.')
        tried = op['variants'] or [module]
        if op['default']:
            fn = lambda: maybe_import_member(op['fqn'])       # noqa
            tried, fail, hint = [module], True, None
        else:
            fail, hint = op['fail'], op['hint']
            fn = lambda: maybe_import_member(op['fqn'], fail, hint, *op['variants'])      # noqa
        first = world.would(tried)
        out = self.call(sim, th, op, world, fn)
        if out is None:
            return
        kind, value = self.expected_member(op, world, tried, first, member)
        if kind == 'exc' and issubclass(value, ImportError):
            if fail:
                if out[0] == 'ok' or not isinstance(out[1], ImportError):
                    raise Violation('member', '%s must raise ImportError, but %s' % (self.tell(op), self.said(out)))
                sim.probe('member-raised')
                if first is None:
                    self.explained(op, world.errors, out[1], tried, hint)
                return
            kind, value = 'ok', None
            sim.probe('member-none')
        if kind == 'exc':
            if out[0] == 'ok' or type(out[1]) is not value:
                raise Violation('member', '%s must raise %s, but %s' % (
                    self.tell(op), value.__name__, self.said(out)))
        elif out[0] == 'exc' or out[1] is not value:
            raise Violation('member', '%s must return %r, but %s' % (self.tell(op), value, self.said(out)))
        elif value is not None:
            sim.probe('member')

    def whatamize(self, sim, th, op, world, slots):
        from whatami.whatutils import whatamize_object
        module, _, member = op['fqn'].rpartition('.')

        def new(_):
            return None
        classes = {}
        before = {}
        if world.loaded(module):
            c = sys.modules[module].__dict__.get(member)
            classes[0] = c
            before = dict(vars(c)) if c is not None else {}
        first = world.would([module])
        out = self.call(sim, th, op, world, lambda: whatamize_object(op['fqn'], new, op['fail'], op['force']))
        if first is not None and not world.loaded(first):
            return           # it failed otherwise
        kind, value = self.expected_member(op, world, [module], first, member)
        clazz = value if kind == 'ok' else None
        if clazz is not None and classes.get(0) is not clazz:
            before = {}       # just imported
        if out is None:
            if clazz is not None and clazz.__dict__.get('what') is not new and 'what' in before and \
                    clazz.__dict__.get('what') is not before['what']:
                raise Violation('whatamize', '%s failed but left another what' % self.tell(op))
            return
        if kind == 'exc' and issubclass(value, ImportError) and not op['fail']:
            if out[0] == 'exc':
                raise Violation('whatamize', '%s must not fail, but %s' % (self.tell(op), self.said(out)))
            sim.probe('whatamize-forgiven')
            return
        if kind == 'exc':
            if out[0] == 'ok' or not (issubclass(value, ImportError) and isinstance(out[1], ImportError) or
                                      type(out[1]) is value):
                raise Violation('whatamize', '%s must raise %s, but %s' % (
                    self.tell(op), value.__name__, self.said(out)))
            return
        if out[0] == 'exc':
            raise Violation('whatamize', '%s must succeed, but %s' % (self.tell(op), self.said(out)))
        own = world.modules[module]['members'].get(member) in ('what', 'inherits') or 'what' in before
        if not own or op['force']:
            if clazz.__dict__.get('what') is not new:
                raise Violation('whatamize', '%s has not set what' % self.tell(op))
            sim.probe('whatamized')
        else:
            if clazz.__dict__.get('what') is new:
                raise Violation('whatamize', '%s has replaced what' % self.tell(op))
            sim.probe('whatamize-kept')

    def submodules(self, sim, th, op, world, slots):
        from whatami.misc import import_submodules
        name = op['name']
        package = name
        if op['module']:
            if not world.loaded(name):
                return
            package = sys.modules[name]
        m = world.modules.get(name)
        if m is not None and not m['pkg']:
            return       # not a package
        first = name if op['module'] else world.would([name])
        out = self.call(sim, th, op, world, lambda: import_submodules(
            package, recurse_packages=op['recurse'], ignore_errors=op['ignore']))
        if out is None:
            return

        def scope(n):
            names = [n]
            for c in world.children(n):
                if world.modules[c]['listed'] and world.loaded(n):
                    names.extend(scope(c) if op['recurse'] and world.modules[c]['pkg'] else [c])
            return names
        wanted = scope(name) if first else [name]
        good = {n for n in wanted if world.loaded(n)} if first else set()
        if out[0] == 'exc':
            if not isinstance(out[1], ImportError):
                raise Violation('submodules', '%s: %s' % (self.tell(op), self.said(out)))
            if op['ignore']:
                raise Violation('submodules', '%s must ignore import errors, but %s' % (
                    self.tell(op), self.said(out)))
            if len(good) == len(wanted):
                raise Violation('submodules', '%s: all can be imported, but %s' % (self.tell(op), self.said(out)))
            sim.probe('submodules-raised')
            return
        if not op['ignore'] and len(good) < len(wanted):
            raise Violation('submodules', '%s must raise as these cannot be imported: %s' % (
                self.tell(op), sorted(set(wanted) - good)))
        names = [n for n, _ in world.log]
        for n in set(out[1]) ^ good:
            if names.count(n) > 1:
                return       # it failed first and was imported by others later
        if set(out[1]) != good or len(out[1]) != len(good):
            raise Violation('submodules', '%s: the importable modules are %s, but it returned %s' % (
                self.tell(op), sorted(good), sorted(out[1])))
        for n, module in out[1].items():
            if module is not sys.modules[n]:
                raise Violation('submodules', '%s: %s is not the module, but %r' % (self.tell(op), n, module))
        # it must have tried them all: what is not loaded must be really unable to be imported
        for n in wanted:
            if n not in good and n != name:
                m = world.modules.get(n)
                if m and not m['absent'] and not any(x == n for x, _ in world.log):
                    raise Violation('submodules', '%s has not tried to import %s' % (self.tell(op), n))
        sim.probe('submodules')
        if len(good) < len(wanted):
            sim.probe('submodules-ignored')

    def shrink_more(self, plan):
        for n in list(plan['modules']):
            m = plan['modules'].pop(n)
            yield plan
            plan['modules'][n] = m
        for n, m in plan['modules'].items():
            for key, simple in (('imports', []), ('absent', False), ('fails', 0), ('members', {}), ('listed', True)):
                if m[key] != simple:
                    old, m[key] = m[key], simple
                    yield plan
                    m[key] = old


setattr(C12, 'import', C12.op_import)
PROP = C12()
