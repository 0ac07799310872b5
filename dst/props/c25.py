# coding=utf-8
"""C25: ids have exactly the keys that were asked for, and the length that was asked for."""
import hashlib

from .. import gen
from ..core import EXCS, InjectedError, Violation, rng_for
from ..runner import Prop
from .common import USER_ERRORS, module_files, maybe_fault, run_concurrently, sched, short

NAMES = ('a', 'b', 'ab', 'n_jobs', 'verbose', '_a', '_', '__p', 'a_', 'b__', '_c_', 'na', 'an', 'what_', 'seq')
FIXES = ('_', '_', '_', '_', None, '', 'a', 'n', 'n_', 'b', '__', 'ab')
ITERATORS = 'iterator', 'generator', 'map'
FORMS = ('tuple', 'list', 'set', 'frozenset', 'iterator', 'generator', 'map', 'dict', 'keys')
HOWS = ('whatareyou', 'whatareyou', 'obj2what', 'what', 'what', 'what', 'call', 'What', 'plain')
OTHERS = ('other', 'other', u'\xf1', 'A', '', 'two words')
KINDS = gen.PLAIN + ('what', 'W')


def form_of(keys, form):
    """Some iterable with the keys."""
    if form == 'iterator':
        return iter(list(keys))
    if form == 'generator':
        return (k for k in list(keys))
    if form == 'map':
        return map(str, list(keys))
    if form == 'dict':
        return dict.fromkeys(keys)
    if form == 'keys':
        return dict.fromkeys(keys).keys()
    return {'tuple': tuple, 'list': list, 'set': set, 'frozenset': frozenset}[form](keys)


def failing(keys, error):
    for k in keys:
        yield k
    raise error


class Shape(object):
    """A class of the user, and what is known of it."""

    def __init__(self, name, kind, attrs, slots, props, cattrs):
        self.name, self.kind, self.slots, self.props, self.cattrs = name, kind, slots, props, cattrs
        body = {'__module__': 'user'}
        for k, spec in cattrs.items():
            body[k] = gen.build(spec)
        for k, spec in props.items():
            body[k] = property(self.getter(spec))
        base = {'list': list, 'dict': dict, 'tuple': tuple}.get(kind, object)
        if slots:
            class_ = type(str(name), (base,), dict(body, __slots__=tuple(slots) + ('__dict__', '__weakref__')))
            if kind == 'subclass':
                # slots of the base, attributes of the subclass
                class_ = type(str(name), (class_,), {'__module__': 'user'})
        else:
            class_ = type(str(name), (base,), body)
        self.class_ = class_

    @staticmethod
    def getter(spec):
        if spec[0] == 'boom':
            def get(_):
                raise EXCS[spec[1]]('user code')
        else:
            value = gen.build(spec)

            def get(_):
                return value
        return get


class Thing(object):
    """An instance of a class of the user, or a whatable function."""

    def __init__(self, shape, attrs, items, options):
        self.shape, self.attrs, self.items, self.options = shape, dict(attrs), items, options
        if shape is None:
            self.real = None
            return
        values = [gen.build(s) for s in items]
        args = {'list': (values,), 'tuple': (values,), 'dict': (enumerate(values),)}.get(shape.kind, ())
        self.real = shape.class_(*args)
        for k, spec in self.attrs.items():
            setattr(self.real, k, gen.build(spec))

    def conf(self, options):
        """{key: specification}, or the name of the error that it must raise."""
        if self.shape is None:
            return dict(self.attrs)
        conf = {}
        if options.get('add_class'):
            conf.update(self.shape.cattrs)
        own = {k: v for k, v in self.attrs.items() if k not in self.shape.slots}
        if options.get('add_dict', True):
            conf.update(own)
        if options.get('add_slots', True):
            conf.update({k: v for k, v in self.attrs.items() if k in self.shape.slots})
        if options.get('add_properties', True):
            for k, v in sorted(self.shape.props.items()):
                if v[0] == 'boom':
                    return v[1]
                conf[k] = v
        if self.shape.kind in ('list', 'tuple'):
            conf['seq'] = [self.shape.kind, self.items]
        elif self.shape.kind == 'dict':
            conf['seq'] = ['dict', [[['int', i], s] for i, s in enumerate(self.items)]]
        prefix, postfix = options.get('exclude_prefix', '_'), options.get('exclude_postfix', '_')
        excludes = options.get('excludes', ('what',))
        return {k: v for k, v in conf.items() if not (prefix and k[:len(prefix)] == prefix) and
                not (postfix and k[-len(postfix):] == postfix) and k not in excludes}


class C25(Prop):
    ID = 'C25'
    LOOKALIKES = ({'ab': 'A', 'an': 'B', 'na': 'a2'},)
    RUNS = {'quick': 4000, 'thorough': 100000}
    RULE = 'Half of the runs are histories of 4-24 operations in one thread; the others, 2-3 threads with up to 9 ' \
           'operations each under a random or PCT schedule: describing objects (with attributes, slots, properties, ' \
           'class attributes, items), functions, ongoing calls and configurations with all kinds of options, given ' \
           'in nine kinds of iterables; decorating classes, instances and functions with them, and describing their ' \
           'instances many times while they change and the caller changes the options that it gave; ids with and ' \
           'without non id keys, and with length limits around their length. Properties and iterables fail at ' \
           'times, some operations are interrupted.'
    REAL = ('whatami.what', 'whatami.misc (trim_dict, config_dict_for_object)', 'whatami.whatutils')
    STUB = ('thread scheduler', 'interrupts', 'user classes, functions and iterables')
    NEED_PROBES = ('right', 'failed', 'excluded', 'non-ids', 'disabled', 'shortened', 'fits', 'changed', 'spoiled',
                   'interrupted', 'concurrent', 'iterator', 'again', 'function', 'class', 'instance', 'broken-options', 'renamed', 'unset')

    def prepare(self):
        from whatami import What, whatable
        import whatami.whatutils     # noqa

        class A(object):
            pass
        What('w', {'v': whatable(A)()}).id(maxlength=2)

    # --- Plans

    def options(self, rng):
        options = {}
        for k in ('add_dict', 'add_slots', 'add_properties'):
            if rng.random() < .15:
                options[k] = False
        if rng.random() < .5:
            options['exclude_prefix'] = rng.choice(FIXES)
        if rng.random() < .5:
            options['exclude_postfix'] = rng.choice(FIXES)
        if rng.random() < .6:
            options['excludes'] = rng.sample(NAMES, rng.randrange(4))
        if rng.random() < .6:
            options['non_id_keys'] = rng.sample(NAMES, rng.randrange(4))
        if rng.random() < .1:
            options['add_class'] = True
        if '_' not in (options.get('exclude_prefix', '_'), options.get('exclude_postfix', '_')):
            # python has its own properties and attributes of classes
            options.pop('add_class', None)
            options['add_properties'] = False
        return options

    def shape(self, rng):
        names = rng.sample(NAMES[:-1], 9)
        names.sort(key='__p'.__eq__, reverse=True)      # python mangles slots, not attributes
        kind = rng.choice(('object', 'object', 'object', 'slots', 'slots', 'subclass', 'list', 'dict', 'tuple'))
        attrs, rest = names[:5], names[5:]
        return {'kind': kind, 'name': rng.choice(('A', 'B', 'Model')),
                'attrs': [[k, gen.value(rng, 1, kinds=KINDS)] for k in attrs[:rng.randrange(6)]],
                'slots': [[k, gen.value(rng, 1, kinds=KINDS)] for k in rest[:rng.randrange(1, 3)]]
                if kind in ('slots', 'subclass') else [],
                'props': [[k, ['boom', rng.choice(USER_ERRORS)] if rng.random() < .15 else gen.value(rng, 1, kinds=KINDS)]
                          for k in rest[2:2 + rng.choice((0, 0, 1, 2))]],
                'cattrs': [[k, ['int', rng.randrange(9)]] for k in rng.sample(NAMES[:3], rng.randrange(2))],
                'unset': rng.random() < .3,
                'items': [gen.scalar(rng) for _ in range(rng.randrange(3))]}

    def make_plan(self, rng, index, tier):
        faults, n = [], 0
        alone = rng.random() < .5
        pfault = rng.choice((0, 0, .15, .4))
        threads = []
        for _ in range(1 if alone else rng.choice((2, 2, 3))):
            ops = []
            for _ in range(rng.randrange(4, 25) if alone else rng.randrange(1, 10)):
                op = {'id': n, 'seed': rng.randrange(1 << 30), 'on': rng.randrange(30)}
                n += 1
                r = rng.random()
                if r < .25:
                    op.update(do='decorate', what=rng.choice(('class', 'class', 'instance', 'function')),
                              called=rng.random() < .4, options=self.options(rng), shape=self.shape(rng),
                              form=rng.choice(FORMS), broken=rng.random() < .08)
                elif r < .8:
                    op.update(do='describe', how=rng.choice(HOWS), options=self.options(rng), form=rng.choice(FORMS),
                              broken=rng.random() < .05, out=rng.choice(
                                  ('id', 'id', 'nonids', 'str', 'keys', 'allkeys', 'limit', 'limit', 'positional',
                                   'copy', 'posid', 'posid', 'wrong')),
                              spoil=rng.choice(NAMES) if rng.random() < .3 else None,
                              limit=rng.choice((-1, 0, 1, -1, 1000)), near=rng.random() < .6,
                              name=rng.choice(OTHERS) if rng.random() < .3 else None)
                    maybe_fault(rng, faults, op['id'], pfault, 60)
                elif r < .92:
                    op.update(do='change', key=rng.choice(NAMES[:-1]), value=gen.value(rng, 1, kinds=KINDS))
                else:
                    op.update(do='spoil', key=rng.choice(NAMES))
                ops.append(op)
            threads.append(ops)
        return {'threads': threads, 'faults': faults, 'alone': alone,
                'first': [{'shape': self.shape(rng), 'options': self.options(rng), 'form': rng.choice(FORMS)}
                          for _ in range(2)],
                'sched': {'kind': 'none'} if alone else sched(rng, nsteps=500)}

    # --- Running

    def real_options(self, options, form, error=None):
        real = dict(options)
        for k in ('excludes', 'non_id_keys'):
            if k in real:
                real[k] = form_of(real[k], form) if error is None else failing(real[k], error)
                if form in ('iterator', 'generator', 'map') and real[k]:
                    self.sim.probe('iterator')
        return real

    @staticmethod
    def function(attrs):
        names = sorted(attrs)
        scope = {'_d%d' % i: gen.build(attrs[k]) for i, k in enumerate(names)}
        exec('def f(%s):\n    pass' % ', '.join('%s=_d%d' % (k, i) for i, k in enumerate(names)), scope)
        return scope['f']

    def new(self, spec, real, options, what, called, owner):
        from whatami import whatable
        if what != 'function':
            if spec['kind'] in ('list', 'dict', 'tuple') and options.get('add_class'):
                # these have their own attributes
                options, real = ({k: v for k, v in o.items() if k != 'add_class'} for o in (options, real))
            if options.get('add_class'):
                # they are also attributes of the class
                options, real = (dict(o, add_properties=True, add_slots=True) for o in (options, real))
        if what == 'function':
            attrs = {k: v for k, v in spec['attrs']}
            thing = Thing(None, attrs, (), options)
            f = self.function(attrs)
            thing.real = whatable(**real)(f) if called else whatable(f, **real)
            thing.name = 'f'
        else:
            attrs = dict((k, v) for k, v in spec['attrs'] + spec['slots'])
            shape = Shape(spec['name'], spec['kind'], attrs, [k for k, _ in spec['slots']],
                          dict((k, v) for k, v in spec['props']), {
                              k: v for k, v in spec['cattrs'] if k not in attrs and k not in dict(spec['props'])})
            if what == 'class':
                got = whatable(**real)(shape.class_) if called else whatable(shape.class_, **real)
                if got is not shape.class_:
                    raise Violation('class', 'decorating a class gave other thing')
            if spec['unset'] and spec['slots'] and not options.get('add_class'):
                # a slot without a value
                del attrs[spec['slots'][0][0]]
                self.sim.probe('unset')
            thing = Thing(shape, attrs, spec['items'], options)
            thing.name = spec['name']
            if what == 'instance':
                if whatable(thing.real, **real) is not thing.real:
                    raise Violation('instance', 'decorating an object gave other thing')
        self.sim.probe(what)
        thing.decorated = what
        thing.owner = owner
        thing.given = real
        thing.times = 0
        self.things.append(thing)

    def execute(self, plan, make_sim):
        sim = self.sim = make_sim(sched=plan['sched'], faults=plan['faults'], files=module_files())
        self.things, self.pending = [], {}
        for f, what in zip(plan['first'], ('class', 'function')):
            options = {k: v for k, v in f['options'].items() if k != 'add_class'}
            self.new(f['shape'], self.real_options(options, f['form']), options, what, False, None)
        run_concurrently(sim, plan['threads'], self.perform, canon=lambda v: v if isinstance(v, str) else None,
                         after=self.after)
        for thing in self.things:
            try:
                out = 'ok', (thing.real.what().id(), None)
            except Exception as e:
                out = 'exc', e
            self.judge({'out': 'id', 'how': 'what', 'do': 'final'}, out, False, thing, thing.options)
        if len(plan['threads']) > 1:
            sim.probe('concurrent')
        sim.probe('nontrivial')

    def perform(self, th, op):
        do = op['do']
        rng = rng_for(op['seed'])
        if do == 'decorate':
            error = InjectedError('iterable') if op['broken'] else None
            options = op['options']
            if 'excludes' in options and (op['what'] == 'instance' or options.get('add_class')):
                # it has one more attribute
                options = dict(options, excludes=options['excludes'] + ['what'])
            real = self.real_options(options, op['form'], error)
            broken = error if op['broken'] and set(options) & {'excludes', 'non_id_keys'} else None
            self.pending[op['id']] = broken

            def decorate():
                self.new(op['shape'], real, options, op['what'], op['called'], th.tid)
            return decorate
        mine = [t for t in self.things if t.owner == th.tid]
        if do == 'change':
            mine = [t for t in mine if t.shape is not None]
            if not mine:
                return lambda: None
            thing = mine[op['on'] % len(mine)]
            if op['key'] in thing.shape.props:
                return lambda: None

            def change():
                slot = op['key'] in thing.shape.slots
                if op['key'] in thing.attrs and rng.random() < .5 and not (slot and thing.options.get('add_class')):
                    if slot:
                        self.sim.probe('unset')
                    delattr(thing.real, op['key'])
                    del thing.attrs[op['key']]
                else:
                    setattr(thing.real, op['key'], gen.build(op['value']))
                    thing.attrs[op['key']] = op['value']
                self.sim.probe('changed')
            return change
        if do == 'spoil':
            if not mine:
                return lambda: None
            thing = mine[op['on'] % len(mine)]

            return lambda: self.spoil(thing.given, op['key'])
        return self.description(th, op)

    def spoil(self, options, key):
        """The caller changes the options that it gave."""
        for k in ('excludes', 'non_id_keys'):
            given = options.get(k)
            if isinstance(given, list):
                given.append(key)
                self.sim.probe('spoiled')
            elif isinstance(given, set):
                given.add(key)
                self.sim.probe('spoiled')
            elif isinstance(given, dict):
                given.clear()
                self.sim.probe('spoiled')

    def description(self, th, op):
        from whatami import What
        from whatami.what import whatareyou
        from whatami.whatutils import obj2what, call2what
        things = [t for t in self.things if t.owner in (None, th.tid)]
        thing = things[op['on'] % len(things)]
        how, options = op['how'], op['options']
        error = InjectedError('iterable') if op['broken'] else None
        if how == 'what':
            options = thing.options
            error = None
        elif how == 'plain':
            options = {k: v for k, v in options.items() if k != 'add_class'}
        elif how in ('call', 'What'):
            options = {k: v for k, v in options.items() if k == 'non_id_keys'}
        else:
            things = [t for t in things if t.shape is not None]
            thing = things[op['on'] % len(things)]
            if how == 'obj2what' or thing.shape.cattrs or thing.shape.props or thing.shape.slots or \
                    thing.shape.kind in ('list', 'tuple', 'dict'):
                # what a class has is told by C24
                options = {k: v for k, v in options.items() if k != 'add_class'}
            if thing.decorated == 'class' and options.get('add_class') or thing.decorated == 'instance':
                # it has a method what more
                options = dict(options, excludes=sorted(set(options.get('excludes', ())) | {'what'}))
        real = self.real_options(options, op['form'], error)
        if not set(options) & {'excludes', 'non_id_keys'}:
            error = None
        conf = {k: v for k, v in thing.attrs.items()}
        if how in ('whatareyou', 'obj2what', 'plain') and op['name'] is not None:
            real['name_override'] = op['name']
            self.sim.probe('renamed')
        if how == 'whatareyou':
            def make():
                return whatareyou(thing.real, **real)
        elif how == 'plain':
            # a function, with the parameters that thing has as attributes
            f = self.function({k: v for k, v in conf.items() if k != '__p'})
            prefix, postfix = options.get('exclude_prefix', '_'), options.get('exclude_postfix', '_')
            thing = Thing(None, {
                k: v for k, v in conf.items() if k != '__p' and not (prefix and k.startswith(prefix)) and
                not (postfix and k.endswith(postfix)) and k not in options.get('excludes', ('what',))}, (), options)
            thing.name = 'plain'
            f.__name__ = 'plain'

            def make():
                return obj2what(f, **real) if op['seed'] % 2 else whatareyou(f, **real)
        elif how == 'obj2what':
            def make():
                return obj2what(thing.real, force_inspect=True, **real)
        elif how == 'call':
            names = sorted(k for k in conf if k != '__p')
            scope = {'call2what': call2what, 'real': real}
            exec('def called(%s):\n    return call2what(**real)' % ', '.join(names), scope)
            args = [gen.build(conf[k]) for k in names]
            thing = Thing(None, {k: conf[k] for k in names}, (), options)
            thing.name = 'called'

            def make():
                return scope['called'](*args)
        elif how == 'What':
            built = {k: gen.build(v) for k, v in conf.items()}
            thing = Thing(None, conf, (), options)
            thing.name = 'w'

            def make():
                return What('w', built, **real)
        else:
            thing.times += 1
            if thing.times > 1:
                self.sim.probe('again')

            def make():
                return thing.real.what()
        # what is known now; only this thread can change it
        told = thing.conf(options)
        name = real.get('name_override', thing.name)
        self.pending[op['id']] = thing, options, error, told, name
        limit = op['limit']
        if op['near'] and isinstance(told, dict):
            limit += len(self.text(thing, told, options, name)[0])

        def describe():
            w = make()
            if op['spoil'] is not None and how != 'what':
                self.spoil(real, op['spoil'])
            out = op['out']
            if out == 'posid':
                return (w.positional_id(), w.positional_id(non_ids_too=True), w.positional_id(maxlength=limit)), limit
            if out == 'id':
                return w.id(), None
            if out == 'nonids':
                return w.id(nonids_too=True), None
            if out == 'str':
                return str(w), None
            if out == 'keys':
                return w.keys(recursive=False), None
            if out == 'allkeys':
                return w.keys(recursive=False, non_ids_too=True), None
            if out == 'positional':
                return len(w.values(recursive=False)), limit
            if out == 'copy':
                c = w.copy(deep=False)
                ids = c.id(), c.id(nonids_too=True)
                c.non_id_keys.clear()
                c.conf.clear()
                return ids + (w.id(),), None
            if out == 'wrong':
                # changing the configuration, not the thing
                w.conf.clear()
                w.non_id_keys.update(NAMES)
                if how == 'What' or op['spoil'] is not None or op['form'] in ITERATORS:
                    return None, None
                return make().id(), None
            return w.id(maxlength=limit), limit
        return describe

    def after(self, op, out, fired):
        if op['id'] not in self.pending:
            if out[0] == 'exc':
                raise out[1]
            return
        if op['do'] == 'decorate':
            broken = self.pending.pop(op['id'])
            if broken is not None and fired is False:
                self.sim.probe('broken-options')
                if out[0] == 'ok' or out[1] is not broken:
                    raise Violation('hidden', 'the options failed, but decorating with them gave %s' % short(out[1]))
            elif out[0] == 'exc' and not fired:
                raise Violation('error', 'decorating failed with %s' % short(out[1]))
            return
        thing, options, error, told, name = self.pending.pop(op['id'])
        self.judge(op, out, fired and out[0] == 'exc', thing, options, error, told, name)

    @staticmethod
    def text(thing, conf, options, name):
        """The ids without and with non id keys."""
        non_ids = set(options.get('non_id_keys') or ())
        if thing.shape is None and thing.name == 'f':
            non_ids |= set(options.get('excludes', ('what',)))
        kvs = [[k, conf[k]] for k in sorted(conf)]
        return gen.call(name, [kv for kv in kvs if kv[0] not in non_ids]), gen.call(name, kvs), \
            [k for k, _ in kvs if k not in non_ids], [k for k, _ in kvs]

    def limited(self, text, limit):
        if 0 < limit < len(text):
            self.sim.probe('shortened')
            return hashlib.sha1(text.encode('utf-8')).hexdigest()
        if limit > 0:
            self.sim.probe('fits')
        return text

    @staticmethod
    def positional(name, conf, keys, non_ids_too):
        """The id with only the values."""
        values = []

        def add(spec):
            values.append(gen.ref(spec))
            if spec[0] == 'what':
                for k, v in sorted(spec[2], key=lambda kv: kv[0]):
                    if non_ids_too or len(spec) < 5 or k not in spec[4]:
                        add(v)
        for k in keys:
            add(conf[k])
        return '%s(%s)' % (name, ','.join(values))

    def judge(self, op, out, interrupted, thing, options, error=None, conf=None, name=None):
        sim = self.sim
        if interrupted:
            sim.probe('interrupted')
            return
        if conf is None:
            conf = thing.conf(options)
        name = thing.name if name is None else name
        asked = 'describing %s %r by %s with %r' % (thing.name, sorted(thing.attrs), op['how'], options)
        if not isinstance(conf, dict) or error is not None:
            sim.probe('failed')
            errors = [EXCS[conf]] if not isinstance(conf, dict) else []
            if 'StopIteration' == conf:
                errors.append(RuntimeError)
            if out[0] == 'ok' or not (out[1] is error or isinstance(out[1], tuple(errors))):
                raise Violation('hidden', 'user code failed with %s, but %s gave %s' % (
                    error or conf, asked, short(out[1])))
            return
        if out[0] == 'exc':
            raise Violation('error', '%s failed with %s' % (asked, short(out[1])))
        got, limit = out[1]
        without, all_, keys, allkeys = self.text(thing, conf, options, name)
        if len(keys) < len(allkeys):
            sim.probe('non-ids')
        if len(allkeys) < len(thing.attrs):
            sim.probe('excluded')
        if options.get('exclude_prefix', '_') in (None, '') or options.get('exclude_postfix', '_') in (None, ''):
            sim.probe('disabled')
        must = {'id': without, 'nonids': all_, 'str': all_, 'keys': keys, 'allkeys': allkeys,
                'positional': len(keys), 'copy': (without, all_, without)}.get(op['out'])
        if op['out'] == 'wrong':
            if got is None:
                return
            must = without
        if op['out'] == 'posid':
            must = [self.positional(name, conf, ks, ks is allkeys) for ks in (keys, allkeys, keys)]
            must[2] = self.limited(must[2], limit)
            must = tuple(must)
        if op['out'] == 'limit':
            must = self.limited(without, limit)
        if got != must:
            raise Violation('id', '%s (%s%s) gave %s, must give %s' % (
                asked, op['out'], '' if limit is None else ' %d' % limit, short(got, 900), short(must, 900)))
        sim.probe('right')


PROP = C25()
