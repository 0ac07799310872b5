# coding=utf-8
"""C10: a failed description never turns into a wrong id."""

from .. import core, gen
from ..core import Violation, EXCS
from ..runner import Prop
from .common import module_files, maybe_fault, short, USER_ERRORS

BOMBS = []       # those of the current run, in order of construction
FORMS = ('prop', 'prop', 'what', 'what', 'what_late', 'FL', 'dict', 'list', 'tuple', 'set', 'str', 'str0x', 'slot',
         'inherited', 'override') + 2 * ('arr', 'arr2', 'series', 'frame')
HASHED = ('arr', 'arr2', 'series', 'frame')        # their elements fail while they are pickled to be hashed
BASE_ERRORS = ('KeyboardInterrupt', 'SystemExit', 'GeneratorExit')


class Trigger(object):
    """Decides if a call to user code fails."""

    def __init__(self):
        self.exc = None
        self.at = 0
        self.calls = 0
        self.raised = []

    def arm(self, exc, at, again):
        self.exc, self.at, self.again = exc, at, again
        self.calls = 0

    def disarm(self):
        self.exc = None

    def __call__(self):
        if self.exc is None:
            return
        self.calls += 1
        if self.calls == self.at or (self.again and self.calls > self.at):
            e = EXCS[self.exc]('user code')
            self.raised.append(e)
            raise e


class Elem(object):
    """An element of an array that fails when pickled."""

    def __init__(self, n, trigger=None):
        self.n, self.trigger = n, trigger

    def __reduce_ex__(self, protocol):
        if self.trigger is not None:
            self.trigger()
        return Elem, (self.n,)


def hashed(form, trigger=None):
    import numpy as np
    import pandas as pd
    e = [Elem(n, trigger) for n in range(5)]
    if form == 'arr':
        values = [e[0], 'b', {'k': e[1], 'a': 1, 'z': [e[2], {'x': e[3], 'c': None}]}, (1, e[4])]
    elif form == 'arr2':
        values = [{'q': {'p': e[0], 'b': 2}, 'a': [{'d': e[1], 'c': 3}]}, {1: 'a', 'c': e[2]}]
    else:
        values = [{'q': 1, 'b': {'y': e[0], 'x': 2}}, None, [e[1]], 2.5]
    a = np.empty(len(values), dtype=object)
    for i, v in enumerate(values):
        a[i] = v
    return a if form.startswith('arr') else pd.Series(a) if form == 'series' else pd.DataFrame({'c': a})


def has_hashed(spec):
    return isinstance(spec, list) and (spec[:1] == ['bomb'] and spec[1] in HASHED or any(map(has_hashed, spec)))


GOLDEN = {}      # the ids of the above when nothing fails


class Bomb(object):
    """['bomb', form, name, attrs]"""

    @staticmethod
    def gen(rng, depth, nasty, kinds):
        return ['bomb', rng.choice(FORMS), rng.choice(gen.NAMES), gen.kvs(rng, depth, nasty=nasty, kinds=kinds)]

    @staticmethod
    def build(spec, rec):
        from whatami import What, whatable
        from whatami.whatutils import FunctionLike
        _, form, name, attrs = spec
        trigger = Trigger()
        BOMBS.append(trigger)
        attrs = {k: rec(v) for k, v in attrs}
        if form in HASHED:
            return hashed(form, trigger)

        def prop(self):
            trigger()
            return 'p'
        ns = {}
        if form in ('prop', 'inherited', 'FL', 'slot'):
            ns['prop'] = property(prop)
        if form in ('what', 'what_late', 'override'):
            def what(self):
                if form != 'what_late':
                    trigger()
                conf = {}
                for k, v in self.conf.items():
                    conf[k] = v
                if form == 'what_late':
                    trigger()
                return What(name, conf)
            ns['what'] = what
        if form == 'str':
            def to_str(self):
                trigger()
                return '%s(told=1)' % name
            return type(name, (object,), {'__str__': to_str})()
        if form == 'str0x':
            def to_str(self):
                trigger()
                return '<%s object at 0x7f0000>' % name
            return type(name, (object,), {'__str__': to_str})()
        if form in ('list', 'tuple', 'set'):
            base = {'list': list, 'tuple': tuple, 'set': set}[form]

            def iterate(self):
                for x in base.__iter__(self):
                    try:
                        trigger()
                    except StopIteration:
                        raise EXCS['InjectedError']('generators cannot raise StopIteration')
                    yield x
            return type(name, (base,), {'__iter__': iterate})([rec(['int', 1]), 'b'])
        if form == 'dict':
            def items(self):
                trigger()
                return dict.items(self)
            return type(name, (dict,), {'items': items})(attrs)
        if form == 'FL':
            obj = type(name, (FunctionLike,), ns)()
        elif form == 'slot':
            obj = whatable(type(name, (object,), dict(ns, __slots__=tuple(attrs))))()
        elif form == 'inherited':
            obj = type(name, (whatable(type('Base', (object,), ns)),), {})()
        elif form == 'prop':
            obj = whatable(type(name, (object,), ns))()
        elif form == 'override':
            obj = type('Duck', (whatable(type('Base', (object,), {})),), ns)()
            obj.conf = attrs
            return obj
        else:
            obj = type('Duck', (object,), ns)()
            obj.conf = attrs
            return obj
        for k, v in attrs.items():
            setattr(obj, k, v)
        return obj

    @staticmethod
    def ref(spec):
        _, form, name, attrs = spec
        if form in HASHED:
            return GOLDEN[form]
        if form == 'str':
            return name + '(told=1)'
        if form == 'str0x':
            return name + '()'
        if form == 'list':
            return "%s(seq=[1,'b'])" % name
        if form == 'tuple':
            return "%s(seq=(1,'b'))" % name
        if form == 'set':
            return "%s(seq={'b',1})" % name
        if form == 'dict':
            return '%s(seq={%s})' % (name, ','.join(sorted("'%s':%s" % (k, gen.ref(v)) for k, v in attrs)))
        if form in ('what', 'what_late', 'override'):
            return gen.call(name, attrs)
        return gen.call(name, attrs + [['prop', ['str', 'p']]])


KINDS = gen.PLAIN + ('what', 'W', 'duck', 'fn', 'partial', 'odict', 'wfn', 'lsub', 'bomb', 'bomb', 'bomb')
ENTRIES = ('id', 'id', 'what2id', 'obj2what', 'is_whatable', 'build_string', 'str', 'mlexp', 'whatareyou', 'nested',
           'positional', 'copy', 'whatadd', 'registry', 'recorder')      # the last two take (simulated) locks


def tops(rng):
    r = rng.random()
    if r < .3:
        return ['what', rng.choice(gen.NAMES), gen.kvs(rng, 3, kinds=KINDS), None, []]
    if r < .5:
        return Bomb.gen(rng, 2, False, KINDS)
    if r < .7:
        return ['W', rng.choice(gen.NAMES), gen.kvs(rng, 3, kinds=KINDS)]
    if r < .8:
        return ['duck', rng.choice(gen.NAMES), gen.kvs(rng, 3, kinds=KINDS)]
    if r < .9:
        return ['wfn', rng.choice(gen.NAMES), gen.kvs(rng, 3, kinds=KINDS)]
    return [rng.choice(('fn', 'partial')), rng.choice(gen.NAMES), gen.kvs(rng, 3, kinds=KINDS)]


class C10(Prop):
    ID = 'C10'
    RUNS = {'quick': 4000, 'thorough': 80000}
    RULE = 'Histories of 3-12 descriptions of objects with user code (what() methods, properties, __str__, iterators, ' \
           'items) that fails at some of its calls, at any depth, with any kind of exception, and interrupts at any ' \
           'line of the library; plus very deep objects that overflow the stack.'
    REAL = ('whatami.what', 'whatami.plugins', 'whatami.misc', 'whatami.whatutils', 'whatami.registry')
    STUB = ('user classes', 'interrupts')
    NEED_PROBES = ('user-failure', 'interrupted', 'right', 'whatamised', 'deep', 'bottom', 'overflow') + USER_ERRORS

    def prepare(self):
        import whatami.whatutils  # noqa
        # No threads here, and at the bottom of the stack our locks would break where the real ones do not (those of
        # the import system are created all the time)
        core.uninstall_lock_seam()
        gen.EXTRA['bomb'] = Bomb
        whatami.id2what('f(x=1)')
        for form in HASHED:
            ids = {whatami.What('w', {'v': hashed(form)}).id() for _ in range(2)}
            if len(ids) > 1:
                raise Violation('unstable', 'the id of an array of objects changes: %r' % sorted(ids))
            GOLDEN[form] = ids.pop()[len('w(v='):-1]

    def make_plan(self, rng, index, tier):
        gen.EXTRA['bomb'] = Bomb
        ops, faults = [], []
        specs = [tops(rng) for _ in range(rng.randrange(1, 4))]
        pfault = rng.choice((0, .2, .5))
        for i in range(rng.randrange(3, 13)):
            op = {'id': i}
            r = rng.random()
            if r < .84:
                op.update(do=rng.choice(ENTRIES), spec=rng.randrange(len(specs)), arm=[])
                if rng.random() < .65:
                    for _ in range(rng.choice((1, 1, 1, 2))):
                        op['arm'].append([rng.randrange(6), rng.choice((1, 1, 1, 2, 2, 3, 4, 6)),
                                          rng.choice(BASE_ERRORS if rng.random() < .1 else USER_ERRORS),
                                          rng.random() < .3])
                maybe_fault(rng, faults, i, pfault, rng.choice((40, 100, 500)))
            elif r < .855:
                op.update(do='bottom', spec=rng.randrange(len(specs)), entry=rng.choice(ENTRIES[:-2]),
                          margins=[2, 60])
            elif r < .97:
                op.update(do='whatamise', how=rng.choice(('instance', 'class', 'function', 'inplace', 'flag')),
                          conf=gen.kvs(rng, 2, kinds=KINDS))
                maybe_fault(rng, faults, i, .6, rng.choice((20, 60)))
            else:
                op.update(do='deep', depth=rng.choice((20, 100, 400, 2000)),
                          kinds=[rng.choice(('list', 'what', 'W', 'duck', 'dict', 'tuple', 'partial', 'set'))
                                 for _ in range(rng.randrange(1, 4))])
            ops.append(op)
        return {'ops': ops, 'faults': faults, 'specs': specs}

    def execute(self, plan, make_sim):
        gen.EXTRA['bomb'] = Bomb
        sim = make_sim(faults=plan['faults'], files=module_files())
        th = sim.enter()
        del BOMBS[:]
        objs, owned = [], []
        for spec in plan['specs']:
            n = len(BOMBS)
            objs.append(gen.build(spec))
            owned.append(BOMBS[n:])
        for op in plan['ops']:
            if op['do'] == 'whatamise':
                self.whatamise(sim, th, op)
                continue
            if op['do'] == 'deep':
                self.deep(sim, th, op)
                continue
            i = op['spec'] % len(objs)
            spec, obj, bombs = plan['specs'][i], objs[i], owned[i]
            if op['do'] == 'bottom':
                # numpy dies where there is no stack left, whoever uses it
                if not has_hashed(spec):
                    self.bottom(sim, th, op, spec, obj)
                continue
            for which, at, exc, again in op['arm']:
                if bombs:
                    bombs[which % len(bombs)].arm(exc, at, again)
            before = [len(b.raised) for b in bombs]
            fn, expected = self.entry(op['do'], spec, obj)
            out, _, _, fired = sim.op(th, op['id'], fn, canon=lambda v: v if isinstance(v, (str, bool)) else None)
            errors = [e for b, n in zip(bombs, before) for e in b.raised[n:]]
            for b in bombs:
                b.disarm()
            for e in errors:
                sim.count(type(e).__name__)
                sim.probe('user-failure')
            self.verdict(sim, op['do'], spec, out, errors, fired, expected)
            # and the next one is right
            if errors or fired:
                fn, expected = self.entry('id', spec, obj)
                again = fn()
                if again != expected:
                    raise Violation('next', 'after a failed %s of %s, the id is %r, must be %r' % (
                        op['do'], short(spec, 700), again, expected))
        if sim.probes.get('user-failure') or sim.probes.get('interrupted'):
            sim.probe('nontrivial')
        sim.leave()

    def verdict(self, sim, do, spec, out, errors, fired, expected):
        if out[0] == 'ok':
            if out[1] != expected:
                raise Violation('wrong', '%s of %s gave %s, must be %s; failures in user code: %r%s' % (
                    do, short(spec, 700), short(out[1], 500), short(expected, 500), errors,
                    '; interrupted' if fired else ''))
            sim.probe('right')
            return
        e = out[1]
        if fired:
            sim.probe('interrupted')
            return
        if not errors:
            raise Violation('error', '%s of %s raised %s: %s, and nothing failed' % (
                do, short(spec, 700), type(e).__name__, e))
        chain, seen = [e], set()
        while chain:
            x = chain.pop()
            if x is None or id(x) in seen:
                continue
            seen.add(id(x))
            if any(x is y for y in errors):
                sim.probe('told')
                return
            chain.extend((x.__cause__, x.__context__))
        raise Violation('another error', '%s of %s raised %s: %s, but user code failed with %r' % (
            do, short(spec, 700), type(e).__name__, e, errors))

    @staticmethod
    def entry(do, spec, obj):
        import whatami
        from whatami import What, whatareyou, is_whatable
        from whatami.plugins import WhatamiPluginManager
        from whatami.whatutils import what2id, obj2what, whatadd
        kind = spec[0]
        ref = gen.ref(spec)
        iswhat = kind == 'what'
        nested = "w(k=2,v=[%s,(1,%s)])" % (ref, ref)
        # what objects and what() methods are those that can be asked directly
        direct = kind in ('W', 'duck', 'wfn') or (
            kind == 'bomb' and spec[1] in ('prop', 'what', 'what_late', 'FL', 'slot', 'inherited', 'override'))
        if do == 'id' and not direct and not iswhat:
            do = 'wrapped'
        if do in ('what2id', 'obj2what', 'mlexp', 'registry', 'recorder') and not direct:
            do = 'wrapped'
        if do in ('positional', 'copy', 'whatadd', 'str') and not iswhat:
            do = 'wrapped'
        if do == 'whatareyou' and not (kind in ('W', 'fn', 'partial') or (kind == 'bomb' and spec[1] in (
                'prop', 'slot', 'inherited'))):
            do = 'nested'
        if do == 'is_whatable' and not direct:
            do = 'build_string'
        if do == 'id':
            return (lambda: (obj if iswhat else obj.what()).id()), ref
        if do == 'wrapped':
            return (lambda: What('w', {'v': obj}).id()), 'w(v=%s)' % ref
        if do == 'nested':
            return (lambda: What('w', {'v': [obj, (1, obj)], 'k': 2}).id()), nested
        if do == 'what2id':
            return (lambda: what2id(obj)), ref
        if do == 'obj2what':
            return (lambda: obj2what(obj).id()), ref
        if do == 'is_whatable':
            return (lambda: is_whatable(obj)), True
        if do == 'build_string':
            return (lambda: WhatamiPluginManager.build_string(obj)), ref
        if do == 'str':
            return (lambda: str(obj)), ref
        if do == 'mlexp':
            return (lambda: whatami.mlexp_info_helper('t', data_setup=obj)['data_setup']), ref
        if do == 'whatareyou':
            return (lambda: whatareyou(obj).id()), ref
        if do == 'positional':
            return (lambda: obj.positional_id()), C10.positional(spec)
        if do == 'copy':
            return (lambda: obj.copy().id()), ref
        if do == 'whatadd':
            added = [gen.ref([spec[0], spec[1], spec[2] + [['zz', ['int', i]]], None, []]) for i in (1, 2)]
            return (lambda: whatadd(obj, 'zz', [1, 2])), added
        if do in ('registry', 'recorder'):
            def through():
                if do == 'registry':
                    from whatami.registry import WhatamiRegistry
                    r = WhatamiRegistry()
                    try:
                        r.register(obj, 'nick')
                    except BaseException:
                        if list(r.list()):
                            raise Violation('registry', 'a failed register left something behind')
                        raise
                    return r.nick2id('nick')
                from whatami.registry import Recorder
                r = Recorder(id_extractor=what2id)
                r.add([obj], x=1)
                return r.unique('id').pop()
            return through, ref
        raise ValueError(do)

    @staticmethod
    def positional(spec):
        values = []

        def flat(s):
            for _, v in sorted(s[2], key=lambda kv: kv[0]):
                values.append(gen.ref(v))
                if v[0] == 'what':
                    flat(v)
        flat(spec)
        return '%s(%s)' % (spec[1], ','.join(values))

    def whatamise(self, sim, th, op):
        """Adding a what() method is interrupted: the object ends up with a right one or without it."""
        from whatami import whatable, What
        from whatami.whatutils import what2id
        conf, how = op['conf'], op['how']
        del BOMBS[:]
        expected = gen.call('K', conf)
        if how in ('function', 'inplace'):
            target = gen.make_function('K', [(k, gen.build(v)) for k, v in conf])
            fn = lambda: whatable(target, modify_func_inplace=how == 'inplace')
        else:
            cls = type('K', (object,), {})
            inst = cls()
            for k, v in conf:
                setattr(inst, k, gen.build(v))
            target = cls if how == 'class' else inst
            fn = lambda: whatable(target)
            if how == 'flag':
                whatable(cls)
        out, _, _, fired = sim.op(th, op['id'], fn, canon=lambda v: None)
        sim.probe('whatamised')
        if out[0] == 'exc':
            if not fired:
                raise Violation('error', 'whatable(%s) raised %s: %s' % (how, type(out[1]).__name__, out[1]))
            sim.probe('interrupted')
            result = target
        else:
            result = out[1]
        if how == 'class':
            result = inst
        if out[0] == 'ok' or hasattr(result, 'what'):
            got = result.what().id()
            if got != expected:
                raise Violation('whatamised', 'whatable(%s): the id is %r, must be %r' % (how, got, expected))
        got = What('w', {'f': result}).id() if hasattr(result, 'what') or how in ('function', 'inplace') else None
        if got is not None and got != 'w(f=%s)' % expected:
            raise Violation('whatamised', 'whatable(%s): nested, the id is %r, must be %r' % (how, got, expected))
        # and it can be tried again
        if out[0] == 'exc':
            result = whatable(target, modify_func_inplace=how == 'inplace') if how in ('function', 'inplace') else \
                whatable(target)
            result = inst if how == 'class' else result
            got = what2id(result)
            if got != expected:
                raise Violation('whatamised', 'whatable(%s) again: the id is %r, must be %r' % (how, got, expected))

    def deep(self, sim, th, op):
        """The stack is not infinite."""
        from whatami import What, whatable
        obj, ref = 1, '1'
        cls = whatable(type('K', (object,), {}))
        for d in range(op['depth']):
            kind = op['kinds'][d % len(op['kinds'])]
            if kind in ('list', 'set'):
                obj, ref = [obj], '[%s]' % ref
            elif kind == 'tuple':
                obj, ref = (obj, 2), '(%s,2)' % ref
            elif kind == 'dict':
                obj, ref = {'k': obj}, "{'k':%s}" % ref
            elif kind == 'what':
                obj, ref = What('f', {'x': obj}), 'f(x=%s)' % ref
            elif kind == 'W':
                k = cls()
                k.x = obj
                obj, ref = k, 'K(x=%s)' % ref
            elif kind == 'duck':
                if d % 8:
                    continue      # what() is called twice by level, and again by each level
                obj, ref = gen.make_duck('g', [('x', obj)]), 'g(x=%s)' % ref
            else:
                from functools import partial
                obj, ref = partial(gen.make_function('p', [('x', 0)]), x=obj), 'p(x=%s)' % ref
        top = What('w', {'v': obj})
        out, _, _, _ = sim.op(th, op['id'], lambda: top.id(), trace=False, canon=lambda v: None)
        sim.log.pop()        # how much fits in the stack is not ours to decide
        sim.probe('deep')
        if out[0] == 'ok':
            if out[1] != 'w(v=%s)' % ref:
                raise Violation('deep', 'the id of a deep object is wrong: %s' % short(out[1]))
        else:
            sim.probe('overflow')

    def bottom(self, sim, th, op, spec, obj):
        """Describing when there is hardly any stack left."""
        fn, expected = self.entry(op['entry'], spec, obj)

        def dive(n, f):
            return dive(n - 1, f) if n else f()

        def limit():
            lo, hi = 10, 40000
            while hi - lo > 1:
                m = (lo + hi) // 2
                try:
                    dive(m, lambda: 0)
                    lo = m
                except RecursionError:
                    hi = m
            return lo
        n = limit()
        # several margins, as the stack each call needs is not ours to know
        for margin in range(*op['margins']):
            out, _, _, _ = sim.op(th, op['id'], lambda: dive(n - margin, fn), trace=False, canon=lambda v: None)
            sim.log.pop()
            sim.probe('bottom')
            if out[0] == 'exc':
                sim.probe('overflow')
            elif out[1] != expected:
                raise Violation('deep', '%s of %s with %d calls left in the stack gave %s, must be %s' % (
                    op['entry'], short(spec, 700), margin, short(out[1], 500), short(expected, 500)))

    def shrink_more(self, plan):
        for i in range(len(plan['specs'])):
            original = plan['specs'][i]
            if original[0] != 'bomb':
                for smaller in gen.shrink_value(original):
                    if smaller[0] == original[0]:
                        plan['specs'][i] = smaller
                        yield plan
                plan['specs'][i] = original


PROP = C10()
