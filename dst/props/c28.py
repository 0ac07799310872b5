# coding=utf-8
"""C28: the own what() of an object, and only that, describes it wherever it appears."""
import types
from functools import partial

from ..core import Violation, EXCS
from ..runner import Prop
from .common import module_files, maybe_fault, short, USER_ERRORS

FORMS = ('own', 'own', 'own', 'optional', 'needs', 'other', 'ducky', 'raises', 'classmethod', 'borrowed', 'static',
         'late')
VIAS = ('nested', 'nested', 'list', 'dict', 'key', 'tuple', 'set', 'deep', 'partial', 'default', 'curried', 'what2id',
        'what2id', 'obj2what', 'obj2what', 'force', 'is_whatable', 'registry', 'recorder', 'plugin', 'mlexp')
NEST = {'nested': ('f(x=', ')'), 'list': ('f(x=[1,', '])'), 'dict': ("f(x={'k':", '})'), 'tuple': ('f(x=(', ',2))'),
        'set': ('f(x={', '})'), 'deep': ("f(x=g(y=[{'k':", '}]))'), 'partial': ('f(x=user_function(x=', '))'),
        'default': ('f(x=<lambda>(y=', '))'), 'curried': ('f(x=user_function(x=', '))'), 'key': ('f(x={', ':1})')}
VALUES = (0, 1, 2, 7, 'v', None, True)


def text(v):
    return "'%s'" % v if isinstance(v, str) else str(v)


def user_function(y, x=3):
    return x, y


class Answer(object):
    """What some what() methods return, which is no What."""
    def __init__(self, n):
        self.n = n

    def id(self):
        return 'ducky-%s' % self.n


class C28(Prop):
    ID = 'C28'
    RUNS = {'quick': 4500, 'thorough': 80000}
    RULE = 'Histories of 6-30 calls over up to four objects of up to four classes: giving, replacing and taking away ' \
           'what() and id() methods of several kinds from objects and classes, by hand or decorating, changing ' \
           'attributes, and describing each object in 20 ways, with failing methods and interrupts.'
    REAL = ('whatami.what', 'whatami.plugins', 'whatami.misc', 'whatami.whatutils', 'whatami.registry')
    STUB = ('interrupts', 'user classes')
    NEED_PROBES = ('whatable', 'not-whatable', 'user-failure', 'interrupted', 'decorated', 'refused', 'own-id',
                   'changed-sides')

    def prepare(self):
        import whatami.whatutils  # noqa
        import whatami.registry  # noqa
        whatami.id2what('f(x=1)')

    # --- Plans

    def make_plan(self, rng, index, tier):
        faults = []
        nclasses, nobjects = rng.randrange(1, 5), rng.randrange(1, 5)
        classes = [rng.choice([None] + list(range(i))) if i else None for i in range(nclasses)]
        objects = [rng.randrange(nclasses) for _ in range(nobjects)]
        pfault = rng.choice((0, 0, .15, .4))
        forms = rng.sample(FORMS, rng.choice((2, 3, len(FORMS))))
        ops = []
        for i in range(rng.randrange(6, 31)):
            op = {'id': i}
            r = rng.random()
            on = ['class', rng.randrange(nclasses)] if rng.random() < .5 else ['object', rng.randrange(nobjects)]
            if i < 2 or r < .15:
                op.update(do='attach', on=on, form=rng.choice(forms), exc=rng.choice(USER_ERRORS),
                          other=rng.randrange(nobjects))
            elif r < .23:
                op.update(do='detach', on=on)
            elif r < .33:
                op.update(do='decorate', on=on, func=rng.random() < .4,
                          options=rng.choice(({}, {}, {'excludes': ['what', 'a']}, {'non_id_keys': ['a']},
                                              {'add_dict': False})))
                maybe_fault(rng, faults, i, pfault / 2, 60)
            elif r < .37:
                op.update(do=rng.choice(('give-id', 'give-id', 'take-id')), on=['class', rng.randrange(nclasses)])
            elif r < .47:
                op.update(do='change', object=rng.randrange(nobjects), key=rng.choice('ab'), value=rng.choice(VALUES))
            else:
                op.update(do='describe', object=rng.randrange(nobjects), via=rng.choice(VIAS))
                maybe_fault(rng, faults, i, pfault, rng.choice((30, 150, 400)))
            ops.append(op)
        return {'classes': classes, 'objects': objects, 'ops': ops, 'faults': faults}

    # --- The real things and the reference: for each class and object, the form of its own what(), if any

    def execute(self, plan, make_sim):
        sim = self.sim = make_sim(faults=plan['faults'], files=module_files())
        th = sim.enter()
        self.classes, self.bases = [], plan['classes']
        for i, base in enumerate(plan['classes']):
            self.classes.append(type('K%d' % i, (object if base is None else self.classes[base],), {
                '__init__': lambda obj, n: obj.__dict__.update(a=n, b='b%d' % n, _n=n),
                '__str__': lambda obj: 'text of %d' % obj._n, '__bool__': lambda obj, worth=i % 2 == 0: worth}))
        self.objects = [self.classes[c](i) for i, c in enumerate(plan['objects'])]
        self.kinds = plan['objects']
        self.attrs = [{'a': i, 'b': 'b%d' % i} for i in range(len(self.objects))]
        self.cwhat, self.owhat, self.cid = {}, {}, {}
        self.raised = None
        self.was = {}
        for op in plan['ops']:
            do = op['do']
            if do == 'describe':
                self.describe(th, op)
            elif do == 'decorate':
                self.decorate(th, op)
            elif do == 'attach':
                self.attach(op)
            elif do == 'detach':
                where, n = op['on']
                record = self.cwhat if where == 'class' else self.owhat
                if n in record:
                    del record[n]
                    delattr(self.classes[n] if where == 'class' else self.objects[n], 'what')
            elif do == 'give-id':
                n = op['on'][1]
                self.cid[n] = 'id-%d' % op['id']
                self.classes[n].id = lambda obj, got=self.cid[n]: got
            elif do == 'take-id':
                n = op['on'][1]
                if n in self.cid:
                    del self.cid[n]
                    del self.classes[n].id
            elif do == 'change':
                setattr(self.objects[op['object']], op['key'], op['value'])
                self.attrs[op['object']][op['key']] = op['value']
            self.check(op)
        if self.sim.probes.get('whatable') and self.sim.probes.get('not-whatable'):
            sim.probe('nontrivial')
        sim.leave()

    def check(self, op):
        for o, attrs in zip(self.objects, self.attrs):
            d = dict(o.__dict__)
            d.pop('what', None)
            d.pop('_n')
            if d != attrs or any(type(d[k]) is not type(attrs[k]) for k in d):
                raise Violation('changed', 'after %s an object has %s, must have %s' % (short(op), d, attrs))

    def function(self, op):
        """The function that goes for what."""
        from whatami import What
        form, n = op['form'], op['id']
        sim = self.sim

        def own(obj):
            sim.here('user')
            return What('own%d' % n, {'a': obj.a, 'n': n})
        if form in ('own', 'borrowed'):
            return own
        if form == 'optional':
            return lambda obj, more=None, *args, **kwargs: own(obj)
        if form == 'needs':
            return lambda obj, more: own(obj)
        if form == 'other':
            return lambda obj: (lambda: {'a': obj.a}, lambda: 'own%d(a=1)' % n, lambda: None, lambda: [1],
                                lambda: 7, lambda: b'own')[n % 6]()
        if form == 'ducky':
            return lambda obj: Answer(n)
        if form == 'classmethod':
            return lambda cls: What('cls%d' % n, {'n': n})
        if form == 'static':
            return lambda: What('static%d' % n, {'n': n})
        count = [0]

        def fails(obj):
            sim.here('user')
            count[0] += 1
            if form == 'late' and count[0] % 3:
                return own(obj)
            self.raised = EXCS[op['exc']]('user code')
            raise self.raised
        return fails

    def attach(self, op):
        where, n = op['on']
        form = op['form']
        f = self.function(op)
        if where == 'class':
            if form == 'borrowed':
                return
            self.cwhat[n] = dict(op)
            self.classes[n].what = classmethod(f) if form == 'classmethod' else \
                staticmethod(f) if form == 'static' else f
        else:
            if form == 'classmethod':
                return
            self.owhat[n] = dict(op)
            o = self.objects[n]
            o.what = f if form == 'static' else \
                types.MethodType(f, self.objects[op['other']] if form == 'borrowed' else o)

    def decorate(self, th, op):
        from whatami import whatable, What
        where, n = op['on']
        target = self.classes[n] if where == 'class' else self.objects[n]
        record = self.cwhat if where == 'class' else self.owhat
        kwargs = dict(op['options'])
        if op['func']:
            def func(obj):
                self.sim.here('user')
                return What('own%d' % op['id'], {'a': obj.a, 'n': op['id']})
            kwargs['whatfunc'] = func
        if where == 'class':
            old = self.of_class(n)
            # unbound methods could need arguments or return anything
            refuse = old is not None and old['form'] not in ('classmethod', 'flagged')
        else:
            old = self.of_object(n)
            refuse = old is not None and old['form'] in ('needs', 'other', 'ducky', 'static')
        fails = old is not None and old['form'] in ('raises', 'late') and where == 'object'
        self.raised = None
        before = target.__dict__.get('what')
        out, _, _, fired = self.sim.op(th, op['id'], lambda: whatable(target, **kwargs), canon=lambda v: None)
        story = 'decorating %s %d, with what %s' % (where, n, short(old))
        if fired and out[0] == 'exc':
            self.sim.probe('interrupted')
            if target.__dict__.get('what') is before:
                return
        elif fails and self.raised is not None:
            if out[0] == 'ok' or out[1] is not self.raised:
                raise Violation('error', '%s, must fail with the error of the user, gave %s' % (story, short(out[1])))
            self.sim.probe('user-failure')
            return
        elif refuse:
            self.sim.probe('refused')
            if out[0] == 'ok' or target.__dict__.get('what') is not before:
                raise Violation('accepted', '%s, must be refused' % story)
            return
        elif out[0] == 'exc':
            raise Violation('refused', '%s raised %s: %s' % (story, type(out[1]).__name__, out[1]))
        elif out[1] is not target:
            raise Violation('returned', '%s gave %s' % (story, short(out[1])))
        self.sim.probe('decorated')
        record[n] = {'form': 'flagged', 'id': op['id'], 'func': op['func'], 'options': op['options']}

    def of_class(self, c):
        while c is not None:
            if c in self.cwhat:
                return self.cwhat[c]
            c = self.bases[c]

    def of_object(self, o):
        return self.owhat[o] if o in self.owhat else self.of_class(self.kinds[o])

    def own_id(self, o):
        c = self.kinds[o]
        while c is not None:
            if c in self.cid:
                return self.cid[c]
            c = self.bases[c]

    def inspected(self, o, options=()):
        options = dict(options)
        keys = [k for k in 'ab' if k not in options.get('excludes', ()) and k not in options.get('non_id_keys', ())]
        if options.get('add_dict') is False:
            keys = []
        return 'K%d(%s)' % (self.kinds[o], ','.join('%s=%s' % (k, text(self.attrs[o][k])) for k in keys))

    def whatid(self, o, w):
        """The id of what what() returns, None if it is no What."""
        form, n = w['form'], w['id']
        if form in ('own', 'optional', 'late', 'raises'):
            return 'own%d(a=%s,n=%d)' % (n, text(self.attrs[o]['a']), n)
        if form == 'borrowed':
            return 'own%d(a=%s,n=%d)' % (n, text(self.attrs[w['other']]['a']), n)
        if form == 'flagged':
            return 'own%d(a=%s,n=%d)' % (n, text(self.attrs[o]['a']), n) if w['func'] else \
                self.inspected(o, w['options'])
        if form == 'classmethod':
            return 'cls%d(n=%d)' % (n, n)

    # --- Describing

    def describe(self, th, op):
        import whatami
        from whatami.whatutils import obj2what, what2id
        from whatami.registry import WhatamiRegistry, Recorder
        from whatami.plugins import WhatamiPluginManager
        o, via = op['object'], op['via']
        obj = self.objects[o]
        What = whatami.What

        def config(v):
            return lambda: What('f', {'x': v}).id()

        def late(x):
            # so that only the describing is interrupted
            return lambda: x.id()
        if via in ('default', 'curried', 'partial'):
            import toolz
            f = eval('lambda y=obj: y', {'obj': obj})
            f.__name__ = 'named'
            fn = config({'default': f, 'curried': toolz.curry(user_function, x=obj),
                         'partial': partial(user_function, x=obj)}[via])
        else:
            rec = Recorder(id_extractor=what2id)
            fn = {'nested': config(obj), 'list': config([1, obj]), 'dict': config({'k': obj}), 'tuple': config((obj, 2)),
                  'set': config({obj}), 'key': config({obj: 1}), 'deep': config(What('g', {'y': [{'k': obj}]})),
                  'what2id': lambda: what2id(obj), 'obj2what': lambda: obj2what(obj).id(),
                  'force': lambda: obj2what(obj, force_inspect=True).id(),
                  'is_whatable': lambda: whatami.is_whatable(obj),
                  'registry': lambda: WhatamiRegistry().nick_or_id(obj), 'recorder': lambda: list(rec.add([obj]))[0],
                  'plugin': lambda: WhatamiPluginManager.build_string(obj),
                  'mlexp': lambda: self.mlexp(obj)}[via]
        w = self.of_object(o)
        form = None if w is None else w['form']
        whatid = None if w is None else self.whatid(o, w)
        must = None
        if via in ('what2id', 'registry', 'recorder', 'mlexp'):
            if form == 'needs':
                return      # calling what() fails
            if form == 'ducky':
                must = 'ducky-%d' % w['id']
            elif form == 'static':
                must = 'static%d(n=%d)' % (w['id'], w['id'])
            elif whatid is not None:
                must = whatid
            elif self.own_id(o) is not None:
                must = self.own_id(o)
                self.sim.probe('own-id')
            else:
                must = self.inspected(o)
        elif via == 'force':
            must = self.inspected(o)
        elif via == 'obj2what':
            must = whatid or self.inspected(o)
        elif via == 'is_whatable':
            must = whatid is not None
        else:
            must = whatid or 'text of %d' % o
            if via != 'plugin':
                before, after = NEST[via]
                if via == 'default':
                    before = before.replace('<lambda>', 'named')
                must = before + must + after
        self.sim.probe('whatable' if whatid else 'not-whatable')
        if self.was.setdefault(o, bool(whatid)) != bool(whatid):
            self.sim.probe('changed-sides')
        self.raised = None
        out, _, _, fired = self.sim.op(th, op['id'], fn, canon=lambda v: None)
        story = 'describing through %s an object with what %s' % (via, short(w))
        if fired and out[0] == 'exc':
            self.sim.probe('interrupted')
            return
        if self.raised is not None:
            self.sim.probe('user-failure')
            if out[0] == 'ok' or self.raised not in (out[1], out[1].__cause__, out[1].__context__):
                raise Violation('error', '%s must give the error of the user, gave %s' % (story, short(out[1])))
            return
        if form == 'raises' and via != 'force':
            raise Violation('not-used', '%s: it was not used, giving %s' % (story, short(out[1])))
        if out[0] == 'exc':
            raise Violation('raised', '%s raised %s: %s' % (story, type(out[1]).__name__, out[1]))
        if out[1] != must or type(out[1]) is not type(must):
            raise Violation('id', '%s gave %s, must be %s' % (story, short(out[1]), short(must)))

    @staticmethod
    def mlexp(obj):
        from whatami.misc import mlexp_info_helper
        return mlexp_info_helper(title='t', model_setup=obj)['model_setup']


PROP = C28()
