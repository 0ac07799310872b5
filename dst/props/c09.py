# coding=utf-8
"""C09: describing an object neither changes it nor is affected by earlier descriptions."""
import gc

from .. import gen, node
from ..core import Violation, rng_for
from ..runner import Prop
from .common import module_files, maybe_fault, short
from . import ids, world

NSLOTS = 4
DESCRIBE = ('id', 'id', 'id', 'what2id', 'nonids', 'positional', 'flatten', 'keys', 'copy', 'deepcopy', 'set_copy',
            'to_dict', 'spoil', 'whatadd', 'confdict', 'maxlength', 'str', 'obj2what', 'nested')


class C09(Prop):
    ID = 'C09'
    RUNS = {'quick': 4000, 'thorough': 80000}
    RULE = 'Histories of 6-30 calls over up to four objects that can share parts: describing them in all possible ways ' \
           '(with interrupts at any line of the library), spoiling what was returned, changing their attributes and ' \
           'nested containers, undoing changes, discarding and creating objects.'
    REAL = ('whatami.what', 'whatami.plugins', 'whatami.misc', 'whatami.whatutils', 'whatami.parsers')
    STUB = ('interrupts', 'user classes')
    NEED_PROBES = ('described', 'mutated', 'undone', 'spoiled', 'interrupted', 'shared', 'discarded')

    def prepare(self):
        import whatami.whatutils  # noqa
        whatami.id2what('f(x=1)')

    def make_plan(self, rng, index, tier):
        ops, faults = [], []
        pfault = rng.choice((0, 0, .2, .5))
        for i in range(rng.randrange(6, 31)):
            op = {'id': i, 'slot': rng.randrange(NSLOTS if rng.random() < .5 else 2), 'seed': rng.randrange(1 << 30)}
            r = rng.random()
            if i < 2 or r < .1:
                op.update(do='create', spec=world.object_spec(rng, rng.choice((1, 2, 2, 3))))
            elif r < .55:
                op.update(do=rng.choice(DESCRIBE))
                maybe_fault(rng, faults, i, pfault, rng.choice((60, 60, 400)))
            elif r < .8:
                op.update(do='mutate', value=world.mixed_value(rng, 2))
            elif r < .88:
                op.update(do='undo')
            elif r < .94:
                op.update(do='share', other=rng.randrange(NSLOTS))
            else:
                op.update(do='discard')
            ops.append(op)
        return {'ops': ops, 'faults': faults}

    def execute(self, plan, make_sim):
        sim = make_sim(faults=plan['faults'], files=module_files())
        self.sim, self.th = sim, sim.enter()
        w = world.World()
        slots = [None] * NSLOTS
        undo = [[] for _ in range(NSLOTS)]
        for op in plan['ops']:
            s, do = op['slot'], op['do']
            rng = rng_for(op['seed'])
            if do == 'create':
                slots[s] = w.build(op['spec'])
                undo[s] = []
                continue
            n = slots[s]
            if n is None:
                continue
            if do == 'mutate':
                inverse = self.mutate(n, rng, w, op['value'])
                if inverse is not None:
                    undo[s].append(inverse)
                    sim.probe('mutated')
            elif do == 'undo':
                if undo[s]:
                    undo[s].pop()()
                    sim.probe('undone')
            elif do == 'share':
                other = slots[op['other']]
                holders = [x for x in n.reachable().values() if x.kind in world.OPEN]
                if other is None or not holders or id(n) in other.reachable():
                    continue
                holder = rng.choice(holders)
                if id(holder) in other.reachable():
                    continue
                key = rng.choice(gen.KEYS)
                if key == 'out' or (holder.kind == 'FL' and key == 'name'):
                    continue
                holder.setattr(key, other)
                undo[s] = []
                sim.probe('shared')
            elif do == 'discard':
                slots[s] = n = None
                undo[s] = []
                # other undo records can keep parts alive, which is fine
                if rng.random() < .3:
                    gc.collect()
                sim.probe('discarded')
            else:
                self.describe(do, op, n, rng)
            for n in slots:
                if n is not None:
                    n.check()
        if len(plan['ops']) > 3:
            sim.probe('nontrivial')
        # finally, everything once more
        for s, n in enumerate(slots):
            if n is not None:
                got = node.ident(n.real) if n.kind not in world.RAW else self.fn_id(n.real)
                if got != n.id():
                    raise Violation('id', 'at the end: the id is %r, must be %r' % (got, n.id()))
        sim.leave()

    @staticmethod
    def fn_id(f):
        from whatami import whatareyou
        return whatareyou(f).id()

    def mutate(self, n, rng, w, value):
        """Changes something reachable from n; returns how to undo it."""
        nodes = [x for x in n.reachable().values() if x.kind in world.OPEN + ('S', 'P', 'NS', 'list', 'dict')]
        if not nodes:
            return None
        x = rng.choice(nodes)
        new = w.build(value)
        if x.kind == 'list':
            what = rng.choice(('append', 'pop', 'set', 'insert'))
            before_items, before_real = list(x.items), list(x.real)

            def inverse():
                x.items[:] = before_items
                x.real[:] = before_real
            if what in ('append', 'insert') or not x.items:
                at = len(x.items) if what == 'append' else 0
                x.items.insert(at, new)
                x.real.insert(at, new.real)
            elif what == 'pop':
                at = rng.randrange(len(x.items))
                x.items.pop(at)
                x.real.pop(at)
            else:
                at = rng.randrange(len(x.items))
                x.items[at] = new
                x.real[at] = new.real
            return inverse
        if x.kind == 'dict':
            before_items, before_real = list(x.items), dict(x.real)

            def inverse():
                x.items[:] = before_items
                x.real.clear()
                x.real.update(before_real)
            keys = [k for k, _ in x.items]
            if keys and rng.random() < .6:
                at = rng.randrange(len(keys))
                if rng.random() < .4:
                    x.items.pop(at)
                    del x.real[gen.build(keys[at])]
                else:
                    x.items[at] = [keys[at], new]
                    x.real[gen.build(keys[at])] = new.real
            else:
                key = ['str', rng.choice('tuv')]
                if key in keys:
                    return None
                x.items.append([key, new])
                x.real[key[1]] = new.real
            return inverse
        keys = sorted(x.attrs)
        if x.kind in ('S', 'P', 'NS'):
            key = rng.choice('abc')
        elif keys and rng.random() < .7:
            key = rng.choice(keys)
        else:
            key = rng.choice(gen.KEYS[:8] + world.PRIVATE)
        old = x.attrs.get(key)
        if x.kind == 'what' and rng.random() < .15:
            nid, name, out = set(x.nid), x.name, x.out
            r = rng.random()
            if r < .4:
                x.nid ^= {key}
                x.real.non_id_keys = set(x.nid)
            elif r < .7:
                x.name = x.real.name = name + '_'
            else:
                x.out = x.real.out_name = 'y' if out is None else None

            def inverse():
                x.nid = nid
                x.real.non_id_keys = set(nid)
                x.name = x.real.name = name
                x.out = x.real.out_name = out
            return inverse
        if old is not None and x.kind in world.OPEN + ('S', 'NS') and rng.random() < .2:
            x.setattr(key, None)
        elif x.kind == 'what' and rng.random() < .5:
            same = x.real.set(key, new.real)
            if same is not x.real:
                raise Violation('set', 'What.set did not return the very same What')
            x.attrs[key] = new
        else:
            x.setattr(key, new)

        def inverse():
            if old is not None:
                x.setattr(key, old)
            elif key in x.attrs:
                x.setattr(key, None)
        return inverse

    # --- descriptions

    def description(self, do, n, rng):
        """The call and what it must return, or None."""
        from whatami import What, whatareyou, config_dict_for_object
        from whatami.whatutils import what2id, obj2what, whatadd
        obj = n.real
        isw = n.kind == 'what'
        flags = (rng.random() < .5, rng.random() < .4, rng.random() < .7)
        other = ['int', rng.randrange(1000)]

        def what():
            return obj if isw else whatareyou(obj) if n.kind in world.RAW else obj.what()

        top = dict(n.shown())
        model = world.Node('what', None, None, top, n.name, n.nid, n.out)
        spec = model.to_spec()
        expected = None
        if do in ('id', 'what2id', 'obj2what', 'nested'):
            fn = {'id': lambda: what().id(), 'what2id': lambda: what2id(obj) if not isw else obj.id(),
                  'obj2what': lambda: obj2what(obj).id() if not isw else obj.id(),
                  'nested': lambda: What('w', {'v': [obj, (obj,), {'k': obj}]}).id()}[do]
            r = gen.ref(spec)
            if n.kind in ('N', 'NS') and do == 'nested':
                r = n.name + '()'
            expected = r if do != 'nested' else "w(v=[%s,(%s),{'k':%s}])" % (r, r, r)
        elif do in ('nonids', 'str'):
            fn = (lambda: what().id(nonids_too=True)) if do == 'nonids' else (lambda: str(what()))
            expected = gen.ref(spec, nonids_too=True)
        elif do == 'maxlength':
            import hashlib
            n_max = rng.choice((1, 5, 20, 41, 1000))
            fn = lambda: what().id(maxlength=n_max)
            expected = gen.ref(spec)
            if len(expected) > n_max:
                expected = hashlib.sha1(expected.encode('utf-8')).hexdigest()
        elif do == 'positional':
            fn = lambda: what().positional_id(non_ids_too=flags[0])
            values = model.flat(flags[0], False, True)[1]
            expected = '%s(%s)' % (n.name, ','.join(gen.ref(v.to_spec()) for v in values))
            if n.out is not None:
                expected = '%s=%s' % (n.out, expected)
        elif do in ('flatten', 'keys'):
            keys, values = model.flat(*flags)
            if do == 'keys':
                fn = lambda: what().keys(*flags)
                expected = keys
            else:
                fn = lambda: [list(map(list, [ks, [id(v) for v in vs]])) for ks, vs in [what().flatten(*flags)]][0]
                expected = [keys, [id(v.real) for v in values]]
        elif do in ('copy', 'deepcopy'):
            def fn():
                c = what().copy(deep=do == 'deepcopy')
                cid = c.id()
                # whatever is done to the copy is not done to the object
                c.conf['spoiled'] = 'spoiled'
                c.non_id_keys.add('spoiled')
                c.name, c.out_name = 'spoiled', 'spoiled'
                if do == 'deepcopy':
                    self.spoil(c.conf)
                return cid
            expected = gen.ref(spec)
            if do == 'deepcopy' and any(x.kind in ('I', 'FL') for x in n.reachable().values()):
                # copies of whatamised instances carry a what bound to the original
                return None
        elif do == 'set_copy':
            key = rng.choice(sorted(top) or ['a'])

            def fn():
                c = what().set(key, gen.build(other), copy=True)
                cid = c.id()
                c.conf['spoiled'] = 'spoiled'
                c.non_id_keys.add('spoiled')
                return cid
            top[key] = world.Node('leaf', None, spec=other)
            expected = gen.ref(model.to_spec())
        elif do == 'to_dict':
            if not gen.parseable(spec):
                return None
            fn = lambda: gen.canon(what().to_dict(nonids_too=flags[0]))
            expected = ids.dict_of(spec if not flags[0] else spec[:4] + [[]])
        elif do == 'spoil':
            def fn():
                x = what()
                if isw:
                    x = x.copy()
                first = x.id()
                x.conf['spoiled'] = 'spoiled'
                x.non_id_keys.update(list(x.conf))
                x.name = 'spoiled'
                return first
            expected = gen.ref(spec)
        elif do == 'whatadd':
            key = 'added'
            # N.B. whatadd does not keep out_name out of the ids
            fn = lambda: whatadd(what(), key, [1, 'x'])
            expected = []
            for v in (['int', 1], ['str', 'x']):
                top[key] = world.Node('leaf', None, spec=v)
                expected.append(gen.ref(model.to_spec()))
        elif do == 'confdict':
            if n.kind not in ('W', 'sub', 'S', 'P', 'N', 'NS'):
                return None

            def fn():
                d = config_dict_for_object(obj)
                got = sorted((k, id(v)) for k, v in d.items() if k[0] != '_')
                d['spoiled'] = 'spoiled'
                for k in list(d):
                    d[k] = 'spoiled'
                return got
            expected = sorted((k, id(v.real)) for k, v in n.attrs.items() if k[0] != '_')
        return fn, expected, spec

    def judge(self, do, out, fired, expected, spec):
        """Checks the outcome of a description."""
        sim = self.sim
        if fired:
            sim.probe('interrupted')
            if out[0] == 'exc':
                return
        if out[0] == 'exc':
            if do in ('flatten', 'keys') and isinstance(out[1], TypeError):
                return   # dictionaries with keys that cannot be sorted
            raise Violation('error', '%s of %s raised %s: %s' % (do, short(spec, 600), type(out[1]).__name__, out[1]))
        if do == 'spoil':
            sim.probe('spoiled')
        sim.probe('described')
        if out[1] != expected:
            raise Violation('id', '%s of %s gave %s, must be %s' % (do, short(spec, 600), short(out[1], 900),
                                                                    short(expected, 900)))

    def describe(self, do, op, n, rng):
        description = self.description(do, n, rng)
        if description is None:
            return
        fn, expected, spec = description
        out, _, _, fired = self.sim.op(self.th, op['id'], fn, canon=lambda v: v if isinstance(v, str) else None)
        self.judge(do, out, fired, expected, spec)

    def spoil(self, v):
        if isinstance(v, dict):
            for x in list(v.values()):
                self.spoil(x)
            v['spoiled'] = 'spoiled'
        elif isinstance(v, list):
            for x in v:
                self.spoil(x)
            v.append('spoiled')
        elif isinstance(v, tuple):
            for x in v:
                self.spoil(x)
        elif hasattr(v, 'conf'):
            self.spoil(v.conf)
        elif hasattr(v, '__dict__') and not callable(v):
            for x in list(v.__dict__.values()):
                self.spoil(x)
            v.spoiled = 'spoiled'

    def shrink_more(self, plan):
        for i, op in enumerate(plan['ops']):
            if op['do'] == 'create':
                attrs = op['spec'][3]
                for j in range(len(attrs)):
                    op['spec'][3] = attrs[:j] + attrs[j + 1:]
                    yield plan
                    op['spec'][3] = attrs[:j] + [[attrs[j][0], ['int', 1]]] + attrs[j + 1:]
                    yield plan
                op['spec'][3] = attrs


PROP = C09()
