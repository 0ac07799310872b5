# coding=utf-8
"""C08: the id of a configuration is the same in every order, process and restart."""
import json

from .. import gen, node
from ..core import Violation, rng_for
from ..runner import Prop
from .common import short

STABLE = gen.PLAIN + ('fset', 'what', 'what', 'odict')


def partially_ordered(rng):
    """Sets (and dictionaries) of sets, for which < is another thing."""
    inner, seen = [], set()
    for _ in range(rng.randrange(2, 5)):
        s = frozenset(rng.sample('abcde', rng.randrange(4)))
        if s not in seen:
            seen.add(s)
            s = ['fset', [['str', c] for c in sorted(s)]]
            inner.append(['tuple', [s, ['int', 1]]] if rng.random() < .2 else s)
    r = rng.random()
    if r < .4:
        return ['set', inner]
    if r < .7:
        return ['fset', inner]
    return ['dict', [[s, ['int', i]] for i, s in enumerate(inner)]]


def array(rng):
    r = rng.random()
    if r < .35:
        # arrays of objects, hashed by pickling them
        elements = [gen.value(rng, 2, nasty=True, kinds=('scalar', 'list', 'tuple', 'dict', 'dict', 'set', 'set', 'fset'))
                    for _ in range(rng.choice((1, 1, 2, 3)))]
        if rng.random() < .3:
            elements.append(partially_ordered(rng))
        if rng.random() < .4:
            elements.append(rng.choice(elements))
        return [rng.choice(('oarr', 'oarr', 'series')), elements]
    if r < .45:
        n = rng.randrange(1, 4)
        return ['frame', [[c, [rng.choice((['int', 1], ['float', '2.5'], ['str', 'a'], ['none'], ['dict', [
            [['str', 'k'], ['int', 1]], [['str', 'j'], ['set', [['int', 1], ['str', 'b']]]], [['int', 7], ['none']]]]))
            for _ in range(n)]] for c in rng.sample('abcd', rng.randrange(1, 3))]]
    if r < .5:
        return ['sarr', 'float64', [round(rng.uniform(-3, 3), 2) for _ in range(rng.randrange(2, 5))]]
    dtype = rng.choice(('float64', 'int64', 'bool', 'U4', 'float32'))
    n = rng.randrange(0, 5)
    if dtype.startswith('float'):
        return ['arr', dtype, [round(rng.uniform(-3, 3), 2) for _ in range(n)]]
    if dtype == 'U4':
        return ['arr', dtype, [rng.choice(('a', 'bb', '')) for _ in range(n)]]
    if dtype == 'bool':
        return ['arr', dtype, [rng.random() < .5 for _ in range(n)]]
    return ['arr', dtype, [[rng.randrange(9) for _ in range(2)] for _ in range(n)]]


def picklable(spec):
    kind = spec[0]
    if kind in ('list', 'tuple', 'set', 'fset'):
        return all(map(picklable, spec[1]))
    if kind in ('dict', 'odict'):
        return all(picklable(k) and picklable(v) for k, v in spec[1])
    if kind == 'what':
        return all(picklable(v) for _, v in spec[2])
    if kind == 'oarr':
        return all(map(picklable, spec[1]))
    return kind in ('none', 'bool', 'int', 'float', 'str', 'arr', 'sarr', 'type')


def contiguous(spec):
    """The same without arrays that are not contiguous."""
    if isinstance(spec, list):
        return ['arr'] + spec[1:] if spec[:1] == ['sarr'] else [contiguous(s) for s in spec]
    return spec


def has_array(spec):
    if isinstance(spec, list):
        return spec[:1] in (['arr'], ['sarr'], ['oarr'], ['series'], ['frame']) or any(map(has_array, spec))
    return False


def variation(spec, rng):
    """A different specification: changes one thing in it, chosen at random."""
    kind = spec[0]
    if kind == 'none':
        return rng.choice((['str', 'None'], ['bool', False], ['int', 0], ['str', '']))
    if kind == 'bool':
        return rng.choice((['int', int(spec[1])], ['str', str(spec[1])], ['bool', not spec[1]],
                           ['float', repr(float(spec[1]))]))
    if kind == 'int':
        return rng.choice((['str', str(spec[1])], ['int', spec[1] + 1], ['int', -spec[1] - 1],
                           ['list', [spec]], ['tuple', [spec]]) +
                          ((['float', repr(float(spec[1]))],) if abs(spec[1]) < 2 ** 50 else ()))
    if kind == 'float':
        x = float(spec[1])
        return rng.choice((['str', repr(x)], ['float', repr(x * 2 + 1 if abs(x) < 1e100 else 1.5)],
                           ['list', [spec]]) + ((['int', int(x)],) if x == x and abs(x) < 1e15 and x == int(x) else ()))
    if kind == 'str':
        return rng.choice((['str', spec[1] + 'x'], ['str', ' ' + spec[1]], ['str', spec[1] + ' '],
                           ['list', [spec]], ['tuple', [spec]], ['str', spec[1].upper() + '_']))
    if kind in ('list', 'tuple'):
        if spec[1] and rng.random() < .6:
            i = rng.randrange(len(spec[1]))
            return [kind, spec[1][:i] + [variation(spec[1][i], rng)] + spec[1][i + 1:]]
        return rng.choice(([{'list': 'tuple', 'tuple': 'list'}[kind], spec[1]], [kind, spec[1] + [['int', 0]]],
                           [kind, [spec]]))
    if kind == 'set':
        return rng.choice((['list', spec[1]], ['set', spec[1] + [['str', 'another element']]]))
    if kind == 'dict':
        if spec[1] and rng.random() < .7:
            i = rng.randrange(len(spec[1]))
            k, v = spec[1][i]
            return [kind, spec[1][:i] + [[k, variation(v, rng)]] + spec[1][i + 1:]]
        return rng.choice((['dict', spec[1] + [[['str', 'another key'], ['none']]]], ['list', [spec]]))
    if kind == 'what':
        r = rng.random()
        if spec[2] and r < .6:
            i = rng.randrange(len(spec[2]))
            k, v = spec[2][i]
            return spec[:2] + [spec[2][:i] + [[k, variation(v, rng)]] + spec[2][i + 1:]] + spec[3:]
        if r < .75:
            return [kind, spec[1] + '2'] + spec[2:]
        if r < .9:
            return spec[:2] + [spec[2] + [['zzz', ['none']]]] + spec[3:]
        return spec[:3] + ['out_' if spec[3] is None else None] + spec[4:]
    return ['list', [spec]]


class C08(Prop):
    ID = 'C08'
    RUNS = {'quick': 2000, 'thorough': 40000}
    GROUP = 8
    RULE = 'Each run is a history over four nodes (interpreters with different string hash seeds that crash and ' \
           'restart): building the same configuration in different insertion orders, pickling, restoring, copying ' \
           'and describing it on any of them, and describing variations of it that must get another id.'
    REAL = ('whatami.what', 'whatami.plugins', 'whatami.misc', 'whatami.whatutils', 'whatami.minijoblib', 'pickle',
            'separate interpreters')
    STUB = ('node crashes and restarts, storage of pickles',)
    NEED_PROBES = ('restored', 'crash', 'described', 'variation', 'array')
    ASSUMPTIONS = ('restored ids of arrays that are not contiguous are not compared, but for the known finding',
                   'data frames and series are not copied or pickled')

    def prepare(self):
        import whatami.whatutils  # noqa
        seeds = [1 + 7919 * (getattr(self, 'seed', 1) % 1000) + k for k in (0, 1, 2)]
        self.addresses = [node.spawn(s % 4294967295) for s in seeds]
        node.wait_for(self.addresses)
        # warm up numpy
        node.Local().ask({'cmd': 'id', 'spec': ['arr', 'float64', [1.]], 'seed': 0})

    def make_plan(self, rng, index, tier):
        ops = []
        plain = rng.random() < .5
        specs = []
        for _ in range(rng.choice((1, 2, 2, 3))):
            if plain:
                s = gen.what(rng, 3, kinds=gen.PLAIN + ('what',))
            elif rng.random() < .35:
                s = ['what', 'h', [['a', array(rng)]] + gen.kvs(rng, 2, kinds=STABLE)[:1], None, []]
                if len({k for k, _ in s[2]}) < len(s[2]):
                    s[2] = s[2][:1]
            elif rng.random() < .5:
                s = gen.what(rng, 3, nasty=True, kinds=STABLE, nonids=True)
            else:
                s = gen.value(rng, 3, nasty=True)
            specs.append(s)
        dumped = []
        fine = [i for i, s in enumerate(specs) if picklable(s)]
        for i in range(rng.randrange(3, 14)):
            op = {'id': i, 'node': rng.randrange(4), 'spec': rng.randrange(len(specs)), 'seed': rng.randrange(1 << 30),
                  'protocol': rng.choice((2, 3, 4, 5))}
            r = rng.random()
            if plain and r < .3:
                op.update(do='vary')
            elif r < .6:
                op.update(do='id')
            elif r < .9 and fine and (not dumped or r < .68):
                op.update(do='dump', slot=rng.randrange(2), spec=rng.choice(fine))
                dumped.append(op['slot'])
            elif r < .9 and dumped:
                op.update(do=rng.choice(('load', 'load', 'reload')), slot=rng.choice(dumped))
            elif r < .95:
                op.update(do=rng.choice(('copy', 'deepcopy')))
            else:
                op.update(do='crash')
            ops.append(op)
        if index % 500 == 7:        # the known finding
            specs = [['what', 'h', [['a', ['sarr', 'float64', [1., 2.5]]]], None, []]]
            ops = [{'id': i, 'do': do, 'node': i, 'spec': 0, 'seed': 0, 'protocol': 4, 'slot': 0}
                   for i, do in enumerate(('id', 'dump', 'load'))]
        return {'ops': ops, 'specs': specs, 'plain': plain}

    def execute(self, plan, make_sim):
        sim = make_sim()
        sim.enter()
        nodes = [node.Local()] + [node.Node(a) for a in self.addresses]
        storage = {}
        learnt = {}

        def want(spec):
            key = json.dumps(spec)
            if has_array(spec):
                return learnt.get(key)
            if spec[0] in ('what', 'W', 'duck', 'wfn'):
                return gen.ref(spec)
            return 'w(v=%s)' % gen.ref(spec)

        def check(spec, got, where, restored=False):
            expected = want(spec)
            if got[0] == 'exc':
                raise Violation('error', '%s raised %s' % (where, got[1]))
            if expected is None:
                if restored and contiguous(spec) != spec:
                    return
                sim.probe('array')
                learnt[json.dumps(spec)] = got[1]
            elif got[1] != expected:
                if restored and contiguous(spec) != spec and got[1] == node.Local().ask(
                        {'cmd': 'id', 'spec': contiguous(spec), 'seed': 0})[1]:
                    raise Violation('layout', '%s: the id is %r, must be %r' % (where, got[1], expected),
                                    key='noncontiguous-array')
                raise Violation('id', '%s: the id is %r, must be %r' % (where, got[1], expected))

        for op in plan['ops']:
            do = op['do']
            n = nodes[op['node']]
            spec = plan['specs'][op['spec'] % len(plan['specs'])]
            where = '%s of %s in node %d (order %d)' % (do, short(spec, 500), op['node'], op['seed'])
            if do == 'crash':
                sim.probe('crash')
                n.crash()
                sim.count('crash')
                continue
            if do in ('load', 'reload'):
                if op['slot'] not in storage:
                    continue
                spec, data = storage[op['slot']]
                got = n.ask({'cmd': do, 'data': data, 'protocol': op['protocol']})
                if do == 'reload':
                    if got[0] == 'exc':
                        raise Violation('error', '%s raised %s' % (where, got[1]))
                    storage[op['slot']] = (spec, got[1])
                    continue
                sim.probe('restored')
                check(spec, got, 'after restoring %s in node %d' % (short(spec, 500), op['node']), restored=True)
                continue
            if do == 'dump':
                if not picklable(spec):
                    continue
                got = n.ask({'cmd': 'dump', 'spec': spec, 'seed': op['seed'], 'protocol': op['protocol']})
                if got[0] == 'exc':
                    raise Violation('error', '%s raised %s' % (where, got[1]))
                storage[op['slot']] = (spec, got[1])
                continue
            if do in ('copy', 'deepcopy') and not picklable(spec):
                continue
            if do == 'vary':
                rng = rng_for(op['seed'])
                try:
                    other = variation(spec, rng)
                    if gen.parsed(other) == gen.parsed(spec):
                        continue
                    got = n.ask({'cmd': 'id', 'spec': spec, 'seed': op['seed']})
                    check(spec, got, where)
                    got2 = n.ask({'cmd': 'id', 'spec': other, 'seed': op['seed']})
                except TypeError:
                    continue
                sim.probe('variation')
                if got2[0] == 'ok' and got2[1] == got[1]:
                    raise Violation('collision', 'both %s and %s have id %r' % (short(spec), short(other), got[1]))
                continue
            sim.probe('described')
            got = n.ask({'cmd': do, 'spec': spec, 'seed': op['seed']})
            check(spec, got, where, restored=do == 'deepcopy')
            sim.event(do, op['node'], got[1])
        if sim.probes.get('described', 0) + sim.probes.get('restored', 0) + sim.probes.get('variation', 0) > 2:
            sim.probe('nontrivial')
        for n in nodes:
            n.crash()
        sim.leave()


PROP = C08()
