# coding=utf-8
"""C15: the id of a random generator follows its state and consumes no randomness."""
import base64
import copy
import hashlib
import pickle
import random

from .. import node
from ..core import Violation
from ..runner import Prop
from .common import module_files, maybe_fault, short

DRAWS = ('rand', 'rand', 'randn', 'randn', 'randint', 'shuffle', 'choice', 'bytes', 'poisson', 'bool')
SHAPES = ('bare', 'bare', 'what', 'list', 'dict', 'whatable', 'function', 'partial', 'nested')

CLONE = []


def draw(rs, d):
    """Consumes some numbers."""
    kind, n = d
    if kind == 'rand':
        rs.random_sample(n)
    elif kind == 'randn':
        rs.standard_normal(n)
    elif kind == 'randint':
        rs.randint(0, 10, size=n)
    elif kind == 'shuffle':
        rs.shuffle(list(range(n + 1)))
    elif kind == 'choice':
        rs.choice(5, size=n)
    elif kind == 'bytes':
        rs.bytes(n)
    elif kind == 'poisson':
        rs.poisson(3, size=n)
    elif kind == 'bool':
        rs.randint(0, 2, size=n, dtype=bool)
    elif kind == 'long':
        rs.random_sample(600 + n)


def future(rs):
    """The numbers it would produce, found out with another generator."""
    import numpy as np
    if not CLONE:
        CLONE.append(np.random.RandomState(0))
    clone = CLONE[0]
    state = rs.get_state()
    clone.set_state(state)
    h = hashlib.md5()
    h.update(clone.random_sample(660).tobytes())
    clone.set_state(state)
    h.update(clone.standard_normal(1).tobytes())
    return h.hexdigest()


class C15(Prop):
    ID = 'C15'
    RUNS = {'quick': 800, 'thorough': 30000}
    RULE = 'Each run is a history of 5-24 operations on four generators: seeding (a number, an array), drawing in ' \
           'nine ways (single gaussians included), copying, pickling, restoring, moving the state of one to another, ' \
           'sending one to another process that draws from it and back, changing one thing of its state, and describing them, alone or inside other ' \
           'objects; some descriptions are interrupted.'
    REAL = ('whatami.plugins', 'whatami.what', 'whatami.minijoblib', 'numpy', 'pickle', 'separate interpreters')
    STUB = ('interrupts', 'process restarts')
    NEED_PROBES = ('described', 'same-by-other-way', 'half-gaussian', 'remote', 'pickled', 'interrupted', 'inside', 'perturbed')
    ASSUMPTIONS = ('generators are RandomState with the default Mersenne twister',)

    def prepare(self):
        import whatami.whatutils      # noqa
        import numpy                  # noqa
        self.addresses = [node.spawn(17 + 7919 * (getattr(self, 'seed', 1) % 1000) + k) for k in (0, 1)]
        node.wait_for(self.addresses)
        node.Local().ask({'cmd': 'id', 'spec': ['arr', 'float64', [1.]], 'seed': 0})

    def make_plan(self, rng, index, tier):
        ops, faults = [], []
        pfault = rng.choice((0, 0, .2))

        def one():
            return [rng.choice(DRAWS) if rng.random() < .95 else 'long', rng.choice((1, 1, 2, 3))]

        for i in range(rng.randrange(5, 25)):
            o = {'id': i, 'slot': rng.randrange(4), 'other': rng.randrange(4)}
            r = rng.random()
            if r < .13:
                o.update(do='new', seed=rng.choice((0, 0, 1, [1, 2])), again=rng.random() < .5)
            elif r < .4:
                o.update(do='draw', draws=[one() for _ in range(rng.choice((1, 1, 2, 3)))])
            elif r < .5:
                o.update(do=rng.choice(('copy', 'deepcopy', 'move')))
            elif r < .57:
                o.update(do='pickle', protocol=rng.choice((2, 3, 4, 5)))
            elif r < .62:
                o.update(do='remote', node=rng.randrange(2), draws=[one() for _ in range(rng.choice((0, 1, 2)))],
                         protocol=rng.choice((2, 3, 4, 5)))
            elif r < .68:
                o.update(do='twins', draws=[one() for _ in range(rng.choice((1, 2, 3)))])
            elif r < .76:
                o.update(do='perturb', what=rng.choice(('gauss', 'gauss', 'no gauss', 'pos', 'key')),
                         at=rng.randrange(624), draws=[['randn', rng.choice((1, 1, 2))]])
            else:
                o.update(do='id', shape=rng.choice(SHAPES))
                maybe_fault(rng, faults, i, pfault, 400)
            ops.append(o)
        return {'ops': ops, 'faults': faults}

    @staticmethod
    def wrap(rs, shape, other):
        """An object with a generator inside, and the prefix and suffix of its id around that of the generator."""
        from functools import partial
        from whatami import What, whatable
        if shape == 'bare':
            return What('w', {'v': rs}).id, 'w(v=', ')'
        if shape == 'what':
            return What('w', {'a': 1, 'rng': rs, 'z': 'x'}).id, 'w(a=1,rng=', ",z='x')"
        if shape == 'list':
            return What('w', {'v': [0, rs, (1,)]}).id, 'w(v=[0,', ',(1,)])'.replace('1,)', '1)')
        if shape == 'dict':
            return What('w', {'v': {'k': rs}}).id, "w(v={'k':", '})'
        if shape == 'nested':
            return What('w', {'v': What('u', {'v': [rs]})}).id, 'w(v=u(v=[', ']))'
        if shape == 'whatable':
            @whatable
            class Model(object):
                def __init__(self):
                    self.seed = rs
            return Model().what().id, 'Model(seed=', ')'
        if shape == 'function':
            def f(x, seed=rs):
                return x
            return What('w', {'v': f}).id, 'w(v=f(seed=', '))'

        def g(x, seed=None):
            return x
        return What('w', {'v': partial(g, seed=rs)}).id, 'w(v=g(seed=', '))'

    @staticmethod
    def globally():
        import numpy as np
        state = np.random.get_state()
        return state[1].tobytes(), state[2:], random.getstate()

    def execute(self, plan, make_sim):
        import numpy as np
        sim = make_sim(faults=plan['faults'], files=module_files('plugins.py', 'what.py', 'minijoblib', 'misc.py'))
        th = sim.enter()
        nodes = [node.Node(a) for a in self.addresses]
        slots = [np.random.RandomState(i % 2) for i in range(4)]
        np.random.seed(99)
        random.seed(99)
        id2future, future2id = {}, {}

        def learn(whatid, f, where):
            if id2future.setdefault(whatid, f) != f:
                raise Violation('collision', '%s: the id %s is that of a generator that produces other numbers' % (
                    where, short(whatid)))
            if future2id.setdefault(f, whatid) != whatid:
                raise Violation('different', '%s: the id is %s, but another that produces the same numbers had %s' % (
                    where, short(whatid, 600), short(future2id[f], 600)))

        def describe(op, i):
            rs = slots[i]
            f = future(rs)
            gauss = rs.get_state()[3]
            fn, prefix, suffix = self.wrap(rs, op.get('shape', 'bare'), i)
            globally = self.globally()
            out, _, _, fired = sim.op(th, op['id'], fn, canon=str)
            if future(rs) != f or slots[i] is not rs or rs.get_state()[3] != gauss:
                raise Violation('consumed', 'describing a generator (%s) changed what it will produce' % op)
            if self.globally() != globally:
                raise Violation('consumed', 'describing a generator (%s) changed the global generators' % op)
            if out[0] == 'exc':
                if not fired:
                    raise Violation('error', 'describing a generator (%s) raised %r' % (op, out[1]))
                sim.probe('interrupted')
                return
            text = out[1]
            if not (text.startswith(prefix) and text.endswith(suffix)):
                raise Violation('inside', 'the id is %s instead of %s...%s' % (short(text), prefix, suffix))
            whatid = text[len(prefix):len(text) - len(suffix)]
            if not whatid.startswith('RandomState('):
                raise Violation('inside', 'the id is %s' % short(text))
            if f in future2id:
                sim.probe('same-by-other-way')
            if gauss:
                sim.probe('half-gaussian')
            if op.get('shape', 'bare') != 'bare':
                sim.probe('inside')
            learn(whatid, f, str(op))
            sim.probe('described')

        for op in plan['ops']:
            do, i = op['do'], op['slot']
            sim.event(do, i)
            if do == 'new':
                if op['again']:
                    slots[i].seed(op['seed'])
                else:
                    slots[i] = np.random.RandomState(op['seed'])
            elif do == 'draw':
                for d in op['draws']:
                    draw(slots[i], d)
            elif do == 'copy':
                # a copy must have its own state for the rest of the history to make sense
                slots[i] = copy.deepcopy(copy.copy(slots[op['other']]))
            elif do == 'deepcopy':
                slots[i] = copy.deepcopy(slots[op['other']])
            elif do == 'move':
                slots[i].set_state(slots[op['other']].get_state())
            elif do == 'pickle':
                slots[i] = pickle.loads(pickle.dumps(slots[i], op['protocol']))
                sim.probe('pickled')
            elif do == 'remote':
                before = future(slots[i])
                data = base64.b64encode(pickle.dumps(slots[i], op['protocol'])).decode()
                n = nodes[op['node']]
                got = n.ask({'cmd': 'rng', 'data': data, 'draws': op['draws'], 'protocol': op['protocol']})
                n.crash()
                sim.count('crash')
                if got[0] == 'exc':
                    raise Violation('error', 'another process: %s' % got[1])
                prefix = 'w(v='
                learn(got[1][0][len(prefix):-1], before, 'in another process, before drawing')
                slots[i] = pickle.loads(base64.b64decode(got[1][2]))
                learn(got[1][1][len(prefix):-1], future(slots[i]), 'in another process, after drawing')
                sim.probe('remote')
            elif do == 'twins':
                # the same numbers, one by one
                slots[op['other']] = copy.deepcopy(slots[i])
                for kind, n in op['draws']:
                    draw(slots[i], [kind, n])
                    if slots[i] is not slots[op['other']]:
                        for _ in range(n if kind in ('rand', 'randn') else 1):
                            draw(slots[op['other']], [kind, 1 if kind in ('rand', 'randn') else n])
                describe({'id': op['id'], 'do': 'twins'}, i)
                describe({'id': op['id'], 'do': 'twins'}, op['other'])
            elif do == 'perturb':
                # a generator that only differs in one thing
                for d in op['draws']:
                    draw(slots[i], d)
                name, key, pos, has_gauss, gauss = slots[i].get_state()
                key = key.copy()
                if op['what'] == 'gauss':
                    gauss = -gauss if has_gauss else gauss
                elif op['what'] == 'no gauss':
                    has_gauss, gauss = 0, 0.
                elif op['what'] == 'pos':
                    pos = 1 + op['at']
                else:
                    key[op['at']] ^= 1 << 31
                other = np.random.RandomState(0)
                other.set_state((name, key, pos, has_gauss, gauss))
                describe({'id': op['id'], 'do': 'perturb'}, i)
                slots[op['other']] = other
                describe({'id': op['id'], 'do': 'perturb'}, op['other'])
                sim.probe('perturbed')
            else:
                describe(op, i)
        if sim.probes.get('described', 0) > 2:
            sim.probe('nontrivial')
        for n in nodes:
            n.crash()
        sim.leave()


PROP = C15()
