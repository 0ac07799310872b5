# coding=utf-8
"""C18: concurrent id generation gives each caller the id it would get alone."""
from .. import gen, node
from ..core import EXCS, Violation, rng_for
from ..runner import Prop
from .common import USER_ERRORS, module_files, maybe_fault, run_concurrently, sched, short
from . import world
from .c09 import C09, DESCRIBE


# --- Arrays and the like

def _frame(n):
    import pandas as pd
    return pd.DataFrame({'x': [float(i) for i in range(n)], 'y': list(range(n))})


def _state(seed, n):
    import numpy as np
    rs = np.random.RandomState(seed)
    rs.random_sample(n)
    return rs


def pool():
    import numpy as np
    import pandas as pd
    return (
        lambda: np.zeros(3), lambda: np.ones(3), lambda: np.arange(6).reshape(2, 3),
        lambda: np.asfortranarray(np.arange(6.).reshape(2, 3)), lambda: np.arange(20)[::3], lambda: np.array([]),
        lambda: np.array(['a', 'bc']), lambda: np.array([True, False]), lambda: np.array(1.5),
        lambda: np.zeros((2, 0, 3), dtype=np.float32), lambda: np.array([1 + 2j]),
        lambda: np.arange(3000), lambda: np.array([(1, 2.)], dtype=[('a', int), ('b', float)]),
        lambda: np.float64(.5), lambda: np.int32(7),
        lambda: _state(0, 0), lambda: _state(0, 3), lambda: _state(1, 700),
        lambda: pd.Series([1, 2, 3]), lambda: pd.Series([1., 2.], index=[3, 4]), lambda: _frame(0), lambda: _frame(4),
        lambda: pd.DataFrame(np.eye(3)),
    )


class Arrays(object):
    """['np', index]"""
    IDS = []

    @staticmethod
    def gen(rng, depth, nasty, kinds):
        return ['np', rng.randrange(len(Arrays.IDS) or 23)]

    @staticmethod
    def build(spec, rec):
        return pool()[spec[1]]()

    @classmethod
    def ref(cls, spec):
        return cls.IDS[spec[1]]


def preload():
    """For the other processes."""
    gen.EXTRA['np'] = Arrays


class Boom(object):
    """Its what() fails."""

    def __init__(self, exc):
        self.exc = exc

    def what(self):
        raise EXCS[self.exc]('user code')


def has_arrays(n):
    """Copying arrays may change their memory layout, that is part of their hash."""
    return any(x.kind == 'leaf' and 'np' in str(x.spec) for x in n.reachable().values())


class C18(C09):
    ID = 'C18'
    RUNS = {'quick': 1500, 'thorough': 40000}
    RULE = 'Each run has 2-4 threads with up to 8 operations each, over two objects that all share (and share parts ' \
           'between them) and one of each thread: describing them in 17 ways, creating objects and classes, changing ' \
           'the own ones, describing objects that fail. Values include arrays, data frames, series and random ' \
           'states. Context switches at lines or bytecodes of the library; interrupts at any line.'
    REAL = ('whatami.what', 'whatami.plugins', 'whatami.misc', 'whatami.whatutils', 'whatami.minijoblib', 'numpy',
            'pandas')
    STUB = ('interrupts', 'thread scheduler', 'user classes')
    NEED_PROBES = ('described', 'mutated', 'interrupted', 'shared', 'failed', 'array', 'created', 'inside', 'opcode')
    ASSUMPTIONS = ('objects that several threads describe are not changed meanwhile',
                   'the ids of arrays, frames and random states are those that another process, that runs nothing '
                   'else, gives them')

    def prepare(self):
        import numpy          # noqa
        import pandas         # noqa
        preload()
        address = node.spawn(5, 'dst.props.c18')
        node.wait_for([address])
        n = node.Node(address)
        prefix = 'w(v='
        for i in range(len(pool())):
            n.crash()
            got = n.ask({'cmd': 'id', 'spec': ['np', i], 'seed': 0})
            if got[0] != 'ok' or not got[1].startswith(prefix):
                raise Violation('prepare', 'no id for array %d: %r' % (i, got))
            Arrays.IDS.append(got[1][len(prefix):-1])
        n.crash()
        node.stop()
        import whatami.whatutils  # noqa

    def value(self, rng, depth):
        """Replaces some values by arrays."""
        return ['np', rng.randrange(len(Arrays.IDS))] if rng.random() < .5 else world.mixed_value(rng, depth)

    def spec(self, rng, depth):
        s = world.object_spec(rng, depth)
        # arrays here and there
        for kv in s[3]:
            r = rng.random()
            if r < .25:
                kv[1] = ['np', rng.randrange(len(Arrays.IDS))]
            elif r < .35:
                kv[1] = ['list', [kv[1], ['np', rng.randrange(len(Arrays.IDS))]]]
        return s

    def make_plan(self, rng, index, tier):
        faults, threads, n = [], [], 0
        pfault = rng.choice((0, 0, .15, .4))
        share = rng.random() < .7
        for t in range(rng.choice((2, 2, 2, 3, 3, 4))):
            ops = []
            for _ in range(rng.randrange(1, 9)):
                op = {'id': n, 'slot': rng.choice((0, 0, 1, 2 + t)), 'seed': rng.randrange(1 << 30)}
                n += 1
                r = rng.random()
                if r < .68:
                    op.update(do=rng.choice(DESCRIBE))
                    maybe_fault(rng, faults, op['id'], pfault, rng.choice((60, 300)))
                elif r < .8:
                    op.update(do='mutate', slot=2 + t, value=self.value(rng, 2))
                elif r < .9:
                    op.update(do='create', slot=2 + t, spec=self.spec(rng, rng.choice((1, 2))))
                else:
                    op.update(do='fail', exc=rng.choice(USER_ERRORS), shape=rng.randrange(4))
                ops.append(op)
            threads.append(ops)
        return {'threads': threads, 'faults': faults, 'sched': sched(rng, nsteps=1500),
                'gran': 'opcode' if rng.random() < .15 else 'line', 'share': share,
                'specs': [self.spec(rng, rng.choice((1, 2, 2, 3))) for _ in range(2 + len(threads))]}

    def failing(self, op):
        from whatami import What, whatable
        from whatami.whatutils import what2id
        boom = Boom(op['exc'])
        if op['shape'] == 0:
            return lambda: What('w', {'v': boom, 'a': 1}).id()
        if op['shape'] == 1:
            return lambda: What('w', {'v': [1, {'k': boom}]}).id()
        if op['shape'] == 2:
            return lambda: what2id(boom)

        def f(x, y=boom):
            return x
        return lambda: whatable(f).what().id()

    def execute(self, plan, make_sim):
        sim = make_sim(sched=plan['sched'], faults=plan['faults'], files=module_files(), gran=plan['gran'])
        self.sim = sim
        w = world.World()
        slots = [w.build(s) for s in plan['specs'][:2 + len(plan['threads'])]]
        while len(slots) < 2 + len(plan['threads']):
            slots.append(w.build(plan['specs'][0]))
        if plan['share'] and slots[1].kind in world.OPEN:
            slots[1].setattr('b', slots[0])
            sim.probe('shared')
        if plan['gran'] == 'opcode':
            sim.probe('opcode')
        pending = {}

        def perform(th, op):
            do, rng = op['do'], rng_for(op['seed'])
            n = slots[op['slot']]
            if do == 'mutate':
                def change():
                    if self.mutate(n, rng, w, op['value']) is not None:
                        sim.probe('mutated')
                return change
            if do == 'create':
                def create():
                    slots[op['slot']] = w.build(op['spec'])
                    sim.probe('created')
                return create
            if do == 'fail':
                return self.failing(op)
            description = self.description(do, n, rng)
            if description is None:
                return lambda: None
            if do == 'deepcopy' and has_arrays(n):
                return lambda: None
            pending[op['id']] = description[1:], n
            return description[0]

        def after(op, out, fired):
            do = op['do']
            if do == 'fail':
                told = {EXCS[op['exc']]} | ({RuntimeError} if op['exc'] == 'StopIteration' else set())
                if out[0] == 'ok' or type(out[1]) not in told:
                    raise Violation('hidden', 'user code failed with %s, but the outcome was %s' % (
                        op['exc'], short(out[1])))
                sim.probe('failed')
            elif op['id'] in pending:
                (expected, spec), n = pending[op['id']]
                self.judge(do, out, fired, expected, spec)
                n.check()
                if '"np"' in short(spec, 10 ** 6).replace("'", '"'):
                    sim.probe('array')
            elif out[0] == 'exc':
                raise out[1]

        run_concurrently(sim, plan['threads'], perform, canon=lambda v: v if isinstance(v, str) else None, after=after)
        if sim.nswitch_inside:
            sim.probe('inside')
        # and alone, once all are done
        for n in slots:
            n.check()
            got = node.ident(n.real) if n.kind not in world.RAW else self.fn_id(n.real)
            if got != n.id():
                raise Violation('id', 'once all the threads were done: the id is %s, must be %s' % (
                    short(got, 900), short(n.id(), 900)))
        if len(sim.threads) > 1:
            sim.probe('nontrivial')

    def shrink_more(self, plan):
        return ()


PROP = C18()
