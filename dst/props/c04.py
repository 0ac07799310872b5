# coding=utf-8
"""C04: concurrent adds to a recorder lose no record and accept each id once (linearizability)."""
from ..core import Violation, linearizable
from ..runner import Prop
from .common import module_files, maybe_fault, sched, run_concurrently, tell, USER_ERRORS
from .table import Table, Refused, Post, call_add, same

IDS = ('r1', 'r2', 'r3', 'r4')


def rows(df):
    """The ids in a data frame, with who added them."""
    by = [None if b != b else int(b) for b in df['by']] if 'by' in df.columns else [None] * len(df)
    return list(zip(df.index, by))


class C04(Prop):
    ID = 'C04'
    LOOKALIKES = ({'r2': 'R1', 'r3': 'r1 ', 'r4': ' r1'},)
    RUNS = {'quick': 7000, 'thorough': 100000}
    RULE = 'Two to four threads with 1-5 calls each (add of 1-3 ids out of four, get, [], len, unique, data frame), preempted at ' \
           'lines or bytecodes and inside postprocessors and iterables by a random walk or a few random points.'
    REAL = ('whatami.registry.Recorder', 'toolz.curry', 'pandas')
    STUB = ('thread scheduler and locks', 'postprocessors that yield or fail', 'interrupts')
    ASSUMPTIONS = ('an interrupted add added all its records or none; if an interrupt falls between taking a lock and '
                   'entering the block that releases it, the simulator releases the lock',)
    NEED_PROBES = ('KeyboardInterrupt', 'accepted', 'refused', 'frame')

    def prepare(self):
        import whatami  # noqa
        from whatami.registry import Recorder
        r = Recorder()
        r.add('a', by=1)
        rows(r.to_df())

    def make_plan(self, rng, index, tier):
        threads, faults = [], []
        oid, budget = 0, 13
        universe = IDS[:rng.choice((1, 2, 3, 4))]
        pfault = rng.choice((0, 0, .25))
        pread = rng.choice((.15, .35, .6))
        pyield = rng.choice((.2, .8))
        reads = ('get', 'item', 'len', 'len', 'unique') + (('to_df',) * 3 if rng.random() < .08 else ())
        for _ in range(rng.choice((2, 2, 3, 4))):
            ops = []
            for _ in range(min(budget, rng.randrange(1, 6))):
                op = {'id': oid}
                oid += 1
                budget -= 1
                if rng.random() < pread:
                    op.update(do=rng.choice(reads), ids=[rng.choice(universe)])
                else:
                    ids = rng.sample(universe, rng.randrange(1, min(3, len(universe)) + 1))
                    one = len(ids) == 1 and rng.random() < .5
                    cols = [['by', ['scalar', op['id']]]]
                    if not one and rng.random() < .4:
                        cols.append(['v', [rng.choice(('list', 'gen')), [rng.randrange(9) for _ in ids]]])
                    op.update(do='add', form='one' if one else rng.choice(('list', 'tuple', 'gen')), ids=ids,
                              unbox=True, cols=cols)
                    if rng.random() < pyield:
                        op['posts'] = [rng.choice((['tag', 'c'], ['set', 'c', 'x'], ['new', 'c', 1],
                                                   ['require', 'by']))
                                       for _ in range(rng.randrange(1, 3))]
                        if rng.random() < .08:
                            op['posts'].append(['fail', rng.choice(ids), rng.choice(USER_ERRORS)])
                    maybe_fault(rng, faults, op['id'], pfault, 80)
                ops.append(op)
            if ops:
                threads.append(ops)
        return {'threads': threads, 'faults': faults, 'universe': list(universe),
                'defaults': {'who': 'me'} if rng.random() < .3 else {},
                'gran': rng.choice(('line', 'opcode')), 'frame': rng.random() < .05,
                'sched': sched(rng, rng.choice((40, 150, 500)))}

    def execute(self, plan, make_sim):
        from whatami.registry import Recorder
        sim = make_sim(faults=plan['faults'], sched=plan['sched'], gran=plan['gran'],
                       files=module_files('registry.py'))
        rec = Recorder(**plan['defaults'])
        universe = plan['universe']

        def perform(th, op):
            do = op['do']
            if do == 'add':
                return call_add(rec.add, op, [Post(s, sim) for s in op.get('posts', [])])
            i = op['ids'][0]
            if do == 'to_df':
                sim.probe('frame')
                return lambda: rows(rec.to_df())
            return {'get': lambda: rec.get(i), 'item': lambda: rec[i], 'len': lambda: len(rec),
                    'unique': lambda: rec.unique('by')}[do]

        history = run_concurrently(sim, plan['threads'], perform, canon=lambda v: None)
        last = max([h['res'] for h in history] + [0])
        for k, (do, value) in enumerate([('all', {i: rec.get(i) for i in universe}), ('len', len(rec)),
                                         ('unique', rec.unique('by'))] +
                                        ([('order', list(rec.to_df().index))] if plan['frame'] and len(rec) else [])):
            history.append({'op': {'do': do, 'ids': []}, 'inv': last + 2 * k + 1, 'res': last + 2 * k + 2,
                            'out': ('ok', value), 'fired': False, 'maybe': False, 'thread': -1})

        # the records each call adds, which do not depend on the rest
        adds = {}
        for ops in plan['threads']:
            for op in ops:
                if op['do'] == 'add':
                    try:
                        adds[op['id']] = Table(defaults=plan['defaults']).add(op)
                    except Refused:
                        adds[op['id']] = None

        def step(state, h):
            op, out = h['op'], h['out']
            do = op['do']
            owner = dict(state)

            def records(i):
                return [adds[owner[i]][i]] if i in owner else []
            if do == 'add':
                new = adds[op['id']]
                if new is not None and any(i in owner for i in new):
                    new = None
                if out[0] == 'exc' and not h['fired']:
                    return [state] if new is None else []
                if new is None:
                    return [state] if out[0] == 'exc' else []
                if out[0] == 'ok' and not (hasattr(out[1], 'items') and
                                           same(list(out[1].items()), list(new.items()))):
                    return []
                return [state + tuple((i, op['id']) for i in new)]
            if out[0] == 'exc':
                return []
            v = out[1]
            if do in ('get', 'item'):
                good = same(v, records(op['ids'][0]))
            elif do == 'len':
                good = v == len(state)
            elif do == 'unique':
                good = v == set(owner.values())
            elif do == 'to_df':
                good = v == list(state)
            elif do == 'order':
                good = v == [i for i, _ in state]
            else:
                good = same(v, {i: records(i) for i in universe})
            return [state] if good else []

        for h in history:
            if h['op']['do'] == 'add':
                sim.probe('accepted' if h['out'][0] == 'ok' else 'refused')
        if linearizable(history, (), step) is False:
            raise Violation('not-linearizable', 'no order of the calls explains what they returned:%s' % tell(history))


PROP = C04()
