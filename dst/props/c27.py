# coding=utf-8
"""C27: the settings of a recorder can be changed while records are being added (linearizability)."""
from ..core import Violation, linearizable
from ..runner import Prop
from .common import module_files, maybe_fault, sched, run_concurrently, tell, short

COLS = ('a', 'b', 'c', 'd')
CHANGES = ('set', 'set', 'remove', 'append', 'append', 'override')
OF = {'set': 'defaults', 'remove': 'defaults', 'read-defaults': 'defaults', 'seen-defaults': 'defaults',
      'append': 'chain', 'override': 'chain', 'read-chain': 'chain', 'seen-chain': 'chain'}


class Tag(object):
    """A postprocessor that tells it has been there, and that can change the settings."""

    def __init__(self, world, name, change=None):
        self.world, self.name, self.change = world, name, change

    def __call__(self, an_id, record, recorder):
        self.world.sim.here('postprocessor')
        if self.change is not None:
            self.world.nested(self.change)
        record['seen'] = record.get('seen', ()) + (self.name,)
        return record

    def __repr__(self):
        return self.name


class C27(Prop):
    ID = 'C27'
    LOOKALIKES = ({'b': 'A', 'c': 'a_', 'd': 'a '},)
    RUNS = {'quick': 6000, 'thorough': 100000}
    RULE = 'Two to four threads with 1-6 calls each (add of 1-3 records, adding and removing defaults, appending and ' \
           'overriding postprocessors, reading both and spoiling what was read), some of them from postprocessors, ' \
           'preempted at lines or bytecodes by a random walk or a few random points, some with interrupts.'
    REAL = ('whatami.registry.Recorder', 'toolz.curry')
    STUB = ('thread scheduler and locks', 'postprocessors that yield', 'interrupts')
    ASSUMPTIONS = ('an interrupted change was made wholly or not at all; if an interrupt falls between taking a lock '
                   'and entering the block that releases it, the simulator releases the lock',)
    NEED_PROBES = ('KeyboardInterrupt', 'added', 'changed', 'nested', 'read', 'overlap')

    def prepare(self):
        import whatami  # noqa
        from whatami.registry import Recorder
        Recorder().add('a', by=1)

    def make_plan(self, rng, index, tier):
        threads, faults = [], []
        count = [0]
        pfault = rng.choice((0, 0, .25))
        padd, pread = rng.choice((.2, .4, .6)), rng.choice((.1, .3))
        cols = rng.sample(COLS, rng.choice((1, 2, 4)))
        pnested = rng.choice((0, 0, .3))

        def change(rng, do=None, nested=False):
            do = do or rng.choice(CHANGES)
            count[0] += 1
            c = {'do': do, 'id': count[0]}
            if do == 'set':
                c['cols'] = {col: 100 * c['id'] + i
                             for i, col in enumerate(rng.sample(cols, rng.randrange(1, len(cols) + 1)))}
            elif do == 'remove':
                c['cols'] = rng.sample(COLS, rng.randrange(1, 3)) if rng.random() < .3 else \
                    rng.sample(cols, rng.randrange(1, len(cols) + 1))
            else:
                c['posts'] = [post(rng, 't%d-%d' % (c['id'], i), nested)
                              for i in range(rng.choice((1, 1, 2) if do == 'append' else (0, 1, 2)))]
            return c

        def post(rng, name, nested=False):
            p = {'name': name}
            if not nested and rng.random() < pnested:
                p['change'] = change(rng, nested=True)
            return p

        plan = {'posts': [post(rng, 'p%d' % i) for i in range(rng.randrange(3))],
                'defaults': {c: i for i, c in enumerate(rng.sample(cols, rng.randrange(len(cols) + 1)))}}
        budget = 14
        for _ in range(rng.choice((2, 2, 3, 4))):
            ops = []
            for _ in range(min(budget, rng.randrange(1, 7))):
                budget -= 1
                r = rng.random()
                if r < padd:
                    count[0] += 1
                    op = {'id': count[0], 'do': 'add', 'n': rng.choice((1, 1, 2, 3)), 'how': rng.choice((0, 0, 1, 2)),
                          'cols': {c: -1 for c in cols if rng.random() < .2}}
                elif r < padd + pread:
                    count[0] += 1
                    op = {'id': count[0], 'do': rng.choice(('read-defaults', 'read-chain'))}
                else:
                    op = change(rng)
                maybe_fault(rng, faults, op['id'], pfault, 60)
                ops.append(op)
            if ops:
                threads.append(ops)
        plan.update(threads=threads, faults=faults, gran=rng.choice(('line', 'opcode', 'opcode')),
                    sched=sched(rng, rng.choice((40, 150, 500))))
        return plan

    def post(self, spec):
        if spec['name'] not in self.tags:
            self.tags[spec['name']] = Tag(self, spec['name'], spec.get('change'))
        return self.tags[spec['name']]

    def nested(self, change):
        """A change made by a postprocessor."""
        self.sim.probe('nested')
        inv = self.sim.event('nested-inv', change['id'])
        entry = {'op': change, 'inv': inv, 'res': 1 << 60, 'out': ('ok', None), 'fired': False, 'maybe': True,
                 'thread': -2}
        self.extra.append(entry)
        self.call(change)()
        entry.update(res=self.sim.event('nested-res', change['id']), maybe=False)

    def call(self, op):
        do, rec = op['do'], self.rec
        if do == 'set':
            return lambda: rec.add_column_defaults(**op['cols'])
        if do == 'remove':
            return lambda: rec.remove_column_defaults(*op['cols'])
        posts = [self.post(p) for p in op['posts']]
        if do == 'append':
            return lambda: rec.add_record_postprocessors(*posts)
        return lambda: rec.override_record_postprocessors(*posts)

    def perform(self, th, op):
        do, rec = op['do'], self.rec
        if do == 'add':
            ids = ['%d-%d' % (op['id'], i) for i in range(op['n'])]
            if op['how'] == 1:
                return lambda: rec.add(**op['cols'])(ids)
            if op['how'] == 2:
                return lambda: rec.padd(**op['cols'])(ids)
            return lambda: rec.add(ids, **op['cols'])
        if do == 'read-defaults':
            def fn():
                d = rec.column_defaults
                got = dict(d)
                d['a'] = 'spoilt'
                return got
            return fn
        if do == 'read-chain':
            return lambda: [p.name for p in rec.record_postprocessors()]
        return self.call(op)

    def execute(self, plan, make_sim):
        from whatami.registry import Recorder
        sim = self.sim = make_sim(faults=plan['faults'], sched=plan['sched'], gran=plan['gran'],
                                  files=module_files('registry.py'))
        self.tags, self.extra = {}, []
        self.rec = Recorder(record_postprocessors=[self.post(p) for p in plan['posts']], **plan['defaults'])
        history = run_concurrently(sim, plan['threads'], self.perform, canon=lambda v: None)
        last = max([h['res'] for h in history] + [0])
        for k, (do, fn) in enumerate([('read-defaults', lambda: dict(self.rec.column_defaults)),
                                      ('read-chain', lambda: [p.name for p in self.rec.record_postprocessors()])]):
            history.append({'op': {'do': do}, 'inv': last + 2 * k + 1, 'res': last + 2 * k + 2, 'out': ('ok', fn()),
                            'fired': False, 'maybe': False, 'thread': -1})
        ops = {'defaults': [], 'chain': []}
        for h in history + self.extra:
            op, out = h['op'], h['out']
            if out[0] == 'exc':
                if not h['fired']:
                    raise Violation('failed', '%s raised %s: %s%s' % (short(op), type(out[1]).__name__, out[1],
                                                                      tell(history + self.extra)))
                sim.probe('interrupted')
            if op['do'] == 'add':
                if out[0] == 'ok':
                    sim.probe('added')
                    for kind, piece in self.pieces(op, h):
                        ops[kind].append(piece)
                continue
            if op['do'].startswith('read'):
                sim.probe('read')
                if out[0] == 'exc':
                    continue
            else:
                sim.probe('changed')
            ops[OF[op['do']]].append(h)
        if any(a['inv'] < b['res'] and b['inv'] < a['res'] and a['op']['do'] in CHANGES for a in history
               for b in history if a is not b):
            sim.probe('overlap')
            sim.probe('nontrivial')
        starts = {'defaults': tuple(sorted(plan['defaults'].items())), 'chain': tuple(p['name'] for p in plan['posts'])}
        for kind in ('defaults', 'chain'):
            verdict = linearizable(ops[kind], starts[kind], self.step)
            if verdict is None:
                sim.probe('too-big')
            elif not verdict:
                raise Violation(kind, 'no order of the calls explains the %s, which were %s:%s' % (
                    kind, starts[kind], tell(sorted(ops[kind], key=lambda h: h['inv']))))

    @staticmethod
    def pieces(op, h):
        """What each record tells about the settings."""
        records = h['out'][1]
        if [i for i in records] != ['%d-%d' % (op['id'], i) for i in range(op['n'])]:
            raise Violation('records', 'adding %s gave %s' % (short(op), short(records)))
        for i, r in records.items():
            r = dict(r)
            must = dict(op['cols'], id=i)
            if any(r.get(c) != v for c, v in must.items()):
                raise Violation('records', 'adding %s gave %s' % (short(op), short(records)))
            seen = r.pop('seen', ())
            rest = {c: v for c, v in r.items() if c not in must}
            piece = {'inv': h['inv'], 'res': h['res'], 'maybe': False, 'thread': h['thread'], 'fired': h['fired']}
            yield 'defaults', dict(piece, op={'do': 'seen-defaults', 'id': i, 'cols': op['cols']}, out=('ok', rest))
            yield 'chain', dict(piece, op={'do': 'seen-chain', 'id': i}, out=('ok', list(seen)))

    @staticmethod
    def step(state, h):
        op, out = h['op'], h['out']
        do = op['do']
        if do == 'set':
            return (tuple(sorted(dict(state, **op['cols']).items())),)
        if do == 'remove':
            return (tuple((c, v) for c, v in state if c not in op['cols']),)
        if do == 'append':
            return (state + tuple(p['name'] for p in op['posts']),)
        if do == 'override':
            return (tuple(p['name'] for p in op['posts']),)
        if do == 'read-defaults':
            good = out[1] == dict(state)
        elif do == 'seen-defaults':
            good = out[1] == {c: v for c, v in state if c not in op['cols']}
        else:
            good = out[1] == list(state)
        return (state,) if good else ()


PROP = C27()
