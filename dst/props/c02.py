# coding=utf-8
"""C02: concurrent callers of a registry see it change one call at a time (linearizability)."""
from .. import gen
from ..core import Violation, rng_for, linearizable
from ..runner import Prop
from .common import module_files, maybe_fault, sched, run_concurrently, tell, USER_ERRORS
from .c01 import Model, make, ref, bad

NICKS = ('n1', 'n2', 'n3')


def yielding(what, sim):
    """User code whose what() can be preempted."""
    class Yields(object):
        def what(self):
            sim.here('what')
            sim.here('what')
            return what
    return Yields()


class C02(Prop):
    ID = 'C02'
    LOOKALIKES = {'n2': 'N1', 'n3': 'n1 '}, {'n1': 'a', 'n2': 'B', 'n3': 'A'}
    RUNS = {'quick': 7000, 'thorough': 100000}
    RULE = 'Two to four threads with 1-6 calls each over at most three nicknames and three ids, preempted at ' \
           'lines or bytecodes by a random walk or a few random preemption points.'
    REAL = ('whatami.registry', 'whatami.whatutils.what2id', 'whatami.what', 'whatami.plugins')
    STUB = ('thread scheduler and locks', 'user objects that yield or fail in what()', 'interrupts')
    ASSUMPTIONS = ('an interrupted call either took effect completely or not at all; if an interrupt falls between '
                   'taking a lock and entering the block that releases it, the simulator releases the lock',)
    NEED_PROBES = ('KeyboardInterrupt',)

    def prepare(self):
        import whatami  # noqa
        from whatami.registry import WhatamiRegistry  # noqa

    def make_plan(self, rng, index, tier):
        pool, seen = [], set()
        while len(pool) < 3:
            w = ['id', rng.choice(('a()', 'b(x=1)', 'n1', ''))] if rng.random() < .3 else gen.what(rng, 1)
            if ref(w) not in seen:
                seen.add(ref(w))
                pool.append(w)
        nicks = NICKS[:rng.choice((1, 2, 2, 3))]
        pool = pool[:rng.choice((1, 2, 2, 3))]
        threads, faults = [], []
        oid = 0
        pfault = rng.choice((0, 0, .2))
        mix = rng.choice(((.5, .75, .8), (.7, .8, .8), (.45, .9, .92), (.35, .5, .55)))
        budget = 13
        for _ in range(rng.choice((2, 2, 3, 4))):
            ops = []
            for _ in range(min(budget, rng.randrange(1, 7))):
                r = rng.random()
                op = {'id': oid, 'seed': rng.randrange(1 << 30), 'yields': rng.random() < .3}
                oid += 1
                budget -= 1
                nick, w = rng.choice(nicks), rng.choice(pool)
                if r < mix[0]:
                    op.update(do='register', nick=nick, what=w)
                    if rng.random() < .03:
                        op['what'] = ['fail', rng.choice(USER_ERRORS)]
                elif r < mix[1]:
                    op.update(do='remove', nick=nick, what=w)
                    k = rng.random()
                    if k < .4:
                        op['nick'] = None
                    elif k < .8:
                        op['what'] = None
                elif r < mix[2]:
                    op.update(do='reset')
                else:
                    op.update(do=rng.choice(('list', 'nick_or_id', 'nick2id', 'id2nick')), nick=nick, what=w)
                if op['do'] in ('register', 'remove', 'reset'):
                    maybe_fault(rng, faults, op['id'], pfault, 80)
                ops.append(op)
            if ops:
                threads.append(ops)
        return {'threads': threads, 'faults': faults, 'pool': pool, 'nicks': list(nicks),
                'initial': [[n, w] for n, w in zip(nicks, pool) if rng.random() < .3],
                'gran': rng.choice(('line', 'opcode')), 'narrow': rng.random() < .8,
                'sched': sched(rng, rng.choice((60, 200, 600)))}

    def execute(self, plan, make_sim):
        from whatami.registry import WhatamiRegistry
        sim = make_sim(faults=plan['faults'], sched=plan['sched'], gran=plan['gran'],
                       files=module_files('registry.py') if plan['narrow'] else module_files())
        reg = WhatamiRegistry()
        start = Model()
        for n, w in plan['initial']:
            reg.register(make(w, rng_for(0)), n)
            start.n2i[n] = ref(w)

        def perform(th, op):
            w = None
            if op.get('what') is not None:
                w = make(op['what'], rng_for(op['seed']))
                if op['yields'] and not bad(op['what']) and op['what'][0] != 'id':
                    w = yielding(w, sim)
            nick = op.get('nick')
            return {
                'register': lambda: reg.register(w, nick),
                'remove': lambda: reg.remove(nickname=nick, what=w),
                'reset': reg.reset,
                'list': reg.list,
                'nick_or_id': lambda: reg.nick_or_id(w),
                'nick2id': lambda: reg.nick2id(nick),
                'id2nick': lambda: reg.id2nick(ref(op['what'])),
            }[op['do']]

        history = run_concurrently(sim, plan['threads'], perform, canon=lambda v: None)
        last = max([h['res'] for h in history] + [0])

        def final(do, value, **kwargs):
            history.append({'op': dict(do=do, **kwargs), 'inv': last + 1, 'res': last + 2, 'out': ('ok', value),
                            'fired': False, 'maybe': False, 'thread': -1})
        # everything visible at the end, all at once
        final('all', (list(reg.list()), {n: reg.nick2id(n) for n in plan['nicks']},
                      {ref(w): reg.id2nick(ref(w)) for w in plan['pool']}))

        def step(state, h):
            op, out = h['op'], h['out']
            model = Model(state)
            do = op['do']
            if do == 'all':
                i2n = model.i2n()
                return [state] if out[1] == (sorted(state), {n: model.n2i.get(n) for n in plan['nicks']},
                                             {ref(w): i2n.get(ref(w)) for w in plan['pool']}) else []
            after = model.after(op)
            if out[0] == 'exc':
                if h['fired']:
                    return [state if after is None else freeze(after)]
                return [state] if after is None else []
            if after is None:
                return []
            v = out[1]
            if do == 'list':
                return [state] if v == sorted(state) else []
            if do == 'nick_or_id':
                return [state] if v == model.i2n().get(ref(op['what']), ref(op['what'])) else []
            if do == 'nick2id':
                return [state] if v == model.n2i.get(op['nick']) else []
            if do == 'id2nick':
                return [state] if v == model.i2n().get(ref(op['what'])) else []
            return [freeze(after)]

        if linearizable(history, freeze(start), step) is False:
            raise Violation('not-linearizable', 'no order of the calls explains what they returned:%s' % tell(history))


def freeze(model):
    return tuple(sorted(model.n2i.items()))


PROP = C02()
