# coding=utf-8
"""C01: a registry is a one-to-one mapping after any history of calls, also refused, failing or interrupted ones."""
import copy
import pickle

from .. import gen
from ..core import EXCS, Violation
from ..runner import Prop
from .common import module_files, maybe_fault, USER_ERRORS, short

NICKS = ('n1', 'n2', 'n3', '', u'\xf1ick')
LOOKALIKES = {'n2': 'N1', 'n3': 'n1 '}, {'n2': ' n1', 'n3': 'n1()'}, {'n1': 'a', 'n2': 'B', 'n3': 'A'}
ALL_NICKS = NICKS + tuple(sorted({v for m in LOOKALIKES for v in m.values()}))


def whats(rng):
    """Some things with different ids."""
    pool, seen = [], set()
    while len(pool) < 5:
        if rng.random() < .3:
            w = ['id', rng.choice(('a()', 'b(x=1)', 'whatever', '', 'n1', 'c(y=2)'))]
            i = w[1]
        else:
            w = gen.what(rng, 2, nonids=True) if rng.random() < .6 else \
                [rng.choice(('W', 'duck', 'wfn')), rng.choice(gen.NAMES), gen.kvs(rng, 1)]
            i = gen.ref(w)
        if i not in seen:
            seen.add(i)
            pool.append(w)
    return pool


def make(spec, rng):
    kind = spec[0]
    if kind == 'id':
        return spec[1]
    if kind == 'nowhat':
        return None
    if kind == 'fail':
        return failing(spec[1])
    return gen.build(spec, order=lambda items: rng.sample(items, len(items)))


def failing(exc):
    class Fails(object):
        def what(self):
            raise EXCS[exc]('user code')
    return Fails()


def ref(spec):
    return spec[1] if spec[0] == 'id' else gen.ref(spec)


def bad(spec):
    return spec[0] in ('nowhat', 'fail')


class Model(object):
    """One-to-one mapping nickname <-> id."""

    def __init__(self, n2i=()):
        self.n2i = dict(n2i)

    def i2n(self):
        return {i: n for n, i in self.n2i.items()}

    def after(self, op):
        """The next model, or None if the call must be refused."""
        do, nick, w = op['do'], op.get('nick'), op.get('what')
        new = Model(self.n2i)
        if do == 'reset':
            return Model()
        if do == 'register':
            if nick is None or bad(w):
                return None
            i = ref(w)
            if self.n2i.get(nick, i) != i or self.i2n().get(i, nick) != nick:
                return None
            new.n2i[nick] = i
            return new
        if do == 'remove':
            if w is not None and w[0] == 'fail':
                return None
            i = ref(w) if w is not None and not bad(w) else None
            if nick is None and i is None:
                return None
            if nick is None:
                nick = self.i2n().get(i)
            elif i is not None and self.n2i.get(nick) != i:
                return None
            if nick not in self.n2i:
                return None
            del new.n2i[nick]
            return new
        return self


def observe(registry, ids):
    """Everything that can be seen from outside."""
    return {'list': list(registry.list()),
            'nick2id': {n: registry.nick2id(n) for n in ALL_NICKS},
            'id2nick': {i: registry.id2nick(i) for i in ids},
            'nick_or_id': {i: registry.nick_or_id(i) for i in ids}}


def seen(model, ids):
    i2n = model.i2n()
    return {'list': sorted(model.n2i.items()),
            'nick2id': {n: model.n2i.get(n) for n in ALL_NICKS},
            'id2nick': {i: i2n.get(i) for i in ids},
            'nick_or_id': {i: i2n.get(i, i) for i in ids}}


class C01(Prop):
    ID = 'C01'
    LOOKALIKES = LOOKALIKES
    RUNS = {'quick': 4500, 'thorough': 60000}
    RULE = 'Histories of 4-30 calls (register, remove, reset, lookups, copying, pickling) on two registries, with ' \
           'colliding nicknames and ids, failing what() methods and interrupts raised inside the calls; after each ' \
           'call everything visible is compared with a reference one-to-one mapping.'
    REAL = ('whatami.registry', 'whatami.whatutils.what2id', 'whatami.what', 'whatami.plugins')
    STUB = ('user objects whose what() fails', 'interrupts')
    ASSUMPTIONS = ('an interrupted call either took effect completely or not at all; if an interrupt falls between '
                   'taking a lock and entering the block that releases it, the simulator releases the lock',)
    NEED_PROBES = ('KeyboardInterrupt', 'refused', 'user-failure', 'interrupted-change')

    def prepare(self):
        import whatami  # noqa
        from whatami.registry import WhatamiRegistry  # noqa

    def make_plan(self, rng, index, tier):
        pool = whats(rng)
        faults = []
        ops = []
        narrow = rng.random() < .6
        nfaulty = rng.choice((0, .15, .4))
        for i in range(rng.randrange(4, 31)):
            r = rng.random()
            op = {'id': i, 'reg': int(rng.random() < .25), 'seed': rng.randrange(1 << 30)}
            if r < .45:
                op.update(do='register', nick=rng.choice(NICKS), what=rng.choice(pool))
            elif r < .75:
                op.update(do='remove', nick=rng.choice(NICKS), what=rng.choice(pool))
                k = rng.random()
                if k < .33:
                    op['nick'] = None
                elif k < .66:
                    op['what'] = None
                elif k < .7:
                    op['nick'] = op['what'] = None
            elif r < .79:
                op.update(do='reset')
            elif r < .84:
                op.update(do=rng.choice(('deepcopy', 'pickle')))
            else:
                op.update(do=rng.choice(('list', 'nick_or_id', 'nick2id', 'id2nick')), nick=rng.choice(NICKS),
                          what=rng.choice(pool))
            if op['do'] in ('register', 'remove') and rng.random() < .1:
                k = rng.random()
                if k < .2 and op['do'] == 'register':
                    op['nick'] = None
                elif k < .35 and op['do'] == 'register':
                    op['what'] = ['nowhat']
                elif op.get('what') is not None:
                    op['what'] = ['fail', rng.choice(USER_ERRORS)]
            if op['do'] in ('register', 'remove', 'reset'):
                maybe_fault(rng, faults, i, nfaulty, 60 if narrow else 250)
            ops.append(op)
        return {'ops': ops, 'faults': faults, 'pool': pool, 'narrow': narrow,
                'gran': rng.choice(('line', 'opcode')), 'look': rng.choice((1, 1, .3, 0))}

    def execute(self, plan, make_sim):
        from ..core import rng_for
        from whatami.registry import WhatamiRegistry
        sim = make_sim(faults=plan['faults'], gran=plan['gran'],
                       files=module_files('registry.py') if plan['narrow'] else module_files())
        th = sim.enter()
        ids = sorted({ref(w) for w in plan['pool']})
        regs = [WhatamiRegistry('one'), WhatamiRegistry('two')]
        models = [Model(), Model()]
        kept = []           # registries copied, and copies, that must never change
        for op in plan['ops']:
            r = op['reg']
            reg, do = regs[r], op['do']
            w = None
            if op.get('what') is not None:
                w = make(op['what'], rng_for(op['seed']))
            nick = op.get('nick')
            call = {
                'register': lambda: reg.register(w, nick),
                'remove': lambda: reg.remove(nickname=nick, what=w),
                'reset': reg.reset,
                'deepcopy': lambda: copy.deepcopy(reg),
                'pickle': lambda: pickle.loads(pickle.dumps(reg)),
                'list': reg.list,
                'nick_or_id': lambda: reg.nick_or_id(w),
                'nick2id': lambda: reg.nick2id(nick),
                'id2nick': lambda: reg.id2nick(ref(op['what'])),
            }[do]
            out, _, _, fired = sim.op(th, op['id'], call, canon=lambda v: type(v).__name__)
            before, after = models[r], models[r].after(op)
            where = '%s in %s' % ({k: v for k, v in op.items() if k != 'seed'}, do)
            if fired and out[0] == 'exc':
                sim.probe('interrupted-change')
                state = observe(reg, ids)
                if after is not None and state == seen(after, ids):
                    models[r] = after
                elif state != seen(before, ids):
                    raise Violation('half-done', 'after interrupting %s: %s; neither %s nor %s' % (
                        where, short(state, 900), short(seen(before, ids), 900),
                        after and short(seen(after, ids), 900)))
            elif after is None:
                sim.probe('refused')
                if op.get('what') and op['what'][0] == 'fail':
                    sim.probe('user-failure')
                if out[0] == 'ok':
                    raise Violation('accepted', '%s must be refused' % where)
            else:
                if out[0] == 'exc':
                    raise Violation('refused', '%s raised %s: %s' % (where, type(out[1]).__name__, out[1]))
                v = out[1]
                if do == 'register' and v is not w:
                    raise Violation('not-fluent', '%s did not return the registered object' % where)
                if do in ('deepcopy', 'pickle'):
                    if op['seed'] % 2:
                        kept.append((v, Model(before.n2i)))
                    else:
                        kept.append((reg, Model(before.n2i)))
                        regs[r], reg = v, v
                if do == 'list' and v != sorted(before.n2i.items()):
                    raise Violation('lookup', '%s gave %r' % (where, v))
                if do == 'nick_or_id' and v != before.i2n().get(ref(op['what']), ref(op['what'])):
                    raise Violation('lookup', '%s gave %r' % (where, v))
                if do == 'nick2id' and v != before.n2i.get(nick):
                    raise Violation('lookup', '%s gave %r' % (where, v))
                if do == 'id2nick' and v != before.i2n().get(ref(op['what'])):
                    raise Violation('lookup', '%s gave %r' % (where, v))
                models[r] = after
            # not always, as looking could also hide problems
            if op['id'] == plan['ops'][-1]['id'] or op['seed'] % 97 < 97 * plan.get('look', 1):
                for which in (0, 1):
                    self.compare(regs[which], models[which], ids, 'after %s registry %d' % (where, which))
        for reg, model in kept:
            self.compare(reg, model, ids, 'at the end a registry that was copied, or a copy,')
        sim.leave()

    @staticmethod
    def compare(reg, model, ids, where):
        state = observe(reg, ids)
        if state != seen(model, ids):
            raise Violation('state', '%s is %s, must be %s' % (where, short(state, 900), short(seen(model, ids), 900)))


PROP = C01()
