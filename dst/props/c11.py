# coding=utf-8
"""C11: the plugin chain is exactly what the accepted changes made it."""
from functools import partial

from .. import gen
from ..core import Violation, InjectedError, linearizable
from ..runner import Prop
from .common import module_files, maybe_fault, sched, run_concurrently, tell, short, looks, look_now

NCUSTOM = 6
# What each custom plugin does with a value: text to render, ! to fail, None to pass
WORDS = ('alpha', 'beta', 'gamma', 'x', '')
DROPPABLE = ('string_plugin', 'numeric_type_plugin', 'tuple_plugin', 'dict_plugin', 'set_plugin', 'function_plugin',
             'what_plugin', 'anyobject0x_plugin', 'partial_plugin', 'builtin_plugin')
VALUES = [['str', w] for w in WORDS] + [['int', i] for i in (0, 1, 2)] + [['none'], ['bool', True], ['float', '0.5'],
                                                                         ['type', 'int']]


class Accepts(object):
    """A plugin without name."""

    def __init__(self, table, tag, here):
        self.table, self.tag, self.here = table, tag, here

    def rule(self, v):
        return rule(self.table, self.tag, v)

    def __call__(self, v):
        self.here()
        r = self.rule(v)
        if r == '!':
            raise InjectedError('plugin %s' % self.tag)
        return r

    def method(self, v):
        return self(v)


def rule(table, tag, v):
    if isinstance(v, (list, tuple, dict, set)) or callable(v):
        return None
    key = '%s:%r' % (type(v).__name__, v)
    what = table.get(key)
    return {'r': '<%s %s>' % (tag, v), '!': '!'}.get(what)


def key_of(spec):
    v = gen.build(spec)
    return '%s:%r' % (type(v).__name__, v)


def custom(tables, here):
    """Plugins of all kinds."""
    plugins = []
    for i, table in enumerate(tables):
        a = Accepts(table, 'P%d' % i, here)
        if i % 4 == 0:
            def f(v, a=a):
                return a(v)
            p = f
        elif i % 4 == 1:
            p = partial(a.method)
        elif i % 4 == 2:
            p = a
        else:
            p = lambda v, a=a: a(v)
        plugins.append(p)
    return plugins


class Model(object):
    """Chains are tuples of names: those of the default plugins, or c0, c1..."""

    def __init__(self, default, real, tables):
        self.default = default          # names
        self.real = real                # {name: plugin}
        self.tables = tables

    def change(self, chain, op):
        """The next chain, or None if it must be refused."""
        do = op['do']
        if do == 'reset':
            return self.default
        p = op['plugin']
        if do == 'drop':
            return tuple(x for x in chain if x != p) if p in chain else None
        if p in chain:
            return None
        before = op['before']
        if before is None:
            return chain + (p,)
        before = 'anyobject0x_plugin' if before == 'default' else before
        if before not in chain:
            return None
        i = chain.index(before)
        return chain[:i] + (p,) + chain[i:]

    def render(self, chain, spec):
        """The text for a value, '!' if it fails, None if nobody takes it."""
        kind = spec[0]
        for name in chain:
            if name[0] == 'c' and name[1:].isdigit():
                r = self.tables[int(name[1:])].get(key_of(spec)) if kind not in ('list', 'tuple', 'type') else None
                if r is not None:
                    return '!' if r == '!' else '<P%s %s>' % (name[1:], gen.build(spec))
                continue
            if kind in ('list', 'tuple'):
                if name == kind + '_plugin':
                    parts = [self.render(chain, s) for s in spec[1]]
                    if '!' in parts:
                        return '!'
                    if None in parts:
                        return None
                    return ('[%s]' if kind == 'list' else '(%s)') % ','.join(parts)
                if name == 'anyobject_plugin':
                    return str(gen.build(spec))
                continue
            r = self.real[name](gen.build(spec))
            if r is not None:
                return r
        return None


class C11(Prop):
    ID = 'C11'
    RUNS = {'quick': 5000, 'thorough': 100000}
    RULE = 'A third of the runs are histories of 4-20 insertions, drops, resets and ids in one thread; the rest are 2-4 ' \
           'threads with up to 12 calls under a random or PCT schedule. Plugins of all kinds (functions, partials, ' \
           'callable instances, lambdas) take, pass or fail on given values. Calls are interrupted at some of their ' \
           'lines.'
    REAL = ('whatami.plugins', 'whatami.what')
    STUB = ('thread scheduler', 'locks', 'interrupts', 'user plugins')
    NEED_PROBES = ('refused', 'accepted', 'interrupted', 'rendered', 'plugin-failed', 'custom-rendered', 'concurrent')

    def prepare(self):
        import whatami.whatutils  # noqa
        from whatami.plugins import WhatamiPluginManager
        self.baseline = tuple(WhatamiPluginManager.plugins())
        self.names = [p.__name__ for p in self.baseline]

    def make_plan(self, rng, index, tier):
        concurrent = rng.random() < .67
        tables = []
        for _ in range(NCUSTOM):
            t = {}
            for v in VALUES:
                if rng.random() < .3:
                    t[key_of(v)] = '!' if rng.random() < .25 else 'r'
            tables.append(t)
        faults = []
        pool = ['c%d' % i for i in rng.sample(range(NCUSTOM), rng.choice((1, 2, 3, NCUSTOM)))]
        pfault = rng.choice((0, 0, .25))

        def op(i):
            o = {'id': i}
            r = rng.random()
            name = rng.choice(pool) if rng.random() < .75 else rng.choice(DROPPABLE)
            if r < .35:
                before = rng.choice(('default', 'default', None, 'what_plugin', 'string_plugin', 'anyobject_plugin',
                                     rng.choice(pool), rng.choice(DROPPABLE)))
                o.update(do='insert', plugin=name, before=before)
            elif r < .55:
                o.update(do='drop', plugin=name)
            elif r < .63:
                o.update(do='reset')
            elif r < .72:
                o.update(do='plugins')
            else:
                values = [rng.choice(VALUES) for _ in range(rng.randrange(1, 4))]
                if rng.random() < .3:
                    values.append([rng.choice(('list', 'list', 'tuple')), [rng.choice(VALUES) for _ in range(2)]])
                o.update(do='id', values=values)
            maybe_fault(rng, faults, i, pfault, 25)
            return o

        if not concurrent:
            return {'ops': [op(i) for i in range(rng.randrange(4, 21))], 'faults': faults, 'tables': tables,
                    'look': looks(rng)}
        n = rng.choice((2, 2, 3, 4))
        threads, i = [], 0
        for _ in range(n):
            ops = []
            for _ in range(rng.randrange(1, 2 + 10 // n)):
                ops.append(op(i))
                i += 1
            threads.append(ops)
        return {'threads': threads, 'faults': faults, 'tables': tables, 'sched': sched(rng, 200),
                'gran': 'opcode' if rng.random() < .2 else 'line',
                'before': [op(1000 + k) for k in range(rng.randrange(4))]}

    # --- execution

    def performer(self, plan, real):
        from whatami.plugins import WhatamiPluginManager as M
        from whatami import What

        def perform(op):
            do = op['do']
            if do == 'insert':
                if op['before'] == 'default':
                    return lambda: M.insert(real[op['plugin']])
                return lambda: M.insert(real[op['plugin']], before=None if op['before'] is None else real[op['before']])
            if do == 'drop':
                return lambda: M.drop(real[op['plugin']])
            if do == 'reset':
                return M.reset
            if do == 'plugins':
                return M.plugins
            what = What('f', {'abcdefg'[i]: gen.build(s) for i, s in enumerate(op['values'])})
            return what.id
        return perform

    def execute(self, plan, make_sim):
        from whatami.plugins import WhatamiPluginManager as M
        sim = make_sim(faults=plan['faults'], files=module_files('plugins.py', 'what.py'), sched=plan.get('sched'),
                       gran=plan.get('gran', 'line'))
        M.reset()
        if tuple(M.plugins()) != self.baseline:
            raise Violation('reset', 'after reset the chain is not the default one')
        real = dict(zip(self.names, self.baseline))
        for i, p in enumerate(custom(plan['tables'], sim.here)):
            real['c%d' % i] = p
        inverse = {id(p): n for n, p in real.items()}

        def chain_of(plugins):
            return tuple(inverse.get(id(p), '?') for p in plugins)

        default = tuple(self.names)
        model = Model(default, real, plan['tables'])
        perform = self.performer(plan, real)
        try:
            if 'ops' in plan:
                self.sequential(plan, sim, sim.enter(), plan['ops'], model, perform, chain_of, (default,))
                sim.leave()
            else:
                chains = (default,)
                th = sim.enter()
                for op in plan['before']:
                    chains = self.sequential(plan, sim, th, [op], model, perform, chain_of, chains)
                sim.leave()
                self.concurrent(sim, plan, model, perform, chain_of, chains[0])
        finally:
            M.reset()

    def sequential(self, plan, sim, th, ops, model, perform, chain_of, chains):
        from whatami.plugins import WhatamiPluginManager as M
        for op in ops:
            out, _, _, fired = sim.op(th, op['id'], perform(op), canon=lambda v: v if isinstance(v, str) else None)
            maybe = fired and out[0] == 'exc'
            if maybe:
                sim.probe('interrupted')
            chain = chains[0]
            nexts = self.step(model, chain, op, out, maybe, chain_of, sim)
            if nexts is None:
                raise Violation('call', '%s with chain %s %s' % (
                    {k: v for k, v in op.items() if k != 'id'}, self.custom_of(chain, model), self.said(out)))
            if len(nexts) == 1 and op is not ops[-1] and not look_now(plan, op['id']):
                sim.probe('not-looked')
                chains = nexts
                continue
            now = chain_of(M.plugins())
            if now not in nexts:
                raise Violation('chain', 'after %s with chain %s, the chain is %s' % (
                    {k: v for k, v in op.items() if k != 'id'}, self.custom_of(chain, model),
                    self.custom_of(now, model)))
            chains = (now,)
        if len(ops) > 3:
            sim.probe('nontrivial')
        return chains

    @staticmethod
    def custom_of(chain, model):
        return list(chain) if chain != model.default else 'default'

    @staticmethod
    def said(out):
        return 'returned %s' % short(out[1]) if out[0] == 'ok' else 'raised %s: %s' % (type(out[1]).__name__, out[1])

    def step(self, model, chain, op, out, maybe, chain_of, sim=None):
        """Possible next chains, None if the outcome is not possible."""
        do = op['do']
        if do in ('insert', 'drop', 'reset'):
            nxt = model.change(chain, op)
            if maybe:
                return (chain,) if nxt is None else (chain, nxt)
            if nxt is None:
                if sim:
                    sim.probe('refused')
                return (chain,) if out[0] == 'exc' and type(out[1]) is ValueError else None
            if sim:
                sim.probe('accepted')
            return (nxt,) if out[0] == 'ok' else None
        if maybe:
            return (chain,)
        if do == 'plugins':
            return (chain,) if out[0] == 'ok' and chain_of(out[1]) == chain else None
        parts = [model.render(chain, s) for s in op['values']]
        if None in parts and '!' not in parts:
            return (chain,)       # nobody takes a value: undefined
        if '!' in parts:
            if None in parts:
                return (chain,)
            if sim:
                sim.probe('plugin-failed')
            return (chain,) if out[0] == 'exc' and isinstance(out[1], InjectedError) else None
        expected = 'f(%s)' % ','.join('%s=%s' % ('abcdefg'[i], p) for i, p in enumerate(parts))
        if sim:
            sim.probe('rendered')
            if '<P' in expected:
                sim.probe('custom-rendered')
        return (chain,) if out == ('ok', expected) else None

    def concurrent(self, sim, plan, model, perform, chain_of, chain):
        from whatami.plugins import WhatamiPluginManager as M
        history = run_concurrently(sim, plan['threads'], lambda th, op: perform(op),
                                   canon=lambda v: v if isinstance(v, str) else None)
        sim.probe('concurrent')
        ops = []
        for h in history:
            if h['op']['do'] != 'id':
                ops.append(h)
            elif not h['maybe']:
                ops.extend(self.pieces(h))
            else:
                sim.probe('interrupted')
        ops.append({'op': {'do': 'plugins'}, 'inv': sim.seq + 1, 'res': sim.seq + 2, 'out': ('ok', M.plugins()),
                    'maybe': False})

        cache = {}

        def render(state, spec):
            k = (state, repr(spec))
            if k not in cache:
                cache[k] = model.render(state, spec)
            return cache[k]

        def step(state, h):
            if 'piece' in h:
                r = render(state, h['piece'])
                return (state,) if r is None or r == h['text'] else ()
            if h['op']['do'] == 'id':      # failed: some value must fail in some chain
                ok = any(render(state, s) in ('!', None) for v in h['op']['values']
                         for s in ([v] if v[0] not in ('list', 'tuple') else v[1] + [v]))
                return (state,) if ok and isinstance(h['out'][1], (InjectedError, TypeError)) else ()
            return self.step(model, state, h['op'], h['out'], h['maybe'], chain_of) or ()

        verdict = linearizable(ops, chain, step)
        if verdict is None:
            sim.probe('too-big')
        elif not verdict:
            raise Violation('history', 'no order of these calls explains their results, with final chain %s%s' % (
                self.custom_of(chain_of(M.plugins()), model), tell(history)))

    def pieces(self, h):
        """The values of an id, one by one."""
        if h['out'][0] == 'exc':
            return [h]
        text = h['out'][1]
        values = h['op']['values']
        pieces = []
        if not (text.startswith('f(') and text.endswith(')')):
            raise Violation('id', 'the id is %r' % text)
        rest = text[2:-1]
        for i, spec in enumerate(values):
            prefix = ('' if i == 0 else ',') + 'abcdefg'[i] + '='
            if not rest.startswith(prefix):
                raise Violation('id', 'the id is %r, where %r must follow' % (text, prefix))
            rest = rest[len(prefix):]
            end = rest.find(',%s=' % 'abcdefg'[i + 1]) if i + 1 < len(values) else len(rest)
            piece, rest = rest[:end], rest[end:]
            if spec[0] in ('list', 'tuple') and piece[:1] in '[(' and ', ' not in piece:
                inner = piece[1:-1].split(',')
                if len(inner) == 2:
                    pieces.extend((s, t) for s, t in zip(spec[1], inner))
                    continue
            if spec[0] not in ('list', 'tuple'):
                pieces.append((spec, piece))
        return [{'op': {'do': 'value'}, 'inv': h['inv'], 'res': h['res'], 'out': h['out'], 'piece': s, 'text': t,
                 'maybe': False} for s, t in pieces]

    def shrink_more(self, plan):
        for i, t in enumerate(plan['tables']):
            if t:
                plan['tables'][i] = {}
                yield plan
                plan['tables'][i] = t


PROP = C11()
