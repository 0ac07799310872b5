# coding=utf-8
"""C29: recorders can be subclassed, overriding add."""
import copy
import inspect

from ..core import Violation, EXCS
from ..runner import Prop
from .common import module_files, maybe_fault, short, looks, look_now, USER_ERRORS
from .table import Table, Refused, observe, expected, same, same_state

EXTRAS = ('continent', 'zone', 'kind', 'ids_', 'id2')
IDS = ('r1', 'r2', 'r3', 'r4', 'r5', 'r6')
LOOKALIKES = {'r2': 'R1', 'r3': 'r1 ', 'r4': ' r1', 'zone': 'Continent'}, {'r2': 'r1_', 'r3': 'r1()', 'r4': 'r', 'zone': 'continent_'}
ALL_IDS = IDS + tuple(v for m in LOOKALIKES for k, v in sorted(m.items()) if k in IDS)


class C29(Prop):
    ID = 'C29'
    LOOKALIKES = LOOKALIKES
    RUNS = {'quick': 5000, 'thorough': 80000}
    RULE = 'Histories of 5-30 steps: defining classes that override add with generated signatures, at several levels of ' \
           'inheritance, creating recorders, and calling add and the functions it returns with part or all of its ' \
           'arguments by position or name, with failing bodies and interrupts.'
    REAL = ('whatami.registry.Recorder', 'whatami.misc (decorate_some, ensure_has_positional_args)', 'toolz.curry')
    STUB = ('interrupts', 'user classes')
    NEED_PROBES = ('defined', 'class-refused', 'waiting', 'added', 'refused', 'body-failed', 'interrupted', 'deep',
                   'bad-call', 'padd')

    def prepare(self):
        import whatami  # noqa
        from whatami.registry import Recorder
        Recorder().add('a', by=1)

    # --- Plans

    def signature(self, rng):
        """The parameters of an add: [name, required or not] and keyword only ones."""
        params = [[e, rng.random() < .6] for e in rng.sample(EXTRAS, rng.choice((0, 1, 1, 2, 3)))]
        how = rng.choice(('ids',) * 6 + ('absent', 'renamed', 'default', 'kwonly'))
        ids = {'ids': ['ids', True], 'renamed': ['id_s', True], 'default': ['ids', False]}.get(how)
        if ids is not None:
            params.insert(rng.choice((0, 0, rng.randrange(len(params) + 1))), ids)
        params.sort(key=lambda p: not p[1])     # those with defaults come last
        return {'params': params, 'how': how, 'kwonly': how == 'kwonly'}

    def make_plan(self, rng, index, tier):
        faults, ops = [], []
        pfault = rng.choice((0, 0, .2))
        shared = rng.random() < .3
        for i in range(rng.randrange(5, 31)):
            op = {'id': i}
            r = rng.random()
            if i == 0 or r < .15:
                op.update(do='define', base=rng.randrange(6), sig=self.signature(rng), override=rng.random() < .85)
                maybe_fault(rng, faults, i, pfault / 3, 60)
            elif i == 1 or r < .28:
                op.update(do='create', cls=rng.choice((-1, -1, rng.randrange(6))),
                          defaults={'d': i} if rng.random() < .3 else {})
            elif r < .35:
                op.update(do='padd', handle=rng.randrange(40) if rng.random() < .7 else -1, own=rng.random() < .5,
                          cols={e: 'p%d' % i for e in EXTRAS[:3] + ('c',) if rng.random() < .3})
            else:
                op.update(do='call', handle=rng.randrange(40) if rng.random() < .7 else -1,
                          ids=rng.choice((None, rng.choice(IDS), rng.sample(IDS, rng.randrange(1, 3)))),
                          named=rng.random() < .2,
                          cols={e: 'v%d' % i for e in (EXTRAS if rng.random() < .5 else EXTRAS[:3]) + ('c',)
                                if rng.random() < .35},
                          positional=['p%d-%d' % (i, k) for k in range(rng.choice((0, 0, 0, 1, 2)))],
                          fail=rng.choice(USER_ERRORS) if rng.random() < .08 else None)
                maybe_fault(rng, faults, i, pfault, 100)
            ops.append(op)
        return {'ops': ops, 'faults': faults, 'look': looks(rng), 'shared': shared}

    # --- Running

    def execute(self, plan, make_sim):
        from whatami.registry import Recorder
        sim = self.sim = make_sim(faults=plan['faults'], files=module_files('registry.py', 'misc.py'))
        th = sim.enter()
        self.failing = None
        classes = [(Recorder, None)]        # the class, and its levels of overriding, the deepest first
        levels = {0: []}
        recs, handles = [], []
        for op in plan['ops']:
            do = op['do']
            if do == 'define':
                n = op['base'] % len(classes)
                self.define(th, op, classes, levels, n)
            elif do == 'create':
                n = op['cls'] % len(classes)
                rec = classes[n][0](**op['defaults'])
                recs.append((rec, Table(defaults=op['defaults']), levels[n]))
                handles.append((len(recs) - 1, rec.add, [], {}))
                if len(levels[n]) > 1:
                    sim.probe('deep')
            elif do == 'padd':
                if handles:
                    r, handle, args, kwargs = handles[op['handle'] % len(handles)]
                    if op['own']:
                        handle, args, kwargs = None, [], {}
                    got = recs[r][0].padd(handle, **op['cols']) if op['id'] % 2 else \
                        recs[r][0].padd(add=handle, **op['cols'])
                    handles.append((r, got, args, dict(kwargs, **op['cols'])))
                    sim.probe('padd')
            elif handles:
                self.call(th, op, recs, handles)
            if look_now(plan, op['id']):
                self.look(recs, op)
        self.look(recs, 'all')
        if sim.probes.get('added') and sim.probes.get('waiting'):
            sim.probe('nontrivial')
        sim.leave()

    def look(self, recs, when):
        for i, (rec, table, _) in enumerate(recs):
            state = observe(rec, list(ALL_IDS))
            must = expected(table, list(ALL_IDS))
            if not same_state(state, must):
                raise Violation('state', 'after %s recorder %d has %s, must have %s' % (
                    short(when, 500), i, short(state, 900), short(must, 900)))

    def define(self, th, op, classes, levels, base):
        sig = op['sig']
        ns = {'Base': classes[base][0], 'BODY': self.body}
        if not op['override']:
            text = 'class Sub(Base):\n    pass\n'
        else:
            args = ['self'] + [name if req else "%s='default %s'" % (name, name) for name, req in sig['params']]
            if sig['kwonly']:
                args += ['*', 'ids']
            names = [name for name, _ in sig['params'] if name not in ('ids', 'id_s')]
            passed = ['%s=%s' % (name, name) for name in names]
            # what the base requires
            required = [name for level in levels[base][:1] for name, req in level['params']
                        if req and name not in ('ids', 'id_s') and name not in names]
            ids = 'id_s' if sig['how'] == 'renamed' else "'none'" if sig['how'] == 'absent' else 'ids'
            text = 'class Sub(Base):\n    def add(%s, **columns):\n        BODY()\n%s' \
                   '        return super(Sub, self).add(%s)\n' % (
                       ', '.join(args),
                       ''.join("        columns.setdefault(%r, 'auto')\n" % name for name in required),
                       ', '.join(['ids=' + ids] + passed + ['**columns']))

        def fn():
            exec(text, ns)
            return ns['Sub']
        out, _, _, fired = self.sim.op(th, op['id'], fn, canon=lambda v: None)
        good = not op['override'] or sig['how'] == 'ids'
        if fired and out[0] == 'exc':
            self.sim.probe('interrupted')
            return
        if not good:
            self.sim.probe('class-refused')
            if out[0] == 'ok' or not isinstance(out[1], Exception):
                raise Violation('accepted', 'this class must be refused:\n%s' % text)
            return
        if out[0] == 'exc':
            raise Violation('class-refused', 'this class raised %s: %s\n%s' % (type(out[1]).__name__, out[1], text))
        self.sim.probe('defined')
        levels[len(classes)] = ([{'params': sig['params']}] if op['override'] else []) + levels[base]
        classes.append((out[1], text))

    def body(self):
        self.sim.here('user')
        if self.failing is not None:
            self.raised = EXCS[self.failing]('body of add')
            raise self.raised

    @staticmethod
    def bind(params, args, kwargs):
        """What the parameters get: None if more arguments are needed, raises Refused if they are not possible."""
        P = inspect.Parameter
        sig = inspect.Signature([P(n, P.POSITIONAL_OR_KEYWORD, default=P.empty if req else 'default ' + n)
                                 for n, req in params] + [P('columns', P.VAR_KEYWORD)])
        try:
            sig.bind_partial(*args, **kwargs)
        except TypeError:
            raise Refused('arguments')
        try:
            bound = sig.bind(*args, **kwargs)
        except TypeError:
            return None
        bound.apply_defaults()
        values = dict(bound.arguments)
        return values, values.pop('columns')

    def call(self, th, op, recs, handles):
        r, handle, args, kwargs = handles[op['handle'] % len(handles)]
        rec, table, levels = recs[r]
        base = [['ids', True], ['unbox_iterables', False], ['record_postprocessors', False],
                ['override_postprocessors', False]]
        params = levels[0]['params'] if levels else base
        more, named = list(op['positional']), dict(op['cols'])
        if not levels:
            more = []       # they would be the options of add
        ids = op['ids']
        if ids is not None:
            free = [n for n, _ in params[len(args) + len(more):]]
            if op['named'] or free[:1] != ['ids']:
                named['ids'] = ids
            else:
                more.append(ids)
        args = args + more
        kwargs = dict(kwargs, **named)
        self.failing, self.raised = op['fail'], None
        out, _, _, fired = self.sim.op(th, op['id'], lambda: handle(*copy.deepcopy(more), **copy.deepcopy(named)),
                                       canon=lambda v: None)
        self.failing = None
        story = 'calling with %s and %s the add%s of recorder %d' % (
            args, kwargs, [level['params'] for level in levels], r)
        try:
            new, waits = self.outcome(levels, params, args, kwargs, table)
            why = None
        except Refused as e:
            new, waits, why = None, False, e
        if fired and out[0] == 'exc':
            self.sim.probe('interrupted')
            if new is not None and same_state(observe(rec, list(ALL_IDS)), self.after(table, new)):
                table.commit(new)
            return
        if waits:
            if out[0] == 'exc' or not callable(out[1]):
                raise Violation('waiting', '%s must give a function that waits for the rest, gave %s' % (
                    story, short(out[1])))
            self.sim.probe('waiting')
            handles.append((r, out[1], args, kwargs))
            return
        if self.raised is not None:
            self.sim.probe('body-failed')
            if out[0] == 'ok' or out[1] is not self.raised:
                raise Violation('error', '%s: its body failed but it gave %s' % (story, short(out[1])))
            return
        if new is None:
            self.sim.probe('bad-call' if str(why) == 'arguments' else 'refused')
            if out[0] == 'ok':
                raise Violation('accepted', '%s must be refused (%s), gave %s' % (story, why, short(out[1])))
            return
        if out[0] == 'exc':
            raise Violation('refused', '%s raised %s: %s' % (story, type(out[1]).__name__, out[1]))
        if op['fail'] and levels:
            raise Violation('error', '%s did not run its body' % story)
        got = list(out[1].items()) if hasattr(out[1], 'items') else out[1]
        if not same(got, list(new.items())):
            raise Violation('returned', '%s gave %s, must be %s' % (story, short(got, 700),
                                                                    short(list(new.items()), 700)))
        self.sim.probe('added')
        table.commit(new)

    def outcome(self, levels, params, args, kwargs, table):
        """The records to be added, and whether the call just waits for more arguments."""
        bound = self.bind(params, args, kwargs)
        if bound is None:
            return None, True
        if not levels:
            ids, columns = bound[0]['ids'], bound[1]
        else:
            for k, level in enumerate(levels):
                values, columns = self.bind(level['params'], args, kwargs)
                args, kwargs = [], dict(values, **columns)
                # what the next requires
                for name, req in (levels[k + 1]['params'] if k + 1 < len(levels) else ()):
                    if req and name != 'ids':
                        kwargs.setdefault(name, 'auto')
            ids, columns = kwargs.pop('ids'), kwargs
        one = isinstance(ids, str)
        return table.add({'form': 'one' if one else 'list', 'ids': [ids] if one else ids, 'unbox': True,
                          'cols': [[c, ['scalar', v]] for c, v in columns.items()]}), False

    @staticmethod
    def after(table, new):
        after = copy.copy(table)
        after.records = table.records.copy()
        after.commit(new)
        return expected(after, list(ALL_IDS))


PROP = C29()
