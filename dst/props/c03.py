# coding=utf-8
"""C03: adding records is all or nothing and never replaces a record."""
import copy

from ..core import Violation, EXCS
from ..runner import Prop
from .common import module_files, maybe_fault, short, looks, look_now, USER_ERRORS
from .table import (Table, Refused, Post, add_op, post, call_add, observe, expected, same, same_state, check_unique,
                    check_frame, IDS, ALL_IDS, COLS, LOOKALIKES)


def extractor(spec):
    if spec == 'str':
        return str
    if spec == 'none':
        return None
    if spec == 'prefix':
        return lambda i: 'p' + str(i)

    def fails(i):
        if i == spec[1]:
            raise EXCS[spec[2]]('extractor')
        return str(i)
    return fails


class C03(Prop):
    ID = 'C03'
    LOOKALIKES = LOOKALIKES
    RUNS = {'quick': 6000, 'thorough': 80000}
    RULE = 'Histories of 3-16 calls on a recorder (add with one or many ids in every form, with scalar, iterable and ' \
           'dictionary columns, defaults and postprocessors that modify, replace, validate, fail or re-enter), with ' \
           'interrupts inside add; after each call everything visible is compared with a reference table.'
    REAL = ('whatami.registry.Recorder', 'toolz.curry', 'pandas (to_df)')
    STUB = ('user hooks and iterables', 'interrupts')
    ASSUMPTIONS = ('an interrupted add added all its records or none',)
    NEED_PROBES = ('KeyboardInterrupt', 'refused', 'added', 'interrupted', 'frame', 'reentrant', 'bad-column')

    def prepare(self):
        import whatami  # noqa
        from whatami.registry import Recorder
        r = Recorder()
        r.add('a')
        r.to_df()

    def make_plan(self, rng, index, tier):
        idcol = rng.choice(('id', 'id', 'key'))
        ext = rng.choice(('str', 'str', 'str', 'none', 'prefix', ['fail', rng.choice(IDS), rng.choice(USER_ERRORS)]))
        intids = rng.random() < .15
        allow = ('set', 'new', 'drop', 'count', 'require', 'unique', 'fail', 'tag', 'clear', 'keep', 'readd', 'readd', 'readd') \
            if rng.random() < .4 else None
        kw = {'allow': allow} if allow else {}
        rules = [post(rng, **kw) for _ in range(rng.choice((0, 0, 1, 2)))]
        defaults = {c: rng.choice((0, 'd', None, [1], {'z': 2})) for c in rng.sample(COLS[:4], rng.choice((0, 0, 1, 2)))}
        ops, faults = [], []
        pfault = rng.choice((0, .2, .5))
        for i in range(rng.randrange(3, 17)):
            op = add_op(rng, idcol, posts_allow=allow, intids=intids)
            op['id'] = i
            reentrant = any(p[0] == 'readd' for p in rules + op.get('posts', []))
            if not reentrant:
                maybe_fault(rng, faults, i, pfault, rng.choice((30, 60, 150)))
            ops.append(op)
        return {'ops': ops, 'faults': faults, 'idcol': idcol, 'extractor': ext, 'rules': rules,
                'defaults': defaults, 'gran': rng.choice(('line', 'opcode')), 'frame': rng.random() < .15,
                'badcol': rng.choice((3, 0, 2.5, None, True, ['id'], ['id', 'b'], {'id': 1})) if rng.random() < .05 else 'id',
                'subclass': rng.random() < .2, 'look': looks(rng)}

    def execute(self, plan, make_sim):
        from whatami.registry import Recorder
        sim = make_sim(faults=plan['faults'], gran=plan['gran'], files=module_files('registry.py'))
        th = sim.enter()
        table = Table(plan['idcol'], plan['extractor'], plan['defaults'], plan['rules'])
        problems = []
        cls = Recorder
        if plan['subclass']:
            class Sub(Recorder):
                def add(self, ids, **columns):
                    return super(Sub, self).add(ids, **columns)
            cls = Sub

        def nested(recorder, an_id):
            """A postprocessor that adds to the recorder it is called from (and takes a refusal lightly)."""
            sim.probe('reentrant')
            try:
                recorder.add(an_id, record_postprocessors=[], override_postprocessors=True)
            except Exception:
                pass

        def nested_ref(an_id):
            try:
                table.commit(table.add({'form': 'one', 'ids': [an_id], 'cols': [], 'posts': [], 'override': True}))
            except Refused:
                pass

        def user(specs):
            return [Post(s, sim, problems, lambda: rec, nested) for s in specs]
        if plan['badcol'] != 'id':
            sim.probe('bad-column')
            try:
                cls(id_column_name=plan['badcol'])
            except ValueError:
                pass
            else:
                raise Violation('accepted', 'ids in a column named %r' % (plan['badcol'],))
        rec = cls(name='rec', id_column_name=plan['idcol'], id_extractor=extractor(plan['extractor']),
                  record_postprocessors=user(plan['rules']), **copy.deepcopy(plan['defaults']))
        ids = [table_id(plan['extractor'], i) for i in (list(ALL_IDS) + [1, 2, 3, 0, 20])]
        for op in plan['ops']:
            call = call_add(rec.add, op, user(op.get('posts') or []))
            out, _, _, fired = sim.op(th, op['id'], call, canon=lambda v: None)
            where = short({k: v for k, v in op.items() if k != 'id'}, 500)
            try:
                new = table.add(op, nested=nested_ref)
            except Refused as e:
                new, why = None, e
            if problems:
                raise Violation('hook', problems[0])
            # N.B. looking can hide (or make) trouble
            look = fired or look_now(plan, op['id']) or op is plan['ops'][-1]
            state = observe(rec, ids) if look else None
            before = expected(table, ids)
            if fired and out[0] == 'exc':
                sim.probe('interrupted')
                if new is not None:
                    after = copy.copy(table)
                    after.records = table.records.copy()
                    after.commit(new)
                    if same_state(state, expected(after, ids)):
                        table.commit(new)
                        before = expected(table, ids)
                if not same_state(state, before):
                    raise Violation('half-done', 'after interrupting %s: %s' % (where, short(state, 900)))
            elif new is None:
                sim.probe('refused')
                if out[0] == 'ok':
                    raise Violation('accepted', '%s must be refused (%s)' % (where, why))
            else:
                if out[0] == 'exc':
                    raise Violation('refused', '%s raised %s: %s' % (where, type(out[1]).__name__, out[1]))
                sim.probe('added', len(new))
                got = list(out[1].items()) if hasattr(out[1], 'items') else out[1]
                if not same(got, list(new.items())):
                    raise Violation('returned', '%s returned %s, must be %s' % (
                        where, short(got, 700), short(list(new.items()), 700)))
                # the order in which the columns of a record come is also part of it
                table.commit(new)
                before = expected(table, ids)
            if not look:
                sim.probe('not-looked')
                continue
            if not same_state(state, before):
                raise Violation('state', 'after %s the recorder has %s, must have %s' % (
                    where, short(state, 900), short(before, 900)))
            check_unique(rec, table)
            if plan['frame'] and plan['extractor'] != 'none' and op['id'] % 3 == 0:
                check_frame(rec, table)
        if plan['frame'] and (plan['extractor'] != 'none'):
            sim.probe('frame')
            check_frame(rec, table)
            check_frame(rec, table)
        sim.leave()


def table_id(ext, i):
    return i if ext == 'none' else 'p' + str(i) if ext == 'prefix' else str(i)


PROP = C03()
