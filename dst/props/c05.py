# coding=utf-8
"""C05: settings of recorders, curried adds and partial adds do not leak."""
import copy

from ..core import Violation
from ..runner import Prop
from .common import module_files, maybe_fault, short, looks, look_now, EXCS
from .table import (Table, Refused, Post, add_op, post, call_add, real_column, observe, expected, same, same_state,
                    check_unique, columns, IDS, ALL_IDS, COLS, ITERABLES, LOOKALIKES)


def settings(rng):
    """What a derived add freezes."""
    cols = columns(rng, list(IDS), True, True, 'id')
    # iterators are consumed by their first use, and zipping depends on the ids
    s = {'cols': [c for c in cols if c[1][0] in ('scalar', 'dict')]}
    if rng.random() < .35:
        s['posts'] = [post(rng) for _ in range(rng.randrange(3))]
    if rng.random() < .2:
        s['override'] = rng.random() < .6
    if rng.random() < .15:
        s['unbox'] = rng.random() < .5
    return s


class C05(Prop):
    ID = 'C05'
    LOOKALIKES = LOOKALIKES
    RUNS = {'quick': 5000, 'thorough': 80000}
    RULE = 'Histories of 5-25 calls over two recorders and a growing tree of curried and partial adds derived from ' \
           'them: deriving, adding through any of them, changing defaults and postprocessors, mutating what was ' \
           'passed in or handed out, failing and interrupted calls; each is compared with a reference table in which ' \
           'each variant has its own settings.'
    REAL = ('whatami.registry.Recorder', 'toolz.curry', 'functools.partial')
    STUB = ('user hooks', 'interrupts')
    ASSUMPTIONS = ('an interrupted add added all its records or none',)
    NEED_PROBES = ('KeyboardInterrupt', 'derived', 'added', 'refused', 'settings-change')

    def prepare(self):
        import whatami  # noqa
        from whatami.registry import Recorder
        Recorder().add('a')

    def make_plan(self, rng, index, tier):
        ops, faults = [], []
        pfault = rng.choice((0, 0, .3))
        for i in range(rng.randrange(5, 26)):
            r = rng.random()
            op = {'id': i, 'rec': rng.randrange(2), 'handle': rng.randrange(50)}
            if r < .25:
                op.update(do=rng.choice(('curry', 'curry', 'padd', 'padd_of')), set=settings(rng))
            elif r < .75:
                add = add_op(rng)
                op.update(add)
                if rng.random() < .3:
                    op['unbox_default'] = True
                maybe_fault(rng, faults, i, pfault, 60)
            elif r < .8:
                op.update(do='defaults', cols={c: rng.choice((0, 'd', None, 5)) for c in
                                               rng.sample(COLS[:4], rng.randrange(3))})
            elif r < .84:
                op.update(do='no_defaults', cols=rng.sample(COLS[:5], rng.randrange(4)))
            elif r < .89:
                op.update(do='add_posts', posts=[post(rng) for _ in range(rng.randrange(3))])
            elif r < .93:
                op.update(do='override_posts', posts=[post(rng) for _ in range(rng.randrange(3))])
            else:
                op.update(do=rng.choice(('mutate_passed', 'mutate_posts', 'mutate_defaults')), post=post(rng))
            ops.append(op)
        return {'ops': ops, 'faults': faults, 'shared': rng.random() < .5, 'look': looks(rng),
                'rules': [[post(rng) for _ in range(rng.randrange(3))] for _ in range(2)],
                'defaults': [{c: rng.choice((0, 'd', None)) for c in rng.sample(COLS[:4], rng.choice((0, 1, 2)))}
                             for _ in range(2)],
                'gran': rng.choice(('line', 'opcode')), 'subclass': rng.random() < .25}

    def execute(self, plan, make_sim):
        from whatami.registry import Recorder
        sim = make_sim(faults=plan['faults'], gran=plan['gran'], files=module_files('registry.py'))
        th = sim.enter()
        problems = []
        cls = Recorder
        if plan['subclass']:
            class Sub(Recorder):
                def add(self, ids, **columns):
                    return super(Sub, self).add(ids, **columns)
            cls = Sub

        recs, tables, passed, posts = [], [], [], []
        for r in (0, 1):
            k = 0 if plan['shared'] else r
            if r == 1 and plan['shared']:
                lst, dct = passed[0]
            else:
                lst = [Post(s, sim, problems) for s in plan['rules'][k]]
                dct = dict(plan['defaults'][k])
            passed.append((lst, dct))
            recs.append(cls(record_postprocessors=lst, **dct))
            tables.append(Table(defaults=dct, posts=plan['rules'][k]))
            posts.append(list(lst))
        # (recorder, callable, settings)
        handles = [(0, recs[0].add, {}), (1, recs[1].add, {})]

        def real(specs):
            return [Post(s, sim, problems) for s in specs]

        def look(where):
            for k in (0, 1):
                state = observe(recs[k], ALL_IDS)
                if not same_state(state, expected(tables[k], ALL_IDS)):
                    raise Violation('state', 'after %s recorder %d has %s, must have %s' % (
                        where, k, short(state, 900), short(expected(tables[k], ALL_IDS), 900)))
                if not same(dict(recs[k].column_defaults), tables[k].defaults):
                    raise Violation('defaults', 'after %s recorder %d has defaults %s, must have %s' % (
                        where, k, short(recs[k].column_defaults), short(tables[k].defaults)))
                chain = list(recs[k].record_postprocessors())
                if len(chain) != len(posts[k]) or any(a is not b for a, b in zip(chain, posts[k])):
                    raise Violation('chain', 'after %s recorder %d has postprocessors %s, must have %s' % (
                        where, k, [getattr(p, 'spec', p) for p in chain], [p.spec for p in posts[k]]))

        for op in plan['ops']:
            do, r = op['do'], op['rec']
            rec, table = recs[r], tables[r]
            where = short({k: v for k, v in op.items() if k != 'id'}, 500)
            if do in ('curry', 'padd', 'padd_of'):
                s = op['set']
                kwargs = {c: real_column(spec) for c, spec in s['cols']}
                if 'posts' in s:
                    kwargs['record_postprocessors'] = real(s['posts'])
                if 'override' in s:
                    kwargs['override_postprocessors'] = s['override']
                if 'unbox' in s:
                    kwargs['unbox_iterables'] = s['unbox']
                if do == 'padd':
                    base, merged, fn = r, {}, lambda: rec.padd(**kwargs)
                else:
                    base, handle, merged = handles[op['handle'] % len(handles)]
                    rec = recs[base]
                    if do == 'padd_of':
                        fn = lambda: rec.padd(handle, **kwargs)
                    else:
                        fn = lambda: handle(**kwargs)
                    if do == 'curry' and type(handle).__name__ == 'partial' and not isinstance(
                            getattr(handle, 'func', None), type(recs[0].add)):
                        continue
                out, _, _, fired = sim.op(th, op['id'], fn, canon=lambda v: None)
                if out[0] == 'exc':
                    raise Violation('derive', '%s raised %s: %s' % (where, type(out[1]).__name__, out[1]))
                if not callable(out[1]):
                    raise Violation('derive', '%s gave %s' % (where, short(out[1])))
                new = dict(merged)
                new['cols'] = dict(new.get('cols', {}))
                new['cols'].update({c: spec for c, spec in s['cols']})
                for k in ('posts', 'override', 'unbox'):
                    if k in s:
                        new[k] = s[k]
                handles.append((base, out[1], new))
                sim.probe('derived')
            elif do == 'add':
                base, handle, merged = handles[op['handle'] % len(handles)]
                rec, table = recs[base], tables[base]
                full = dict(op)
                full['cols'] = sorted(dict(merged.get('cols', {}), **dict(map(tuple, op['cols']))).items())
                if 'posts' not in op and 'posts' in merged:
                    full['posts'] = merged['posts']
                if 'posts' not in op:
                    # call_add passes this flag only together with postprocessors
                    full['override'] = merged.get('override', False)
                elif not op.get('override'):
                    full['override'] = merged.get('override', False)
                passes_unbox = not op['unbox']
                unbox = False if passes_unbox else merged.get('unbox', True)
                full['unbox'] = unbox
                if not unbox and any(spec[0] in ITERABLES for _, spec in full['cols']):
                    continue
                if unbox and any(spec[0] == 'scalar' and isinstance(spec[1], list) for _, spec in full['cols']):
                    # lists frozen by a variant: zipped with the ids
                    full['cols'] = [(c, ['list', spec[1]] if spec[0] == 'scalar' and isinstance(spec[1], list)
                                     else spec) for c, spec in full['cols']]
                out, _, _, fired = sim.op(th, op['id'], call_add(handle, op, real(op.get('posts') or [])),
                                          canon=lambda v: None)
                try:
                    new = table.add(full)
                except Refused as e:
                    new, why = None, e
                ids = list(IDS)
                if fired and out[0] == 'exc':
                    if new is not None and same_state(observe(rec, ids), self.after(table, new, ids)):
                        table.commit(new)
                elif new is None:
                    sim.probe('refused')
                    if out[0] == 'ok':
                        raise Violation('accepted', '%s through %s must be refused (%s)' % (where, short(merged), why))
                elif out[0] == 'exc':
                    raise Violation('refused', '%s through %s raised %s: %s' % (
                        where, short(merged), type(out[1]).__name__, out[1]))
                else:
                    sim.probe('added')
                    got = list(out[1].items()) if hasattr(out[1], 'items') else out[1]
                    if not same(got, list(new.items())):
                        raise Violation('returned', '%s through %s returned %s, must be %s' % (
                            where, short(merged), short(got, 700), short(list(new.items()), 700)))
                    table.commit(new)
            else:
                sim.probe('settings-change')
                if do == 'defaults':
                    d = dict(op['cols'])
                    rec.add_column_defaults(**d)
                    table.defaults.update(d)
                    d['a'] = 'changed afterwards'
                elif do == 'no_defaults':
                    rec.remove_column_defaults(*op['cols'])
                    for c in op['cols']:
                        table.defaults.pop(c, None)
                elif do == 'add_posts':
                    new = real(op['posts'])
                    rec.add_record_postprocessors(*new)
                    posts[r].extend(new)
                    table.posts.extend(op['posts'])
                    new.append('changed afterwards')
                elif do == 'override_posts':
                    new = real(op['posts'])
                    rec.override_record_postprocessors(*new)
                    posts[r] = list(new)
                    table.posts = list(op['posts'])
                elif do == 'mutate_passed':
                    passed[r][0].append(Post(op['post'], sim, problems))
                    passed[r][1]['a'] = 'changed'
                elif do == 'mutate_posts':
                    got = rec.record_postprocessors()
                    if hasattr(got, 'append'):
                        got.append(Post(op['post'], sim, problems))
                elif do == 'mutate_defaults':
                    rec.column_defaults['a'] = 'changed'
            # N.B. looking can hide (or make) trouble
            if look_now(plan, op['id']):
                look(where)
            else:
                sim.probe('not-looked')
        look('all')
        if sim.probes.get('derived') and sim.probes.get('refused') and sim.probes.get('added'):
            sim.probe('nontrivial')
        sim.leave()

    @staticmethod
    def after(table, new, ids):
        after = copy.copy(table)
        after.records = table.records.copy()
        after.commit(new)
        return expected(after, ids)


PROP = C05()
