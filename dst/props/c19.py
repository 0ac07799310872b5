# coding=utf-8
"""C19: collections of ids are handled id by id, and failures leave nothing half done."""
from .. import gen
from ..core import InjectedError, Violation, rng_for
from ..runner import Prop
from .common import module_files, maybe_fault, run_concurrently, sched, short
from . import ids

KEYS = ('a', 'b', 'c', 'n', 'y', 'z_')
MISSING = object()


# --- Families of configurations that differ in a few things. No values that are equal with different types.

def value(rng, depth):
    r = rng.random()
    if depth <= 0 or r < .55:
        r = rng.random()
        if r < .1:
            return ['none']
        if r < .5:
            return ['int', rng.randrange(2, 9)]
        if r < .65:
            return ['float', rng.choice(('2.5', '0.25', '-7.125', 'inf'))]
        return ['str', rng.choice(('', 'p', 'q', ' r', "it's", 'A(x=1)', 'a,b', u'\xf1'))]
    if r < .75:
        return what(rng, depth - 1)
    if r < .85:
        return [rng.choice(('list', 'tuple')), [value(rng, depth - 1) for _ in range(rng.randrange(4))]]
    return ['dict', [[['str', k], value(rng, depth - 1)] for k in rng.sample(('k', 'j', 'i'), rng.randrange(3))]]


def what(rng, depth):
    return ['what', rng.choice(('A', 'B', 'C')), [[k, value(rng, depth)] for k in rng.sample(KEYS, rng.randrange(4))],
            rng.choice((None, None, None, 'o', 'p')), []]


def top(rng):
    """All have a key n with a number and a key y with a nested configuration with a number."""
    nested = ['what', rng.choice(('A', 'B')), [['n', ['int', rng.randrange(2, 6)]], ['a', value(rng, 1)]], None, []]
    kvs = [['n', ['int', rng.randrange(2, 6)]], ['y', nested]]
    kvs += [[k, value(rng, 2)] for k in rng.sample(('a', 'b', 'c', 'id'), rng.randrange(3))]
    rng.shuffle(kvs)
    return ['what', rng.choice(('A', 'A', 'B')), kvs, rng.choice((None, None, 'o')), []]


def near(v, rng):
    """Something that looks like this, but is not."""
    kind = v[0]
    if kind == 'str':
        s = v[1]
        return ['str', rng.choice((s.upper(), s + ' ', ' ' + s, s[:-1], s + s, s.strip(), s + '_'))]
    if kind == 'int':
        return ['int', v[1] + 2]
    if kind == 'none':
        return ['str', 'None']
    if kind == 'bool':
        return ['bool', not v[1]]
    if kind in ('list', 'tuple'):
        if v[1] and rng.random() < .5:
            i = rng.randrange(len(v[1]))
            return [kind, v[1][:i] + [near(v[1][i], rng)] + v[1][i + 1:]]
        if len(v[1]) > 1 and rng.random() < .5:
            return [kind, v[1][::-1]]
        return [kind, v[1] + [['int', 2]]] if rng.random() < .5 else [{'list': 'tuple', 'tuple': 'list'}[kind], v[1]]
    if kind == 'dict' and v[1]:
        i = rng.randrange(len(v[1]))
        return [kind, v[1][:i] + [[v[1][i][0], near(v[1][i][1], rng)]] + v[1][i + 1:]]
    return ['list', [v]]


def relative(spec, rng):
    """A configuration that may be like this one but for a few things."""
    kind, name, kvs, out, nid = spec
    kvs = [list(kv) for kv in kvs]
    for _ in range(rng.choice((0, 1, 1, 2))):
        r = rng.random()
        i = rng.randrange(len(kvs)) if kvs else None
        if i is not None and r < .65:
            k, v = kvs[i]
            if v[0] == 'what' and rng.random() < .8:
                kvs[i][1] = relative(v, rng)
            elif v[0] == 'int':
                kvs[i][1] = ['int', rng.randrange(2, 6)]
            else:
                kvs[i][1] = value(rng, 1) if rng.random() < .5 else near(v, rng)
        elif r < .75:
            name = rng.choice(('A', 'B', name.lower(), name.upper(), name + name[0], name + '_', name + '2', name[0]))
        elif r < .85:
            out = rng.choice((None, 'o', 'p') + ((out.upper(), out + '_', name) if out else ()))
        elif i is not None and r < .88 and kvs[i][0] not in 'ny':
            del kvs[i]
        elif i is not None and r < .95 and kvs[i][0] not in 'ny':
            # the same values, in the same order or not, under other keys
            k = rng.choice([x for x in ('a', 'b', 'c', 'd', 'e', 'id', kvs[i][0].upper(), kvs[i][0] + '_2')
                            if x not in [y for y, _ in kvs]])
            kvs[i][0] = k
        else:
            k = rng.choice(('a', 'b', 'c', 'id'))
            if k not in [x for x, _ in kvs]:
                kvs.append([k, value(rng, 1)])
    return [kind, name, kvs, out, nid]


# --- The reference

def flat(c, collections, recursive):
    """[(key, canonical value)] of a canonical configuration."""
    found = []

    def walk(c, path):
        if c[0] == 'What':
            kvs = sorted(c[2])
        elif collections and c[0] in ('list', 'tuple'):
            kvs = list(enumerate(c[1]))
        elif collections and c[0] == 'dict':
            kvs = sorted((k[1], v) for k, v in c[1])
        else:
            kvs = ()
        for k, v in kvs:
            found.append((path + (k,) if path else k, v))
            if recursive:
                walk(v, path + (k,))
    walk(c, ())
    return found


def shown(v):
    """What of a value is compared when matching."""
    return ('a what', v[1], v[3]) if v[0] == 'What' else v


def ignored(key, ignore):
    path = key if isinstance(key, tuple) else (key,)
    return any(path[:i] in ignore for i in range(1, len(path) + 1))


def matches(c, template, ignore, collections, recursive):
    ignore = {k if isinstance(k, tuple) else (k,) for k in ignore}
    one, two = flat(c, collections, recursive), flat(template, collections, recursive)
    return c[1] == template[1] and [k for k, _ in one] == [k for k, _ in two] and \
        [shown(v) for k, v in one if not ignored(k, ignore)] == [shown(v) for k, v in two if not ignored(k, ignore)]


def lookup(c, key):
    """The canonical value of a key; MISSING if there is not; None if it does not matter (the characters of a text)."""
    for k in key if isinstance(key, tuple) else (key,):
        kvs = None
        if c[0] == 'str' and isinstance(k, int):
            return None
        if c[0] == 'What':
            kvs = dict(c[2])
        elif c[0] == 'dict':
            kvs = {x[1]: v for x, v in c[1]}
        elif c[0] in ('list', 'tuple') and isinstance(k, int) and k < len(c[1]):
            kvs = {k: c[1][k]}
        if kvs is None or k not in kvs:
            return MISSING
        c = kvs[k]
    return c


def key_of(k):
    """JSON knows no tuples."""
    return tuple(k) if isinstance(k, list) else k


def stream(items, form, fail_at=None):
    """The items as some kind of iterable, that can fail."""
    if fail_at is not None:
        def failing():
            for i, item in enumerate(items):
                if i == fail_at:
                    raise InjectedError('user code')
                yield item
            raise InjectedError('user code')
        return failing()
    return {'list': list, 'tuple': tuple, 'iter': iter, 'generator': lambda x: (i for i in x),
            'map': lambda x: map(lambda i: i, x)}[form](items)


FORMS = ('list', 'tuple', 'iter', 'generator', 'map')


class C19(Prop):
    ID = 'C19'
    RUNS = {'quick': 1100, 'thorough': 30000}
    RULE = 'Half of the runs are histories of 3-10 operations in one thread; the others, 2-3 threads with up to 5 ' \
           'operations each under a random or PCT schedule: matching, sorting, flattening and looking up in families ' \
           'of similar ids, and extracting columns to data frames (shared or own), with ids in any kind of iterable, ' \
           'that fail half way or have invalid ids among them. Some operations are interrupted at any line.'
    REAL = ('whatami.whatutils', 'whatami.what', 'whatami.parsers', 'arpeggio', 'pandas')
    STUB = ('thread scheduler and locks', 'interrupts', 'user iterables')
    NEED_PROBES = ('matched', 'partly', 'sorted', 'extracted', 'copied', 'missing', 'looked-up', 'invalid', 'failed',
                   'interrupted', 'concurrent', 'iterator', 'overwritten')

    def prepare(self):
        import pandas as pd
        import whatami.whatutils as wu
        wu.whatid2columns(pd.DataFrame({'w': ['f(x=1)']}), 'w', inplace=False)

    def make_plan(self, rng, index, tier):
        faults, n, threads = [], 0, []
        alone = rng.random() < .5
        pfault = rng.choice((0, 0, .2, .5))
        family = [top(rng)]
        while len(family) < rng.randrange(3, 8):
            family.append(relative(rng.choice(family[:2]), rng))
        for _ in range(1 if alone else rng.choice((2, 2, 3))):
            ops = []
            for _ in range(rng.randrange(3, 11) if alone else rng.randrange(1, 6)):
                op = {'id': n, 'seed': rng.randrange(1 << 30), 'form': rng.choice(FORMS),
                      'ids': [rng.randrange(len(family)) for _ in range(rng.randrange(0, 6))]}
                n += 1
                r = rng.random()
                if r < .35:
                    op.update(do='match', template=rng.randrange(len(family)), collections=rng.random() < .4,
                              recursive=rng.random() < .8, kform=rng.choice(FORMS),
                              ignore=rng.sample(['n', 'y', 'a', ['y', 'n'], ['y', 'a'], ['a', 0], 'id'],
                                                rng.choice((0, 1, 1, 2))))
                    if rng.random() < .15:
                        # several keys, that could be taken for the path of one
                        op.update(ignore=rng.choice((['y', 'n'], ['y', 'a'], ['n', 'y'], ['a', 'y', 'n'])),
                                  kform=rng.choice(('tuple', 'tuple', 'list')))
                elif r < .5:
                    op.update(do=rng.choice(('sort_ids', 'sort_whats')),
                              keys=rng.choice((['n'], [['y', 'n']], [['y', 'n'], 'n'], ['n', ['y', 'n']], ['id'])))
                elif r < .65:
                    op.update(do=rng.choice(('flatten', 'lookup', 'lookup')), collections=rng.random() < .5,
                              recursive=rng.random() < .8)
                else:
                    op.update(do='columns', frame=rng.choice(('shared', 'own', 'own', 'new')),
                              inplace=rng.random() < .5, columns=rng.choice(
                              (None, [], ['n'], ['n', 'a'], [['y', 'n']], [['y', 'a'], 'b'], ['id', 'n'], ['a', ['a', 'k']],
                               ['n', ['y', 'a', 'n'], ['n', 'y']])),
                              prefix=rng.choice(('', '', 'p_', None)), postfix=rng.choice(('', '', '_q', None)),
                              default=rng.random() < .3)
                    if op['frame'] == 'shared':
                        op['inplace'] = False
                if rng.random() < .12:
                    op['broken'] = ids.broken(rng, gen.what(rng, 1))
                elif rng.random() < .1 and op['do'] in ('match', 'sort_ids'):
                    op['fail'] = rng.randrange(4)
                maybe_fault(rng, faults, op['id'], pfault, rng.choice((100, 1000, 4000)))
                ops.append(op)
            threads.append(ops)
        return {'threads': threads, 'faults': faults, 'alone': alone, 'family': family,
                'sched': {'kind': 'none'} if alone else sched(rng, nsteps=4000)}

    def execute(self, plan, make_sim):
        import pandas as pd
        sim = self.sim = make_sim(sched=plan['sched'], faults=plan['faults'], files=module_files())
        self.family = plan['family']
        self.canon = [gen.parsed(s) for s in self.family]
        self.texts = [gen.ref(s) for s in self.family]
        n = len(self.texts)
        self.shared = self.frame(list(range(n)))
        self.own = [self.frame([(i + t) % n for i in range(n)]) for t in range(len(plan['threads']))]
        self.pending = {}
        self.pd = pd
        run_concurrently(sim, plan['threads'], self.perform, canon=lambda v: None, after=self.after)
        for f in [self.shared] + self.own:
            self.check_frame(f, 'at the end')
        if not plan['alone']:
            sim.probe('concurrent')
        sim.probe('nontrivial')

    # --- Frames, with what they must have

    def frame(self, which):
        import pandas as pd
        texts = [self.texts[i] for i in which]
        f = {'df': pd.DataFrame({'id': texts, 'row': list(range(len(which)))}, columns=['id', 'row'],
                                index=[10 + 2 * i for i in range(len(which))]),
             'which': which}
        f['must'] = {'id': [('str', t) for t in texts], 'row': [('int', i) for i in range(len(which))]}
        return f

    def column(self, df, name):
        return [self.cell(v) for v in df[name]]

    @staticmethod
    def cell(v):
        """Canonical; pandas may give missing values as nan, and numbers as its own."""
        import numpy as np
        if isinstance(v, np.generic):
            v = v.item()
        if isinstance(v, float) and v != v:
            v = None
        return gen.canon(v)

    @staticmethod
    def same(got, must):
        """pandas turns numbers into floats where there are missing ones."""
        if got == must:
            return True
        return got[0] == 'float' and must[0] == 'int' and float(got[1]) == must[1]

    def check_frame(self, f, when, df=None, must=None):
        df, must = f['df'] if df is None else df, must or f['must']
        if list(df.columns) != list(must):
            raise Violation('columns', '%s the columns are %r, must be %r' % (when, list(df.columns), list(must)))
        if list(df.index) != [10 + 2 * i for i in range(len(f['which']))]:
            raise Violation('rows', '%s the rows are %r' % (when, list(df.index)))
        for name, values in must.items():
            got = self.column(df, name)
            if len(got) != len(values) or not all(map(self.same, got, values)):
                raise Violation('values', '%s the column %r is %s, must be %s' % (
                    when, name, short(got, 900), short(values, 900)))

    # --- Operations

    def perform(self, th, op):
        import whatami
        from whatami import whatutils as wu
        do, rng = op['do'], rng_for(op['seed'])
        texts = [self.texts[i] for i in op['ids']]
        if op.get('broken') and do in ('match', 'sort_ids', 'columns'):
            texts.insert(rng.randrange(len(texts) + 1), ids.broken_id(op['broken']))
        if op['form'] in ('iter', 'generator', 'map') and do in ('match', 'sort_ids'):
            self.sim.probe('iterator')
        given = stream(texts, op['form'], op.get('fail'))
        if do == 'match':
            keys = [key_of(k) for k in op['ignore']]
            options = dict(ignored_keys=stream(keys, op['kform']))
            if op['collections'] or rng.random() < .6:
                options['collections_too'] = op['collections']
            if not op['recursive'] or rng.random() < .6:
                options['recursive'] = op['recursive']
            if keys == [] and rng.random() < .5:
                del options['ignored_keys']
            return lambda: wu.match_whatids(given, self.texts[op['template']], **options)
        if do == 'sort_ids':
            return lambda: wu.sort_whatids(given, *[key_of(k) for k in op['keys']])
        if do == 'sort_whats':
            whats = [gen.build(self.family[i]) for i in op['ids']]
            self.pending[op['id']] = whats
            return lambda: wu.sort_whats(whats, *[key_of(k) for k in op['keys']])
        if do in ('flatten', 'lookup'):
            i = op['ids'][0] if op['ids'] else 0
            w = whatami.id2what(self.texts[i]) if rng.random() < .5 else gen.build(self.family[i])
            if do == 'flatten':
                self.pending[op['id']] = i
                return lambda: w.flatten(collections_too=op['collections'], recursive=op['recursive'])
            keys = [k for k, _ in flat(self.canon[i], True, True)]
            key = rng.choice(keys) if keys and rng.random() < .5 else key_of(rng.choice(
                ('n', 'b', ('y', 'n'), ('n', 'y'), ('a', 0), ('a', 7), ('a', 'k'), ('b', 'k', 'j'), ('y', 'a', 'n'),
                 'nothing')))
            self.pending[op['id']] = i, key
            default = MISSING
            return lambda: w.get(key, default)
        # columns
        if op['frame'] == 'new':
            f = self.frame([])
            f['df'] = self.pd.DataFrame({'id': texts, 'row': list(range(len(texts)))}, columns=['id', 'row'],
                                        index=[10 + 2 * i for i in range(len(texts))])
            f['must'] = {'id': [('str', t) for t in texts], 'row': [('int', i) for i in range(len(texts))]}
            f['which'] = op['ids']
            if op.get('broken'):
                f['which'] = list(range(len(texts)))     # never used
        else:
            f = self.shared if op['frame'] == 'shared' else self.own[th.tid]
            if f['must']['id'] != [('str', self.texts[i]) for i in f['which']]:
                f = self.own[th.tid] = self.frame(f['which'])
        columns = op['columns'] and [key_of(k) if rng.random() < .7 else k for k in op['columns']]
        self.pending[op['id']] = f, op['frame'] == 'new' and bool(op.get('broken'))
        options = dict(columns=columns, prefix=op['prefix'], postfix=op['postfix'], inplace=op['inplace'])
        if op['default']:
            # those that are as if they were not given
            options = {k: v for k, v in options.items() if v not in (None, '', True)}
        return lambda: wu.whatid2columns(f['df'], 'id', **options)

    # --- Judging

    def after(self, op, out, fired):
        do = op['do']
        if fired and out[0] == 'exc':
            self.sim.probe('interrupted')
            if do == 'columns':
                self.judge_interrupted(op, *self.pending[op['id']])
            return
        if do in ('match', 'sort_ids'):
            bad = None
            if op.get('broken'):
                bad = 'invalid'
            if op.get('fail') is not None:
                bad = 'failed'
            if bad:
                self.sim.probe(bad)
                if out[0] == 'ok':
                    raise Violation('hidden', '%s ids did not make %s fail: %s' % (bad, do, short(out[1])))
                if bad == 'failed' and not isinstance(out[1], InjectedError):
                    raise Violation('hidden', 'the ids failed, but %s raised %s' % (do, short(out[1])))
                return
        if do == 'match':
            c = self.canon[op['template']]
            must = [self.texts[i] for i in op['ids'] if matches(
                self.canon[i], c, [key_of(k) for k in op['ignore']], op['collections'], op['recursive'])]
            self.sim.probe('matched')
            if 0 < len(must) < len(op['ids']):
                self.sim.probe('partly')
            if out[0] == 'exc' or out[1] != must:
                raise Violation('match', 'matching %s to %s ignoring %r (collections=%s, recursive=%s) gave %s, '
                                'must give %s' % ([self.texts[i] for i in op['ids']], self.texts[op['template']],
                                                  op['ignore'], op['collections'], op['recursive'],
                                                  short(out[1], 900), short(must, 900)))
        elif do in ('sort_ids', 'sort_whats'):
            self.judge_sort(op, out)
        elif do == 'flatten':
            i = self.pending[op['id']]
            must = flat(self.canon[i], op['collections'], op['recursive'])
            if out[0] == 'exc':
                raise Violation('flatten', 'flattening %s gave %s' % (self.texts[i], short(out[1])))
            got = list(zip(out[1][0], map(gen.canon, out[1][1])))
            if got != must or len(out[1][0]) != len(out[1][1]):
                raise Violation('flatten', 'flattening %s gave %s, must give %s' % (
                    self.texts[i], short(got, 900), short(must, 900)))
        elif do == 'lookup':
            i, key = self.pending[op['id']]
            must = lookup(self.canon[i], key)
            if must is None:
                return
            self.sim.probe('looked-up' if must is not MISSING else 'missing')
            if out[0] == 'exc' or (out[1] is not MISSING if must is MISSING else
                                   out[1] is MISSING or gen.canon(out[1]) != must):
                raise Violation('lookup', 'looking up %r in %s gave %s, must give %s' % (
                    key, self.texts[i], short(out[1]), 'the default' if must is MISSING else must))
        else:
            self.judge_columns(op, out, *self.pending[op['id']])

    def judge_sort(self, op, out):
        keys = [key_of(k) for k in op['keys']]
        values = [[lookup(self.canon[i], k) for k in keys] for i in op['ids']]
        if any(MISSING in v for v in values):
            if out[0] == 'ok' or not isinstance(out[1], KeyError):
                raise Violation('sort', 'sorting by an absent key gave %s' % short(out[1]))
            return
        if any(v[0] != 'int' for vs in values for v in vs):
            return
        values = [tuple(v[1] for v in vs) for vs in values]
        order = sorted(range(len(values)), key=lambda i: values[i])
        if out[0] == 'exc':
            raise Violation('sort', 'sorting by %r raised %s' % (keys, short(out[1])))
        if not op['ids']:
            if out[1] != ():
                raise Violation('sort', 'sorting nothing gave %s' % short(out[1]))
            return
        self.sim.probe('sorted')
        if op['do'] == 'sort_ids':
            must = [self.texts[op['ids'][i]] for i in order]
            good = len(out[1]) == 2 and list(out[1][0]) == must
        else:
            must = [self.pending[op['id']][i] for i in order]
            good = len(out[1]) == 2 and len(out[1][0]) == len(must) and all(x is y for x, y in zip(out[1][0], must))
        if not good or list(out[1][1]) != [values[i] for i in order]:
            raise Violation('sort', 'sorting %s by %r gave %s' % (
                [self.texts[i] for i in op['ids']], keys, short(out[1], 900)))

    def expected(self, op, f):
        """The columns that the frame must have afterwards."""
        canon = [self.canon[i] for i in f['which']]
        columns = op['columns']
        if columns is None:
            # all the keys, of all the levels
            keys = {k for c in canon for k, _ in flat(c, False, True)}
            columns = sorted(keys, key=self.name)
        must = dict(f['must'])
        names = [(op['prefix'] or '') + self.name(key_of(k)) + (op['postfix'] or '') for k in columns]
        if len(set(names)) < len(names):
            return None, names
        for k, name in zip(columns, names):
            k = key_of(k)
            got = [lookup(c, k) for c in canon]
            must[name] = [('none',) if v is MISSING else v for v in got]
            if MISSING in got:
                self.sim.probe('missing')
            if name == 'id':
                self.sim.probe('overwritten')
        return must, names

    @staticmethod
    def name(key):
        return '_'.join(map(str, key)) if isinstance(key, tuple) else key

    def judge_columns(self, op, out, f, invalid):
        if invalid:
            self.sim.probe('invalid')
            if out[0] == 'ok':
                raise Violation('hidden', 'extracting columns of invalid ids gave %s' % short(out[1]))
            self.check_frame(f, 'after failing because of an invalid id')
            return
        must, _ = self.expected(op, f)
        if must is None:
            return
        where = 'after extracting %r (prefix %r, postfix %r) of %s' % (
            op['columns'], op['prefix'], op['postfix'], [self.texts[i] for i in f['which']])
        if out[0] == 'exc':
            raise Violation('error', '%s: %s' % (where, short(out[1])))
        if (out[1] is f['df']) != op['inplace']:
            raise Violation('copy', 'inplace=%s gave %s frame' % (op['inplace'], 'the same' if out[1] is f['df'] else
                                                                  'other'))
        self.check_frame(f, where, out[1], must)
        if op['inplace']:
            self.sim.probe('extracted')
            f['must'] = must
        else:
            self.sim.probe('copied')
            self.check_frame(f, 'extracting to a copy: the original')

    def judge_interrupted(self, op, f, invalid):
        if not op['inplace'] or invalid:
            self.check_frame(f, 'after being interrupted, out of place')
            return
        must, names = self.expected(op, f)
        if must is None:
            f['must'] = {k: self.column(f['df'], k) for k in f['df'].columns}
            return
        # the columns are complete or absent
        for i in range(len(names) + 1):
            partial = dict(f['must'])
            for name in names[:i]:
                partial[name] = must[name]
            try:
                self.check_frame(f, 'after being interrupted', must=partial)
            except Violation as v:
                error = v
                continue
            f['must'] = partial
            return
        raise error


PROP = C19()
