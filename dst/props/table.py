# coding=utf-8
"""A reference table for recorders, and the user code that goes with them (shared by C03, C04 and C05)."""
import copy
from collections import OrderedDict, deque

from ..core import EXCS, Violation
from .common import USER_ERRORS, short

IDS = ('r1', 'r2', 'r3', 'r4', '', u'\xf1')
LOOKALIKES = {'r2': 'R1', 'r3': 'r1 ', 'r4': ' r1'}, {'r2': 'r1_', 'r3': 'r1()', 'r4': 'r'}, {'b': 'A', 'c': 'a_'}
ITERABLES = ('list', 'tuple', 'gen', 'seq', 'deque', 'failgen', 'failiter')
COLS = ('a', 'b', 'c', 'cheer up', 'ids_', 'self')
ALL_IDS = IDS + tuple(v for m in LOOKALIKES for k, v in sorted(m.items()) if k in IDS)
ALL_COLS = COLS + ('A', 'a_')
VALUES = (0, 1, 2, -1, 'x', 'y', '', None, 2.5, True, [1, 2], [], {'k': 1})


class Refused(Exception):
    """The reference says that the call must raise."""


# --- Generation

def colspec(rng, ids, unbox, one):
    r = rng.random()
    if r < .35:
        v = rng.choice(VALUES)
        if isinstance(v, dict) or (isinstance(v, list) and unbox):
            v = 3
        return ['scalar', v]
    if r < .55:
        return ['dict', [[i, rng.choice(VALUES)] for i in rng.sample(IDS, rng.randrange(0, 5))] +
                        [[i, rng.choice(VALUES)] for i in ids if rng.random() < .5 and isinstance(i, str)]]
    if not unbox:
        return ['scalar', [rng.choice(VALUES[:9]) for _ in range(rng.randrange(3))]]
    if one:
        return ['scalar', rng.choice(VALUES[:10])]
    n = len(ids) if rng.random() < .6 else rng.randrange(len(ids) + 3)
    values = [rng.choice(VALUES) for _ in range(n)]
    if r < .85:
        return [rng.choice(('list', 'tuple', 'gen', 'seq', 'deque')), values]
    if r < .88:
        return ['failiter', [], rng.choice([e for e in USER_ERRORS if e != 'TypeError'])]
    return ['failgen', values[:rng.randrange(n + 1)], rng.choice(USER_ERRORS)]


def post(rng, ids=IDS, allow=('set', 'set', 'new', 'drop', 'count', 'require', 'unique', 'fail', 'tag', 'clear', 'keep')):
    kind = rng.choice(allow)
    col = rng.choice(COLS[:4])
    if kind in ('set', 'new'):
        return [kind, col, rng.choice(VALUES[:9])]
    if kind in ('drop', 'count', 'require', 'unique', 'tag', 'clear', 'keep'):
        return [kind, col]
    if kind == 'fail':
        return [kind, rng.choice(ids), rng.choice(USER_ERRORS)]
    if kind == 'readd':
        return [kind, rng.choice(ids), rng.choice(ids)]
    raise ValueError(kind)


def columns(rng, ids, unbox, one, idcol):
    cols = {}
    for c in rng.sample(COLS[:5], rng.choice((0, 1, 1, 2, 3))):
        cols[c] = colspec(rng, ids, unbox, one)
    if rng.random() < .03:
        cols[idcol] = ['scalar', 'nif']
    return sorted(cols.items())


def add_op(rng, idcol='id', posts_allow=None, intids=False):
    """A call to add."""
    form = rng.choice(('one', 'one', 'one', 'list', 'list', 'list', 'tuple', 'gen', 'seq', 'deque'))
    universe = list(IDS) if not intids else [1, 2, 3, 0, 20]
    ids = [rng.choice(universe)] if form == 'one' else \
        (rng.sample(universe, rng.randrange(0, 4)) if rng.random() < .85 else
         [rng.choice(universe) for _ in range(rng.randrange(1, 4))])
    if form != 'one' and rng.random() < .06:
        form = rng.choice(('failgen', 'failgen', 'failiter'))
    unbox = rng.random() < .7
    op = {'do': 'add', 'form': form, 'ids': ids, 'unbox': unbox,
          'cols': columns(rng, ids, unbox, form == 'one', idcol)}
    if form in ('failgen', 'failiter'):
        op['exc'] = rng.choice([e for e in USER_ERRORS if e != 'TypeError' or form == 'failgen'])
    if rng.random() < .3:
        kw = {'allow': posts_allow} if posts_allow else {}
        op['posts'] = [post(rng, **kw) for _ in range(rng.randrange(3))]
        op['override'] = rng.random() < .4
    return op


# --- The real arguments

def failing_gen(values, exc):
    for v in values:
        yield v
    raise EXCS[exc]('user iterable')


class Seq(object):
    """What can be iterated, but is no collection that Python knows about."""

    def __init__(self, values):
        self.values = values

    def __getitem__(self, i):
        return self.values[i]


class FailIter(object):
    """What cannot be even started to iterate, because of an error other than not being iterable."""

    def __init__(self, exc):
        self.exc = exc

    def __iter__(self):
        raise EXCS[self.exc]('user iterable')


def real_ids(op):
    ids = copy.deepcopy(op['ids'])
    form = op['form']
    if form == 'one':
        return ids[0]
    if form == 'list':
        return ids
    if form == 'tuple':
        return tuple(ids)
    if form == 'gen':
        return (i for i in ids)
    if form == 'seq':
        return Seq(ids)
    if form == 'deque':
        return deque(ids)
    if form == 'failiter':
        return FailIter(op['exc'])
    return failing_gen(ids, op['exc'])


def real_column(spec):
    kind, v = spec[0], copy.deepcopy(spec[1])
    if kind == 'tuple':
        return tuple(v)
    if kind == 'gen':
        return (x for x in v)
    if kind == 'dict':
        # also subclasses
        return (OrderedDict if len(v) == 3 else dict)(map(tuple, v))
    if kind == 'seq':
        return Seq(v)
    if kind == 'deque':
        return deque(v)
    if kind == 'failiter':
        return FailIter(spec[2])
    if kind == 'failgen':
        return failing_gen(v, spec[2])
    return v


class Post(object):
    """A record postprocessor."""

    def __init__(self, spec, sim=None, problems=None, recorder=None, nested=None):
        self.spec, self.sim, self.problems, self.recorder, self.nested = spec, sim, problems, recorder, nested

    def __call__(self, an_id, record, recorder):
        if self.sim is not None:
            self.sim.here('postprocessor')
        if self.recorder is not None and recorder is not self.recorder():
            self.problems.append('a postprocessor was given another recorder')
        if self.spec[0] == 'readd':
            if an_id == self.spec[1]:
                self.nested(recorder, self.spec[2])
            return record
        return apply_post(self.spec, an_id, record, lambda: len(recorder), recorder.unique)


def apply_post(spec, an_id, record, size, unique):
    kind = spec[0]
    if kind == 'set':
        record[spec[1]] = copy.deepcopy(spec[2])
    elif kind == 'new':
        record = dict(record)
        record[spec[1]] = copy.deepcopy(spec[2])
    elif kind == 'drop':
        record.pop(spec[1], None)
    elif kind == 'count':
        record[spec[1]] = size()
    elif kind == 'clear':
        record.clear()
    elif kind == 'keep':
        record = {c: v for c, v in record.items() if c == spec[1]}
    elif kind == 'tag':
        record[spec[1]] = '%s is cool' % (an_id,)
    elif kind == 'require':
        if spec[1] not in record:
            raise RuntimeError('required')
    elif kind == 'unique':
        if spec[1] in record and record[spec[1]] in unique(spec[1]):
            raise RuntimeError('repeated')
    elif kind == 'fail':
        if an_id == spec[1]:
            raise EXCS[spec[2]]('postprocessor')
    return record


# --- The reference

class Table(object):

    def __init__(self, idcol='id', extractor='str', defaults=(), posts=()):
        self.idcol, self.extractor = idcol, extractor
        self.defaults = dict(copy.deepcopy(dict(defaults)))
        self.posts = list(posts)
        self.records = OrderedDict()

    def unique(self, column):
        return {r[column] for r in self.records.values() if column in r}

    def extract(self, i):
        if self.extractor == 'str':
            return str(i)
        if self.extractor == 'none':
            return i
        if self.extractor == 'prefix':
            return 'p' + str(i)
        if isinstance(self.extractor, list):      # ['fail', id, exc]
            if i == self.extractor[1]:
                raise Refused('extractor')
            return str(i)
        raise ValueError(self.extractor)

    def add(self, op, defaults=None, posts=None, nested=None):
        """The records that add must add; raises Refused if it must raise. Does not add them."""
        if op['form'] in ('failgen', 'failiter'):
            raise Refused('ids')
        ids = [self.extract(i) for i in op['ids']]
        per = {}
        for c, spec in op['cols']:
            kind = spec[0]
            if kind == 'scalar':
                per[c] = {i: spec[1] for i in ids}
            elif kind == 'dict':
                per[c] = dict(map(tuple, spec[1]))
            elif kind == 'failiter' or kind == 'failgen' and len(spec[1]) < len(ids):
                raise Refused('column')
            else:
                per[c] = dict.fromkeys(ids)
                # a repeated id is refused anyway
                per[c].update(zip(ids, spec[1]))
        new = OrderedDict()
        for i in ids:
            if i in self.records or i in new:
                raise Refused('repeated')
            record = {c: copy.deepcopy(values[i]) for c, values in per.items() if i in values}
            if self.idcol in record:
                raise Refused('id column')
            record[self.idcol] = i
            for c, v in (self.defaults if defaults is None else defaults).items():
                record.setdefault(c, copy.deepcopy(v))
            chain = list(self.posts if posts is None else posts)
            if op.get('posts') is not None:
                chain = list(op['posts']) if op.get('override') else chain + list(op['posts'])
            for p in chain:
                if p[0] == 'readd':
                    if i == p[1]:
                        nested(p[2])
                    continue
                try:
                    record = apply_post(p, i, record, lambda: len(self.records), self.unique)
                except Exception as e:
                    raise Refused('%s' % type(e).__name__)
            new[i] = record
        for i in new:
            if i in self.records:
                raise Refused('added meanwhile')
        return new

    def commit(self, new):
        self.records.update(new)


def call_add(add, op, posts):
    """Calls add (of whatever recorder, curried or partial) with the arguments of the operation."""
    kwargs = {c: real_column(spec) for c, spec in op['cols']}
    if not op['unbox']:
        kwargs['unbox_iterables'] = False
    if op.get('posts') is not None:
        kwargs['record_postprocessors'] = posts
        if op.get('override'):
            kwargs['override_postprocessors'] = True
    ids = real_ids(op)
    return lambda: add(ids, **kwargs)


def same(a, b):
    """Equality that tells 1 from True and 1.0."""
    return type(a) is type(b) and (
        all(same(x, y) for x, y in zip(a, b)) and len(a) == len(b) if isinstance(a, (list, tuple)) else
        a.keys() == b.keys() and all(same(a[k], b[k]) for k in a) if isinstance(a, dict) else a == b)


def observe(rec, ids):
    """Everything visible from outside, but the data frame."""
    seen = {'len': len(rec)}
    for i in ids:
        one, two = rec.get(i), rec[i]
        if one != two:
            raise Violation('get', 'get(%r) is %r but [%r] is %r' % (i, one, i, two))
        seen[i] = copy.deepcopy(one)
    many = rec.get(*ids)
    if many != [r for i in ids for r in seen[i]]:
        raise Violation('get', 'get of many is %r' % many)
    return seen


def expected(table, ids):
    seen = {'len': len(table.records)}
    for i in ids:
        seen[i] = [dict(table.records[i])] if i in table.records else []
    return seen


def same_state(a, b):
    return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)


def check_unique(rec, table, columns=ALL_COLS):
    for c in columns:
        try:
            mine = table.unique(c)
        except TypeError:
            continue
        got = rec.unique(c)
        if got != mine:
            raise Violation('unique', 'unique(%r) is %r, must be %r' % (c, got, mine))


def check_frame(rec, table):
    """The data frame has the records in their order."""
    df = rec.to_df()
    if list(df.index) != list(table.records):
        raise Violation('order', 'the data frame has %r, the records were added as %r' % (
            list(df.index), list(table.records)))
    cols = set(df.columns)
    mine = set(c for r in table.records.values() for c in r)
    if cols != mine:
        raise Violation('frame', 'the data frame has columns %r, must have %r' % (sorted(cols), sorted(mine)))
    for c in cols:
        for i, v in zip(df.index, list(df[c])):
            r = table.records[i]
            if c not in r or r[c] is None:
                if v is not None and v == v:
                    raise Violation('frame', 'the data frame has %r in %r of %r' % (v, c, i))
            elif v != r[c]:
                raise Violation('frame', 'the data frame has %r in %r of %r, not %r' % (v, c, i, r[c]))
    # whatever is done with the data frame stays there
    df['spoiled'] = 1
    if len(df) and len(df.columns) > 1:
        df.iloc[0, 0] = 'spoiled'
        df.drop(df.index[-1], inplace=True)
