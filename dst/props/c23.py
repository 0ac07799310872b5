# coding=utf-8
"""C23: the id of an array, series, data frame or index changes when, and only when, its contents do."""
import json
import pickle

from ..core import EXCS, Violation, rng_for
from ..runner import Prop
from .common import USER_ERRORS, module_files, maybe_fault, run_concurrently, sched, short

DTYPES = ('i8', 'i8', 'i4', 'u1', 'f8', 'f8', 'f4', '>f8', 'c16', 'b1', 'S3', 'U2', 'U3', 'M8[D]', 'M8[s]', 'm8[h]',
          'struct', 'O', 'O')
SHAPES = ((0,), (1,), (3,), (4,), (6,), (1, 3), (3, 1), (2, 3), (3, 2), (2, 2), (2, 1, 3), (), (0, 3), (3, 0), (1500,))
EMPTIES = ((0,), (1,), (2,), (1, 2), (2, 1), (), (0, 2), (2, 0), (3, 0), (0, 0), (1, 0), (2, 1, 1), (2, 0, 1), (2, 0, 3))
FIELDS = ((('x', 'i4'), ('y', 'f8')), (('x', 'i4'), ('y', 'f8')), (('x', 'i4'), ('z', 'f8')), (('x', 'i4'), ('y', 'i8')),
          (('y', 'i4'), ('x', 'f8')), (('x', 'i8'), ('y', 'f4')))
ZEROS = {'S3': '', 'U2': '', 'U3': '', 'b1': False, 'c16': [0., 0.], 'struct': [0, 0], 'O': ['v', 0]}
COLUMNS = ('i8', 'i8', 'f8', 'f8', 'b1', 'O', 'M8', 'tz', 'cat', 'Int64', 'i4')
INDEXES = ('range', 'range', 'int', 'str', 'dates', 'multi', 'float', 'cat', 'freq')
LABELS = ('a', 'b', 'c', 'd')
MEMBERS = ('a', 'b', 'c', 'd', 0, 1, 2, None, 2.5)
METHODS = ('upper', 'lower', 'strip')
WAYS = ('build', 'build', 'What', 'list', 'whatable', 'function', 'dict')


class Bomb(object):
    """It cannot be pickled for a while."""

    def __init__(self, name, exc):
        self.name, self.exc, self.armed = name, exc, False

    def __reduce_ex__(self, protocol):
        if self.armed:
            raise EXCS[self.exc]('user code')
        return str, ('bomb ' + self.name,)


# --- Contents, small enough to appear again

def element(rng, dtype):
    """A value for a place in an array, as json."""
    if dtype in ('i8', 'i4', 'u1', 'Int64'):
        if dtype == 'Int64' and rng.random() < .3:
            return None
        return rng.choice((0, 1, 1, 2, 200))
    if dtype in ('f8', 'f4', '>f8'):
        return rng.choice((0., -0., 1., 2.5, 1e-300 if dtype != 'f4' else .1, 'nan', 'inf'))
    if dtype == 'c16':
        return [rng.choice((0., 1.)), rng.choice((0., 1.))]
    if dtype == 'b1':
        return rng.random() < .5
    if dtype in ('S3', 'U2', 'U3'):
        return rng.choice(('', 'a', 'b', 'ab'))
    if dtype in ('M8[D]', 'M8[s]', 'M8', 'tz', 'm8[h]'):
        return rng.choice((0, 1, 365, 20000))
    if dtype == 'struct':
        return [rng.choice((0, 1)), rng.choice((0., 1.5))]
    if dtype == 'cat':
        return rng.choice(LABELS[:3])
    if dtype == 'str':
        return rng.choice(LABELS)
    return thing(rng, 2)


def thing(rng, depth):
    """An element of an array of objects."""
    r = rng.random()
    if depth and r < .4:
        kind = rng.choice(('list', 'tuple', 'dict', 'set', 'fset', 'list', 'np', 'method'))
        if kind == 'dict':
            return ['dict', [[k, thing(rng, depth - 1)] for k in
                             rng.sample(LABELS if rng.random() < .7 else MEMBERS, rng.randrange(4))]]
        if kind in ('set', 'fset'):
            return [kind, rng.sample(LABELS if rng.random() < .6 else MEMBERS, rng.randrange(4))]
        if kind == 'method':
            return ['method', [rng.choice(METHODS), rng.choice(LABELS)]]
        if kind == 'np':
            return ['np', [rng.randrange(3) for _ in range(rng.randrange(3))]]
        return [kind, [thing(rng, depth - 1) for _ in range(rng.randrange(3))]]
    return rng.choice((['v', None], ['v', 0], ['v', 1], ['v', 1.], ['v', True], ['v', 'a'], ['v', 'ab'], ['v', '1'],
                       ['v', ''], ['bytes', 'a'], ['v', 2 ** 70]))


def tweaked(spec, rng):
    """The same thing but for a detail, perhaps deep in it."""
    kind, v = spec
    r = rng.random()
    if kind in ('set', 'fset'):
        if r < .15:
            return [{'set': 'fset', 'fset': 'set'}[kind], v]
        others = [m for m in MEMBERS if m not in v]
        if v and r < .4:
            return [kind, v[:-1]]
        if v and r < .7:
            return [kind, v[:-1] + [rng.choice(others)]]
        return [kind, v + [rng.choice(others)]]
    if kind == 'method':
        return [kind, [rng.choice(METHODS), v[1]] if r < .5 else [v[0], rng.choice(LABELS)]]
    if kind in ('list', 'tuple'):
        if v and r < .6:
            i = rng.randrange(len(v))
            return [kind, v[:i] + [tweaked(v[i], rng)] + v[i + 1:]]
        if r < .7:
            return [{'list': 'tuple', 'tuple': 'list'}[kind], v]
        return [kind, v[::-1]] if len(v) > 1 and r < .8 else [kind, v + [['v', 0]]]
    if kind == 'dict' and v:
        i = rng.randrange(len(v))
        if r < .7:
            return [kind, v[:i] + [[v[i][0], tweaked(v[i][1], rng)]] + v[i + 1:]]
        return [kind, v[:i] + [['%s!' % v[i][0], v[i][1]]] + v[i + 1:]]
    if kind == 'np':
        return [kind, [x + (rng.random() < .5) for x in v]]
    return thing(rng, 0)


def real_thing(spec):
    import numpy as np
    kind, v = spec
    if kind == 'v':
        return v if not isinstance(v, str) else ''.join(list(v))
    if kind == 'bytes':
        return v.encode('ascii')
    if kind == 'dict':
        return {k: real_thing(x) for k, x in v}
    if kind in ('set', 'fset'):
        return {'set': set, 'fset': frozenset}[kind](v)
    if kind == 'method':
        return getattr(v[1], v[0])
    if kind == 'np':
        return np.array(v, dtype='i8')
    if kind == 'bomb':
        return Bomb(*v)
    return {'list': list, 'tuple': tuple}[kind]([real_thing(x) for x in v])


def real_element(dtype, x):
    """For a place in an array."""
    import numpy as np
    import pandas as pd
    if dtype in ('f8', 'f4', '>f8'):
        return float(x)
    if dtype == 'c16':
        return complex(*x)
    if dtype == 'S3':
        return x.encode('ascii')
    if dtype in ('M8[D]', 'M8[s]'):
        return np.datetime64(int(x), 'D')
    if dtype == 'm8[h]':
        return np.timedelta64(int(x), 'h')
    if dtype == 'M8':
        return pd.Timestamp(int(x), unit='D')
    if dtype == 'tz':
        return pd.Timestamp(int(x), unit='D', tz='UTC')
    if dtype == 'struct':
        return tuple(x)
    if dtype == 'Int64':
        return pd.NA if x is None else int(x)
    if dtype == 'O':
        return real_thing(x)
    return x


def size(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def array_spec(rng):
    dtype = rng.choice(DTYPES)
    shape = list(rng.choice(SHAPES))
    cls = 'ndarray'
    r = rng.random()
    if r < .12 and len(shape) == 2 and dtype in ('i8', 'f8', 'O'):
        cls = 'matrix'
    elif r < .3 and dtype in ('i8', 'f8', 'i4', 'b1'):
        cls = 'masked'
    elif r < .3 and dtype == 'struct':
        cls = 'recarray'
    few = [element(rng, dtype) for _ in range(min(size(shape), 8))]
    if rng.random() < .25:
        # so arrays of different types, classes and shapes have the same bytes
        shape = list(rng.choice(EMPTIES))
        few = [ZEROS.get(dtype, 0)] * size(shape)
        cls = 'ndarray' if cls == 'matrix' else cls
    return {'kind': 'np', 'dtype': dtype, 'shape': shape, 'order': rng.choice('CCF'), 'cls': cls, 'values': few,
            'fields': rng.choice(FIELDS),
            'mask': [rng.random() < .4 for _ in few] if rng.random() < .8 else None}


def column_spec(rng, n, types=COLUMNS):
    dtype = rng.choice(types)
    return {'dtype': dtype, 'values': [element(rng, dtype) for _ in range(min(n, 8))]}


def index_spec(rng, n):
    kind = rng.choice(INDEXES)
    return {'kind': kind, 'start': rng.randrange(3), 'name': rng.choice((None, None, 'k', 'q'))}


def spec_of(rng):
    r = rng.random()
    if r < .45:
        return array_spec(rng)
    n = rng.choice((0, 1, 2, 3, 3, 4, 5, 300))
    index = index_spec(rng, n)
    if r < .62:
        return {'kind': 'series', 'n': n, 'index': index, 'column': column_spec(rng, n), 'name': rng.choice((None, 'a', 'b'))}
    if r < .88:
        return {'kind': 'frame', 'n': n, 'index': index, 'how': rng.choice(('dict', 'grown', 'grown', 'array')),
                'columns': [column_spec(rng, n) for _ in range(rng.randrange(5))], 'axis': rng.choice((None, None, 'f'))}
    if r < .96:
        return {'kind': 'index', 'n': n, 'index': index, 'at': rng.randrange(n) if n else 0, 'other': rng.random() < .5}
    return {'kind': 'cat', 'n': n, 'column': column_spec(rng, n, ('cat',))}


def slightly(column, rng):
    """Changes a detail of an element of a column of objects."""
    values = column['values']
    if column['dtype'] != 'O' or not values or rng.random() < .3:
        return False
    i = rng.randrange(len(values))
    values[i] = tweaked(values[i], rng)
    return True


def sibling_of(spec, rng):
    """A specification that is almost the same."""
    spec, other = json.loads(json.dumps(spec)), spec_of(rng)
    while other['kind'] != spec['kind']:
        other = spec_of(rng)
    if spec['kind'] == 'np':
        if rng.random() < (.5 if spec['dtype'] != 'O' else .2):
            spec['values'] = [ZEROS.get(spec['dtype'], 0)] * len(spec['values'])
        part = 'values' if spec['dtype'] == 'O' and rng.random() < .5 else rng.choice(('fields', 'dtype', 'shape', 'mask', 'values', 'order') if spec['dtype'] == 'struct' else
                          ('dtype', 'shape', 'mask', 'values', 'order', 'cls'))
        if part == 'cls' and 'masked' in (spec['cls'], other['cls']) and spec['dtype'] in ('i8', 'f8', 'i4', 'b1'):
            spec['cls'] = other['cls'] if other['cls'] != 'recarray' else 'ndarray'
        elif part == 'dtype':
            spec['dtype'] = other['dtype']
            spec['values'] = [ZEROS.get(other['dtype'], 0)] * len(spec['values']) if rng.random() < .8 else [
                element(rng, other['dtype']) for _ in spec['values']]
            if spec['cls'] == 'matrix' and (other['dtype'] not in ('i8', 'f8', 'O')) or spec['cls'] == 'recarray':
                spec['cls'] = 'ndarray'
        elif part == 'shape':
            spec['shape'] = list(rng.choice([t for t in SHAPES + EMPTIES if spec['cls'] != 'matrix' or len(t) == 2]))
        elif part == 'values' and spec['dtype'] == 'O' and spec['values'] and rng.random() < .7:
            i = rng.randrange(len(spec['values']))
            spec['values'][i] = tweaked(spec['values'][i], rng)
        elif part == 'values':
            spec['values'] = [element(rng, spec['dtype']) for _ in spec['values']]
        elif part in ('fields', 'order'):
            spec[part] = other[part]
        elif part == 'mask' and spec['mask'] is not None:
            spec['mask'] = [rng.random() < .4 for _ in spec['mask']]
        n = min(size(spec['shape']), 8)
        spec['values'] = (spec['values'] + [element(rng, spec['dtype']) for _ in range(n)])[:n]
        if spec['mask'] is not None:
            spec['mask'] = (spec['mask'] + [False] * n)[:n]
        return spec
    for part in rng.sample(sorted(spec), len(spec)):
        if part in ('name', 'axis', 'index', 'how', 'other'):
            spec[part] = other[part]
            break
        if part == 'columns' and spec['columns']:
            i = rng.randrange(len(spec['columns']))
            if not slightly(spec['columns'][i], rng):
                spec['columns'][i] = column_spec(rng, spec['n'])
            break
        if part == 'column':
            if slightly(spec['column'], rng):
                break
            spec['column'] = column_spec(rng, spec['n'], ('cat',) if spec['kind'] == 'cat' else COLUMNS)
            break
    return spec


# --- Building them

def fill(values, n):
    return [values[i % len(values)] for i in range(n)] if values else []


def build_array(spec):
    import numpy as np
    dtype = spec['dtype']
    real_dtype = np.dtype([tuple(f) for f in spec['fields']]) if dtype == 'struct' else np.dtype(dtype)
    shape = tuple(spec['shape'])
    a = np.empty(shape, dtype=real_dtype, order=spec['order'])
    for at, x in zip(np.ndindex(*shape), fill(spec['values'], size(shape))):
        a[at] = real_element(dtype, x)
    if spec['cls'] == 'matrix':
        return a.view(np.matrix)
    if spec['cls'] == 'recarray':
        return a.view(np.recarray)
    if spec['cls'] == 'masked':
        a = np.ma.array(a)
        if spec['mask'] is not None:
            a.mask = np.array(fill(spec['mask'], size(shape)), dtype=bool).reshape(shape)
    return a


def build_column(spec, n):
    import numpy as np
    import pandas as pd
    dtype = spec['dtype']
    values = [real_element(dtype, x) for x in fill(spec['values'], n)]
    if dtype == 'cat':
        return pd.Categorical(values, categories=list(LABELS[:3]))
    if dtype == 'Int64':
        return pd.array(values, dtype='Int64')
    if dtype == 'M8':
        return pd.array(pd.DatetimeIndex(values))
    if dtype == 'tz':
        return pd.array(pd.DatetimeIndex(values, tz='UTC')) if n == 0 else pd.array(pd.DatetimeIndex(values))
    a = np.empty(n, dtype=dtype)
    for i, v in enumerate(values):
        a[i] = v
    return a


def build_index(spec, n):
    import pandas as pd
    kind, start, name = spec['kind'], spec['start'], spec['name']
    if kind == 'range':
        return pd.RangeIndex(start, start + n, name=name)
    if kind == 'int':
        return pd.Index([start + 2 * i for i in range(n)], dtype='int64', name=name)
    if kind == 'float':
        return pd.Index([start + i / 2. for i in range(n)], dtype='float64', name=name)
    if kind == 'str':
        return pd.Index(['%s%d' % ('abc'[start], i) for i in range(n)], dtype=object, name=name)
    if kind == 'dates':
        return pd.DatetimeIndex([pd.Timestamp(start + i * i, unit='D') for i in range(n)], name=name)
    if kind == 'freq':
        return pd.date_range('2020-01-0%d' % (start + 1), periods=n, freq='D', name=name)
    if kind == 'cat':
        return pd.CategoricalIndex(fill([LABELS[start], 'a', 'c'], n), categories=list(LABELS), name=name)
    return pd.MultiIndex.from_arrays([[start + i // 2 for i in range(n)], ['%d' % (i % 2) for i in range(n)]],
                                     names=[name, 'm'])


def build(spec):
    import numpy as np
    import pandas as pd
    kind = spec['kind']
    if kind == 'np':
        return build_array(spec)
    n = spec['n']
    if kind == 'cat':
        return build_column(spec['column'], n)
    index = build_index(spec['index'], n)
    if kind == 'index':
        if spec['other'] and n and spec['index']['kind'] in ('int', 'float', 'str', 'cat'):
            # another element, anywhere
            values = list(index)
            values[spec['at']] = values[0]
            index = type(index)(values, **({'categories': list(LABELS)} if spec['index']['kind'] == 'cat' else {}),
                                name=index.name)
        return index
    if kind == 'series':
        return pd.Series(build_column(spec['column'], n), index=index, name=spec['name'])
    columns = [build_column(c, n) for c in spec['columns']]
    names = list(LABELS[:len(columns)])
    if spec['how'] == 'array':
        df = pd.DataFrame(np.array([[1. * i + j for j in names_at(names)] for i in range(n)], dtype='f8').reshape(
            n, len(names)), index=index, columns=names)
    elif spec['how'] == 'dict':
        df = pd.DataFrame(dict(zip(names, columns)), index=index, columns=names)
    else:
        df = pd.DataFrame(index=index)
        for k, c in zip(names, columns):
            df[k] = c
    if spec['axis'] is not None:
        df.columns.name = spec['axis']
    return df


def names_at(names):
    return range(len(names))


# --- Their contents

def content(o):
    """What is in it (not how it is kept in memory)."""
    import numpy as np
    import pandas as pd
    if isinstance(o, np.ma.MaskedArray):
        return 'masked', content(np.asarray(o.data)), content(np.ma.getmaskarray(o)) if o.mask is not np.ma.nomask else None
    if isinstance(o, np.ndarray):
        name = type(o).__name__
        if o.dtype.hasobject:
            values = tuple(content_of(v) for v in np.asarray(o).ravel().tolist())
        else:
            values = np.asarray(o).tobytes('C')
        return name, str(o.dtype.descr), o.shape, values
    if isinstance(o, pd.DataFrame):
        return 'frame', content(o.index), content(o.columns), tuple(column(o.iloc[:, i]) for i in range(o.shape[1]))
    if isinstance(o, pd.Series):
        return 'series', content(o.index), o.name, column(o)
    if isinstance(o, pd.MultiIndex):
        return 'multi', tuple(o.names), tuple(content_of(t) for t in list(o)), len(o.levels)
    if isinstance(o, pd.Index):
        return type(o).__name__, o.name, str(getattr(o, 'freq', None)), column(o)
    return 'cat', column(o)


def column(s):
    import pandas as pd
    dtype = s.dtype
    if isinstance(dtype, pd.CategoricalDtype):
        cat = s if isinstance(s, pd.Categorical) else s.cat if isinstance(s, pd.Series) else s
        return 'category', tuple(dtype.categories), bool(dtype.ordered), tuple(int(c) for c in cat.codes)
    if str(dtype).startswith('datetime64[ns, '):
        return str(dtype), tuple(int(v.value) for v in s)
    if str(dtype) == 'Int64':
        return 'Int64', tuple(None if v is pd.NA else int(v) for v in s)
    if dtype == object:
        return 'object', tuple(content_of(v) for v in s)
    return str(dtype), s.values.tobytes()


def content_of(v):
    if isinstance(v, (list, tuple)):
        return type(v).__name__, tuple(content_of(x) for x in v)
    if isinstance(v, dict):
        return 'dict', tuple(sorted((content_of(k), content_of(x)) for k, x in v.items()))
    if isinstance(v, (set, frozenset)):
        return type(v).__name__, tuple(sorted(map(content_of, v)))
    if type(v) is type('a'.upper):
        return 'method', v.__name__, v.__self__
    if isinstance(v, Bomb):
        return 'bomb', v.name
    if hasattr(v, 'dtype') and hasattr(v, 'tobytes'):
        return content(v)
    return type(v).__name__, repr(v)


def bombs(o):
    import numpy as np
    import pandas as pd
    if isinstance(o, pd.DataFrame):
        values = [v for i in range(o.shape[1]) if o.iloc[:, i].dtype == object for v in o.iloc[:, i]]
    elif isinstance(o, pd.Series) and o.dtype == object or isinstance(o, np.ndarray) and o.dtype == object:
        values = list(np.asarray(o).ravel().tolist())
    else:
        values = []
    return [v for v in values if isinstance(v, Bomb)]


def object_arrays(o):
    """Where it keeps objects."""
    import numpy as np
    import pandas as pd
    if isinstance(o, np.ndarray):
        return [np.asarray(o)] if o.dtype == object else []
    if isinstance(o, pd.Series):
        return [o.values] if o.dtype == object else []
    if isinstance(o, pd.DataFrame):
        return [o.iloc[:, j].values for j in range(o.shape[1]) if o.iloc[:, j].dtype == object]
    return []


# --- Reading them

def reads(o):
    import numpy as np
    import pandas as pd
    common = [lambda: repr(o), lambda: len(o), lambda: o.copy(), lambda: str(o.dtype), lambda: list(o),
              lambda: o == o, lambda: np.asarray(o)]
    if isinstance(o, np.ndarray):
        return common + [lambda: o.sum(), lambda: o.T, lambda: o.reshape(-1), lambda: o.astype(object),
                         lambda: o.flags, lambda: np.sort(o), lambda: o[0], lambda: o.view(), lambda: o.ravel(),
                         lambda: o.data, lambda: o.base, lambda: pickle.dumps(o), lambda: o.argsort()]
    if isinstance(o, pd.DataFrame):
        return common + [lambda: o.values, lambda: o.sum(), lambda: o.T, lambda: o.describe(), lambda: o.head(2),
                         lambda: list(o.iterrows()), lambda: list(o.itertuples()), lambda: o.memory_usage(),
                         lambda: o.isnull(), lambda: o.to_dict(), lambda: [o[c] for c in o.columns],
                         lambda: o.iloc[0], lambda: o.loc[o.index[0]], lambda: o.columns.is_unique,
                         lambda: o.groupby(o.columns[0]).size(), lambda: o.sort_values(o.columns[0]),
                         lambda: o.index.is_unique, lambda: o.dtypes, lambda: o.select_dtypes('number'),
                         lambda: o.reset_index(), lambda: o.to_numpy(), lambda: o.equals(o), lambda: o.mean(),
                         lambda: o.apply(len), lambda: o.duplicated(), lambda: o.a, lambda: o.to_csv(),
                         lambda: pickle.dumps(o), lambda: o.iat[0, 0], lambda: o + o, lambda: o.reindex(o.index[:1])]
    if isinstance(o, pd.Series):
        return common + [lambda: o.values, lambda: o.sum(), lambda: o.unique(), lambda: o.value_counts(),
                         lambda: o.sort_values(), lambda: o.isnull(), lambda: o.to_dict(), lambda: o.iloc[0],
                         lambda: o.loc[o.index[0]], lambda: o.index.is_unique, lambda: o.groupby(o).size(),
                         lambda: o.cat.codes, lambda: o.dt.year, lambda: o.str.len(), lambda: o.head(2),
                         lambda: o.to_frame(), lambda: o.describe(), lambda: o.reset_index(), lambda: o.is_unique,
                         lambda: pickle.dumps(o), lambda: o.array, lambda: o.astype(str)]
    if isinstance(o, pd.Index):
        return common + [lambda: o.is_unique, lambda: o.get_loc(o[0]), lambda: o.hasnans, lambda: o.is_monotonic,
                         lambda: o.inferred_type, lambda: o.get_indexer(o), lambda: o.values, lambda: o.sort_values(),
                         lambda: o.unique(), lambda: o.to_frame(), lambda: o.inferred_freq, lambda: o.year,
                         lambda: o.is_lexsorted(), lambda: o.codes, lambda: pickle.dumps(o), lambda: o.argsort(),
                         lambda: o.engine, lambda: o[:1], lambda: o.union(o), lambda: o.memory_usage()]
    return common + [lambda: o.codes, lambda: o.categories, lambda: o.describe(), lambda: o.unique(),
                     lambda: o.value_counts(), lambda: o.isna(), lambda: o.argsort(), lambda: pickle.dumps(o)]


# --- Changing them

def change(o, spec, kind, seed):
    """Changes something in place; returns a function that undoes it, or None if there was nothing to change."""
    import numpy as np
    import pandas as pd
    rng = rng_for(seed)
    if kind == 'inside':
        return change_inside([v for values in object_arrays(o) for v in values.ravel().tolist()], rng)
    if isinstance(o, np.ndarray):
        if kind == 'label':
            if spec['dtype'] == 'struct' and spec['cls'] == 'ndarray':
                old = o.dtype.names
                o.dtype.names = rng.choice((('x', 'y'), ('x', 'z'), ('y', 'x')))
                return lambda: setattr(o.dtype, 'names', old)
            if spec['cls'] == 'ndarray' and o.flags.c_contiguous and o.ndim == 1:
                old = o.shape
                o.shape = rng.choice(((len(o), 1), (1, len(o))))
                return lambda: setattr(o, 'shape', old)
            return
        if not o.size:
            return
        at = tuple(rng.randrange(n) for n in o.shape)
        if spec['cls'] == 'masked':
            if kind == 'other' and o.mask is not np.ma.nomask:
                old = bool(o.mask[at])
                mask = o.mask
                mask[at] = not old

                def undo():
                    mask[at] = old
                return undo
            base = o.data
        else:
            base = np.asarray(o)
        old = base[at] if spec['dtype'] != 'struct' else tuple(base[at])
        base[at] = changed(spec['dtype'], old, kind, rng)

        def undo():
            base[at] = old
        return undo
    if isinstance(o, pd.Categorical):
        if not len(o):
            return
        at = rng.randrange(len(o))
        old = o[at]
        o[at] = rng.choice(LABELS[:3])

        def undo():
            o[at] = old
        return undo
    if kind == 'label' or isinstance(o, pd.Index):
        r = rng.random()
        if isinstance(o, pd.Index) or r < .4:
            index = o if isinstance(o, pd.Index) else o.index
            if isinstance(index, pd.MultiIndex):
                old = list(index.names)
                index.names = [rng.choice((None, 'k', 'q')), 'm']
                return lambda: setattr(index, 'names', old)
            old = index.name
            index.name = rng.choice((None, 'k', 'q'))
            return lambda: setattr(index, 'name', old)
        if isinstance(o, pd.Series):
            old = o.name
            o.name = rng.choice((None, 'a', 'b'))
            return lambda: setattr(o, 'name', old)
        if not len(o.columns):
            return
        if r < .7:
            old = o.columns
            labels = list(old)
            labels[rng.randrange(len(labels))] = 'z'
            o.columns = pd.Index(labels, name=old.name)
            return lambda: setattr(o, 'columns', old)
        old = o.index
        o.index = pd.Index([5 + i for i in range(len(old))], name=old.name, dtype='int64')
        return lambda: setattr(o, 'index', old)
    if not len(o):
        return
    i = rng.randrange(len(o))
    if isinstance(o, pd.Series):
        dtype, s = spec['column']['dtype'], o
        old = s.iloc[i]
        new = changed(dtype, old, kind, rng)
        if dtype == 'O':
            # as a whole, whatever it is
            values = s.values
            values[i] = new
            return lambda: values.__setitem__(i, old)
        s.iloc[i] = new

        def undo():
            s.iloc[i] = old
        return undo
    if not len(o.columns):
        return
    j = rng.randrange(len(o.columns))
    dtype = 'f8' if spec['how'] == 'array' else spec['columns'][j]['dtype']
    if dtype == 'O':
        values = o.iloc[:, j].values
        old = values[i]
        values[i] = changed(dtype, old, kind, rng)
        return lambda: values.__setitem__(i, old)
    old = o.iat[i, j]
    new = changed(dtype, old, kind, rng)
    if kind == 'other' and o.index.is_unique and o.columns.is_unique:
        o.at[o.index[i], o.columns[j]] = new
    else:
        o.iat[i, j] = new

    def undo():
        o.iat[i, j] = old
    return undo


def change_inside(values, rng):
    """Changes in place one of the things that are in an array of objects; returns how to undo it."""
    import numpy as np
    found = []

    def look(v):
        if isinstance(v, (list, tuple)):
            for x in v:
                look(x)
        elif isinstance(v, dict):
            for x in v.values():
                look(x)
        if isinstance(v, (list, dict, set)) or isinstance(v, np.ndarray) and v.size:
            found.append(v)
    for v in values:
        look(v)
    if not found:
        return
    v = rng.choice(found)
    if isinstance(v, list):
        if v and rng.random() < .5:
            i, old = rng.randrange(len(v)), list(v)
            v[i] = real_thing(thing(rng, 0))
            return lambda: v.__setitem__(slice(None), old)
        v.append(real_thing(thing(rng, 1)))
        return v.pop
    if isinstance(v, dict):
        old = dict(v)
        v[rng.choice(LABELS)] = real_thing(thing(rng, 1))

        def undo():
            v.clear()
            v.update(old)
        return undo
    if isinstance(v, set):
        old = set(v)
        if v and rng.random() < .5:
            v.remove(sorted(v, key=repr)[rng.randrange(len(v))])
        v.add(rng.choice(MEMBERS))

        def undo():
            v.clear()
            v.update(old)
        return undo
    i = rng.randrange(len(v))
    old = v[i]
    v[i] = old + 1
    return lambda: v.__setitem__(i, old)


def changed(dtype, old, kind, rng):
    if dtype == 'O' and kind == 'other' and isinstance(old, list):
        return old + [1]
    return real_element(dtype, element(rng, dtype))


def plant(o, bomb, seed):
    """Puts it somewhere, if it can have objects; returns how to remove it."""
    import numpy as np
    import pandas as pd
    rng = rng_for(seed)
    values = None
    if isinstance(o, np.ndarray) and o.dtype == object:
        values = np.asarray(o)
    elif isinstance(o, pd.Series) and o.dtype == object:
        values = o.values
    elif isinstance(o, pd.DataFrame):
        for j in range(o.shape[1]):
            if o.iloc[:, j].dtype == object:
                values = o.iloc[:, j].values
    if values is None or not values.size:
        return
    at = tuple(rng.randrange(n) for n in values.shape)
    old = values[at]
    values[at] = bomb
    return lambda: values.__setitem__(at, old)


class Owned(object):

    def __init__(self, spec, owner):
        self.spec, self.owner, self.real = spec, owner, build(spec)
        self.log = []           # what changed it
        self.undos = []
        self.ids = {}           # content: id
        self.failing = None


class C23(Prop):
    ID = 'C23'
    RUNS = {'quick': 1800, 'thorough': 70000}
    RULE = 'Half of the runs are histories of 4-26 operations in one thread; the others, 2-3 threads with up to 9 ' \
           'operations each under a random or PCT schedule: describing (in six ways) arrays of 16 types and four ' \
           'classes, series, frames made in several ways, indices and categoricals; reading them in up to 37 ways; ' \
           'changing elements, names, labels and shapes in place, and undoing it; building the same again with only ' \
           'the changes; dropping them and building others. Elements that cannot be pickled; interrupts at any line.'
    REAL = ('whatami.plugins', 'whatami.minijoblib', 'whatami.what', 'numpy', 'pandas')
    STUB = ('thread scheduler', 'interrupts', 'user classes')
    NEED_PROBES = ('described', 'again', 'rebuilt', 'read', 'changed', 'undone', 'undone-again', 'failed', 'interrupted',
                   'concurrent', 'np', 'series', 'frame', 'index', 'cat', 'object', 'copied', 'returned', 'masked', 'inside', 'details')
    ASSUMPTIONS = ('what several threads describe is not changed meanwhile', 'user classes are not inside arrays',
                   'copies of arrays have the same memory layout')

    def prepare(self):
        import pandas as pd
        import numpy as np
        import whatami.whatutils    # noqa
        from whatami import What
        for o in (np.zeros(3), pd.DataFrame({'a': [1, 'b'], 'c': [1., 2.]}), pd.Series(['a']), np.array([None, {}, [1]])):
            for read in reads(o):
                try:
                    read()
                except Exception:
                    pass
            What('w', {'v': o}).id()

    def make_plan(self, rng, index, tier):
        faults, n = [], 0
        alone = rng.random() < .5
        pfault = rng.choice((0, 0, .15, .4))
        threads = []
        for _ in range(1 if alone else rng.choice((2, 2, 3))):
            ops = []
            for _ in range(rng.randrange(4, 27) if alone else rng.randrange(1, 10)):
                op = {'id': n, 'seed': rng.randrange(1 << 30), 'on': rng.randrange(30)}
                n += 1
                r = rng.random()
                if r < .4:
                    op.update(do='describe', how=rng.choice(WAYS))
                    maybe_fault(rng, faults, op['id'], pfault, 200)
                elif r < .43:
                    op.update(do='details', how=rng.choice(('array', 'series', 'frame')))
                elif r < .52:
                    op.update(do='read', times=rng.randrange(1, 4))
                elif r < .66:
                    op.update(do='change', kind=rng.choice(('element', 'element', 'inside', 'other', 'label')))
                elif r < .76:
                    op.update(do='undo')
                elif r < .81:
                    op.update(do='plant', exc=rng.choice(USER_ERRORS))
                elif r < .88:
                    op.update(do='rebuild', how=rng.choice(WAYS))
                elif r < .9:
                    op.update(do='copy')
                elif r < .93:
                    op.update(do='drop', spec=spec_of(rng))
                else:
                    op.update(do='new', spec=spec_of(rng))
                ops.append(op)
            threads.append(ops)
        pool = [op['spec'] for ops in threads for op in ops if 'spec' in op]
        specs = [spec_of(rng) for _ in range(3)]
        own = [[spec_of(rng)] for _ in threads]
        for where in [specs] + own:
            for i in range(len(where)):
                if rng.random() < .5:
                    where[i] = sibling_of(rng.choice(pool + specs), rng)
        for ops in threads:
            for op in ops:
                if 'spec' in op and rng.random() < .5:
                    op['spec'] = sibling_of(rng.choice(pool + specs + own[0]), rng)
        return {'threads': threads, 'faults': faults, 'alone': alone, 'specs': specs,
                'own': own, 'sched': {'kind': 'none'} if alone else sched(rng, nsteps=600)}

    # --- Running

    def execute(self, plan, make_sim):
        sim = self.sim = make_sim(sched=plan['sched'], faults=plan['faults'], files=module_files())
        self.owned, self.by_id, self.pending = [], {}, {}
        for spec in plan['specs']:
            self.add(spec, None)
        for t, specs in enumerate(plan['own']):
            for spec in specs:
                self.add(spec, t)
        run_concurrently(sim, plan['threads'], self.perform, canon=lambda v: v if isinstance(v, str) else None,
                         after=self.after)
        for owned in self.owned:
            if owned.failing is None:
                told = content(owned.real)
                self.judge(owned, told, self.describe(owned.real, 'build')(), 'at the end')
        if len(plan['threads']) > 1:
            sim.probe('concurrent')
        sim.probe('nontrivial')

    def add(self, spec, owner):
        self.owned.append(Owned(json.loads(json.dumps(spec)), owner))
        self.sim.probe(spec['kind'])
        if spec['kind'] == 'np' and spec['dtype'] == 'O':
            self.sim.probe('object')
        if spec['kind'] == 'np' and spec['cls'] == 'masked':
            self.sim.probe('masked')

    @staticmethod
    def describe(real, how):
        from whatami import What, whatable, what2id
        from whatami.plugins import WhatamiPluginManager
        if how == 'build':
            return lambda: WhatamiPluginManager.build_string(real)
        if how == 'What':
            return lambda: What('w', {'v': real}).id()[len('w(v='):-1]
        if how == 'list':
            return lambda: What('w', {'v': [real, (real,)]}).id()[len('w(v=['):-2].split(',(')[0]
        if how == 'dict':
            return lambda: WhatamiPluginManager.build_string({'a': real})[len("{'a':"):-1]
        if how == 'function':
            def f(x=None):
                return x
            f.__defaults__ = (real,)
            return lambda: what2id(f)[len('f(x='):-1]

        class W(object):
            pass
        w = whatable(W)()
        w.v = real
        return lambda: what2id(w)[len('W(v='):-1]

    def perform(self, th, op):
        do = op['do']
        mine = [o for o in self.owned if o.owner == th.tid]
        all_ = [o for o in self.owned if o.owner in (None, th.tid)]
        if do in ('describe', 'read'):
            owned = all_[op['on'] % len(all_)]
        elif mine:
            owned = mine[op['on'] % len(mine)]
        else:
            owned = None
        if do in ('describe', 'rebuild'):
            if owned is None:
                return lambda: None
            if do == 'rebuild':
                if owned.failing is not None:
                    return lambda: None
                again = build(owned.spec)
                done = []
                for entry in owned.log:
                    if entry == 'undo':
                        done.pop()()
                    else:
                        undo = change(again, owned.spec, *entry)
                        if undo is not None:
                            done.append(undo)
                if content(again) != content(owned.real):
                    raise Violation('changed', 'other thing than it was: %r, %r' % (again, owned.real))
                self.sim.probe('rebuilt')
                real = again
            else:
                real = owned.real
            self.pending[op['id']] = owned, content(real), op['how']
            return self.describe(real, op['how'])
        return lambda: self.other(th, op, owned)

    def other(self, th, op, owned):
        do, seed = op['do'], op['seed']
        if do == 'details':
            return self.details(op)
        if do == 'new':
            if len([o for o in self.owned if o.owner == th.tid]) < 6:
                self.add(op['spec'], th.tid)
            return
        if owned is None:
            return
        if do == 'read':
            rng = rng_for(seed)
            for _ in range(op['times']):
                try:
                    rng.choice(reads(owned.real))()
                except Exception:
                    pass
            self.sim.probe('read')
        elif do == 'change':
            if owned.failing is None:
                undo = change(owned.real, owned.spec, op['kind'], seed)
                if undo is not None:
                    owned.undos.append(undo)
                    owned.log.append([op['kind'], seed])
                    if op['kind'] == 'inside':
                        self.sim.probe('inside')
                    self.sim.probe('changed')
        elif do == 'undo':
            if owned.failing is not None:
                owned.failing[1]()
                owned.failing = None
            elif owned.undos:
                owned.undos.pop()()
                owned.log.append('undo')
                self.sim.probe('undone')
        elif do == 'plant':
            if owned.failing is None:
                bomb = Bomb('b', op['exc'])
                bomb.armed = True
                remove = plant(owned.real, bomb, seed)
                if remove is not None:
                    owned.failing = op['exc'], remove
        elif do == 'drop':
            self.owned.remove(owned)
            self.add(op['spec'], th.tid)
        elif do == 'copy':
            if owned.failing is None and not owned.log and owned.spec['kind'] == 'np' and owned.spec['dtype'] != 'O' and \
                    owned.spec['cls'] == 'ndarray':
                import copy
                twin = copy.copy(owned)
                twin.real = owned.real.copy(order='K')
                twin.log, twin.undos, twin.ids = [], [], dict(owned.ids)
                if twin.real.strides == owned.real.strides:
                    self.owned.append(twin)
                    self.sim.probe('copied')

    def details(self, op):
        """Things that are almost the same have other ids, the same things have the same."""
        import numpy as np
        import pandas as pd
        from whatami.plugins import WhatamiPluginManager
        rng = rng_for(op['seed'])
        specs = [thing(rng, 2) for _ in range(rng.randrange(1, 3))]
        while not any(isinstance(s[1], list) and s[1] for s in specs):
            specs[0] = thing(rng, 2)

        def make(specs):
            a = np.empty(len(specs), dtype=object)
            for i, s in enumerate(specs):
                a[i] = real_thing(s)
            return a if op['how'] == 'array' else pd.Series(a) if op['how'] == 'series' else pd.DataFrame({'a': a})
        for _ in range(6):
            i = rng.randrange(len(specs))
            other = specs[:i] + [tweaked(specs[i], rng)] + specs[i + 1:]
            a, b = make(specs), make(other)
            ida, idb = WhatamiPluginManager.build_string(a), WhatamiPluginManager.build_string(b)
            if (content(a) == content(b)) != (ida == idb):
                raise Violation('details', 'the ids of %ss of %s and %s are %s and %s' % (
                    op['how'], short(specs), short(other), ida, idb))
            specs = other
        self.sim.probe('details')

    def after(self, op, out, fired):
        if op['id'] not in self.pending:
            if out[0] == 'exc':
                raise out[1]
            return
        owned, told, how = self.pending.pop(op['id'])
        if fired and out[0] == 'exc':
            self.sim.probe('interrupted')
        elif owned.failing is not None and op['do'] == 'describe':
            self.sim.probe('failed')
            expected = EXCS[owned.failing[0]]
            if out[0] == 'ok' or not isinstance(out[1], expected) and not (
                    owned.failing[0] == 'StopIteration' and isinstance(out[1], RuntimeError)):
                raise Violation('hidden', 'an element of %s cannot be pickled (%s), but describing it gave %s' % (
                    short(owned.spec), owned.failing[0], short(out[1])))
        elif out[0] == 'exc':
            raise Violation('error', 'describing %s (%s) failed with %s' % (short(owned.spec), how, short(out[1])))
        else:
            self.judge(owned, told, out[1], how)

    def judge(self, owned, told, got, how):
        sim = self.sim
        sim.probe('described')
        if content(owned.real) != told:
            raise Violation('modified', 'describing %s changed it' % short(owned.spec))
        if told in owned.ids:
            sim.probe('again')
            if 'undo' in owned.log:
                sim.probe('undone-again')
            if len(owned.ids) > 1:
                sim.probe('returned')
            if owned.ids[told] != got:
                raise Violation('changed', 'the id of %s (%s) was %s and is %s, but the contents are the same; changes: %s' % (
                    short(owned.spec, 600), how, owned.ids[told], got, short(owned.log)))
        owned.ids[told] = got
        before = self.by_id.setdefault(got, told)
        if before != told:
            raise Violation('collision', '%s (%s) has the id %s, but also has something else: %s, %s' % (
                short(owned.spec, 600), how, got, short(told), short(before)))


PROP = C23()
