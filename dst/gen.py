# coding=utf-8
"""
Value specifications: JSON descriptions of the configurations and objects that user code would hand to whatami.

For each specification we can
  - build(spec): the real object
  - ref(spec): the id string it must get, by an independent and trivially simple renderer
  - parsed(spec): the canonical form of what parsing that id must return
"""
import ast
import collections
import math
import os
from functools import partial

from .core import REPO

NAMES = ('f', 'rfc', 'Model', 'A', 'B', 'prepro', 'kernel_2', '_g', 'NoneLike', 'Trueish', 'informed', 'nanmean',
         'Falsey', 'infinite', 'setup', 'frozensetter')
KEYS = ('a', 'b', 'c', 'x', 'y', 'z', 'alpha', 'n_jobs', 'Key', 'out', 'name2', 'kernel')
STRS = ('', 'a', 'b', 'abc', ' lead', 'trail ', '  ', 'x=1', 'f(x=1)', 'a,b', '(', ')', '[1]', '{', '}', '#', '"q"',
        'None', 'True', 'nan', '1', '-2.5', u'\xe9\xf1', u'\u4e2d\u6587', 'tab\there', 'new\nline', 'colon:here',
        'a=b,c=d', '<class', 'out=f()', '%s', 'z' * 40, '.', 'a b c', ' , ')
NASTY = ("it's", "'", "''", "a\\'b", "\\'", 'back\\slash', "x'y'z")


def _magic():
    """Short texts that the code under test treats in a special way: those that it mentions."""
    found = set()
    for name in ('parsers', 'plugins', 'what', 'whatutils', 'misc', 'registry'):
        try:
            with open(os.path.join(REPO, 'whatami', name + '.py'), encoding='utf-8') as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            continue
        found.update(n.value for n in ast.walk(tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and
                     len(n.value) < 24 and "'" not in n.value and '\\' not in n.value)
    return tuple(sorted(found))


MAGIC = _magic()
# Texts that are easily confused, or that are not easily handled
ODD = (u'e\u0301\xf1', u'\u212b', u'\xc5', u'A\u030a', u'\ufb01', 'fi', u'\U0001f600', u'\uff21', 'A', 'ABC', 'aBc', '007', '1.0',
       '1e5', '0x1', 'True ', 'none', 'NAN', u'\xa0', u'a\u200bb', 'cr\r\nlf', 'cr\rlf', u'ls\u2028', '\0', 'a\0b', '\x7f',
       u'\xdf', 'ss', u'\u0131', 'a  b', 'z' * 41, 'z' * 300, 'zy' * 1200, 'a' * 255, 'a' * 256, '-', '--', '0', '+1', '1_0',
       'f()', 'f', '..', '/', '`', '$x', '{x}', '%(x)s', '%', '*', '?', '&amp;', '<b>', '~', '^', ';', '|', '!', '@')
INTS = (0, 1, -1, 2, 3, 7, 10, 42, -5, 100, 2 ** 31, -2 ** 40, 10 ** 20, 2 ** 63, 2 ** 64 - 1, -10 ** 60)
FLOATS = (0.0, 1.0, -1.0, 0.5, -2.25, 1e-7, 1e16, 1e22, 3.14159, -1e-300, float('inf'), float('-inf'), 1.5e300, 100.0, .1 + .2, .3, 5e-324, 1e15, 1e-5, 123456789.12345679)
TYPES = ('int', 'float', 'complex')
CLASSES = ('collections.OrderedDict', 'collections.Counter', 'functools.partial', 'threading.Thread', 'str', 'dict',
           'datetime.timedelta', 'os.nosuchthing.Klass')


# --- Generation

def scalar(rng, nasty=False):
    k = rng.random()
    if k < .1:
        return ['none']
    if k < .2:
        return ['bool', rng.random() < .5]
    if k < .45:
        return ['int', rng.choice(INTS) if rng.random() < .7 else rng.randrange(-1000, 1000)]
    if k < .6:
        return ['float', repr(rng.choice(FLOATS) if rng.random() < .7 else round(rng.uniform(-10, 10), 3))]
    if nasty and k < .7:
        return ['str', rng.choice(NASTY)]
    return ['str', rng.choice(STRS if k < .92 else MAGIC if k < .95 and MAGIC else ODD)]


def hashable(rng, depth, nasty=False):
    if depth <= 0 or rng.random() < .8:
        return scalar(rng, nasty)
    return ['tuple', [hashable(rng, depth - 1, nasty) for _ in range(rng.randrange(4))]]


def _distinct(specs):
    seen, out = [], []
    for s in specs:
        v = build(s)
        # strings that only differ in their escaping get the same id, so they cannot be told apart afterwards
        if not any(_same_key(v, o) for o in seen) and not any(parsed(s) == parsed(o) for o in out):
            seen.append(v)
            out.append(s)
    return out


def _same_key(a, b):
    try:
        return hash(a) == hash(b) and a == b
    except TypeError:
        return False


def kvs(rng, depth, n=None, nasty=False, kinds=None):
    n = rng.choice((0, 1, 1, 2, 2, 3, 4)) if n is None else n
    if rng.random() < .004:     # wide ones
        return [['k%d' % i, scalar(rng, nasty)] for i in rng.sample(range(200), rng.choice((15, 30, 70)))]
    return [[k, value(rng, depth - 1, nasty, kinds)] for k in rng.sample(KEYS, min(n, len(KEYS)))]


EXTRA = {}      # kinds of values that some properties add: {kind: object with gen, build and ref}

PLAIN = ('scalar', 'list', 'tuple', 'dict', 'set')
RICH = PLAIN + ('fset', 'what', 'what', 'W', 'W', 'duck', 'fn', 'partial', 'type', 'cls', 'odict', 'lsub', 'dsub',
                'tsub', 'plainobj', 'wfn', 'strobj')


def value(rng, depth, nasty=False, kinds=None):
    kinds = kinds or RICH
    kind = rng.choice(kinds) if depth > 0 and rng.random() < .6 else 'scalar'
    if kind == 'scalar':
        return scalar(rng, nasty)
    if depth > 0 and rng.random() < .03:
        if kind in ('list', 'tuple', 'dict', 'set') and rng.random() < .5:
            return large(rng, kind, nasty)
        if all(k in kinds for k in ('list', 'tuple', 'dict')):
            return chain(rng, kinds)
    if kind in ('list', 'tuple', 'lsub', 'tsub'):
        return [kind, [value(rng, depth - 1, nasty, kinds) for _ in range(rng.choice((0, 1, 2, 2, 3)))]]
    if kind in ('dict', 'odict', 'dsub'):
        keys = _distinct([hashable(rng, 1, nasty) for _ in range(rng.choice((0, 1, 2, 3)))])
        return [kind, [[k, value(rng, depth - 1, nasty, kinds)] for k in keys]]
    if kind in ('set', 'fset'):
        return [kind, _distinct([hashable(rng, 1, nasty) for _ in range(rng.choice((0, 1, 2, 3, 4)))])]
    if kind == 'what':
        return what(rng, depth, nasty, kinds)
    if kind in ('W', 'duck', 'fn', 'partial', 'wfn'):
        return [kind, rng.choice(NAMES), kvs(rng, depth, nasty=nasty, kinds=kinds)]
    if kind == 'plainobj':
        return [kind, rng.choice(NAMES)]
    if kind == 'strobj':
        return [kind, rng.choice(NAMES), rng.choice(KEYS)]
    if kind == 'type':
        return [kind, rng.choice(TYPES)]
    if kind == 'cls':
        return [kind, rng.choice(CLASSES[:-1])]
    if kind in EXTRA:
        return EXTRA[kind].gen(rng, depth, nasty, kinds)
    raise ValueError(kind)


def large(rng, kind, nasty=False):
    """Collections with many elements."""
    n = rng.choice((12, 25, 70, 130))
    if kind in ('list', 'tuple'):
        return [kind, [scalar(rng, nasty) for _ in range(n)]]
    keys = [['int', i] for i in rng.sample(range(-500, 500), n)] if rng.random() < .5 else \
        [['str', 'k%d' % i] for i in rng.sample(range(1000), n)]
    return [kind, keys if kind == 'set' else [[k, scalar(rng, nasty)] for k in keys]]


def chain(rng, kinds):
    """Many levels of nesting."""
    v = scalar(rng)
    for _ in range(rng.choice((5, 8, 12))):
        kind = rng.choice(('list', 'tuple', 'dict') + (('what',) if 'what' in kinds else ()))
        if kind in ('list', 'tuple'):
            v = [kind, [v] + ([scalar(rng)] if rng.random() < .3 else [])]
        elif kind == 'dict':
            v = [kind, [[['str', rng.choice(KEYS)], v]]]
        else:
            v = [kind, rng.choice(NAMES), [[rng.choice(KEYS), v]], None, []]
    return v


def what(rng, depth, nasty=False, kinds=None, nonids=False):
    conf = kvs(rng, depth, nasty=nasty, kinds=kinds)
    nid = [k for k, _ in conf if rng.random() < .25] if nonids else []
    return ['what', rng.choice(NAMES), conf, rng.choice(KEYS) if rng.random() < .15 else None, nid]


# --- Building the real objects

def _klass(name, base=object):
    return type(str(name), (base,), {})


def _resolve(fqn):
    import builtins
    from importlib import import_module
    module, _, name = fqn.rpartition('.')
    return getattr(import_module(module), name) if module else getattr(builtins, name)


class _Plain(object):
    pass


class _Counter(object):
    """Factory of functions with the given defaults."""


def make_function(name, defaults, body=None):
    """def name(arg0, k=v...)"""
    ns = {'_d%d' % i: v for i, (_, v) in enumerate(defaults)}
    src = 'def %s(data, %s):\n    return %s\n' % (
        name, ', '.join('%s=_d%d' % (k, i) for i, (k, _) in enumerate(defaults)), body or 'data')
    exec(src, ns)
    return ns[name]


def make_whatable(name, attrs):
    from whatami import whatable
    cls = whatable(_klass(name))
    obj = cls()
    for k, v in attrs:
        setattr(obj, k, v)
    return obj


def make_duck(name, attrs):
    from whatami import What

    def dwhat(self):
        return What(name, dict(self.conf))
    obj = type('Duck', (object,), {'what': dwhat})()
    obj.conf = dict(attrs)
    return obj


def build(spec, order=None):
    """Builds the object. order: function list -> list, decides the insertion order of unordered containers."""
    kind = spec[0]
    order = order or list
    intern = getattr(order, 'intern', str)
    rec = partial(build, order=order)
    if kind == 'none':
        return None
    if kind == 'str':
        return intern(spec[1])
    if kind in ('bool', 'int'):
        return spec[1]
    if kind == 'float':
        return float(spec[1])
    if kind == 'list':
        return [rec(s) for s in spec[1]]
    if kind == 'tuple':
        return tuple([rec(s) for s in spec[1]])
    if kind == 'lsub':
        return _klass('MyList', list)([rec(s) for s in spec[1]])
    if kind == 'tsub':
        return _klass('MyTuple', tuple)([rec(s) for s in spec[1]])
    if kind == 'dict':
        return {rec(k): rec(v) for k, v in order(spec[1])}
    if kind == 'dsub':
        d = _klass('MyDict', dict)()
        for k, v in order(spec[1]):
            d[rec(k)] = rec(v)
        return d
    if kind == 'odict':
        return collections.OrderedDict([(rec(k), rec(v)) for k, v in spec[1]])
    if kind == 'set':
        s = set()
        for e in order(spec[1]):
            s.add(rec(e))
        return s
    if kind == 'fset':
        return frozenset([rec(e) for e in order(spec[1])])
    if kind == 'what':
        from whatami import What
        conf = {k: rec(v) for k, v in order(spec[2])}
        return What(spec[1], conf, non_id_keys=spec[4] if len(spec) > 4 and spec[4] else None,
                    out_name=spec[3])
    if kind == 'W':
        return make_whatable(spec[1], [(k, rec(v)) for k, v in order(spec[2])])
    if kind == 'duck':
        return make_duck(spec[1], [(k, rec(v)) for k, v in order(spec[2])])
    if kind == 'fn':
        return make_function(spec[1], [(k, rec(v)) for k, v in order(spec[2])])
    if kind == 'wfn':
        from whatami import whatable
        return whatable(make_function(spec[1], [(k, rec(v)) for k, v in order(spec[2])]))
    if kind == 'partial':
        f = make_function(spec[1], [(k, None) for k, _ in order(spec[2])])
        return partial(f, **{k: rec(v) for k, v in order(spec[2])})
    if kind == 'plainobj':
        return _klass(spec[1])()
    if kind == 'strobj':
        return type(str(spec[1]), (object,), {'__str__': lambda self: '%s()' % spec[2]})()
    if kind == 'type':
        return {'int': int, 'float': float, 'complex': complex}[spec[1]]
    if kind == 'cls':
        return _resolve(spec[1])
    if kind == 'arr':
        import numpy as np
        return np.array(spec[2], dtype=spec[1])
    if kind == 'sarr':
        import numpy as np
        return np.repeat(np.array(spec[2], dtype=spec[1]), 2)[::2]      # not contiguous
    if kind in ('oarr', 'series'):
        import numpy as np
        a = np.empty(len(spec[1]), dtype=object)
        for i, s in enumerate(spec[1]):
            a[i] = rec(s)
        if kind == 'oarr':
            return a
        import pandas as pd
        return pd.Series(a)
    if kind == 'frame':
        import pandas as pd
        return pd.DataFrame(collections.OrderedDict((c, [rec(s) for s in col]) for c, col in spec[1]))
    if kind in EXTRA:
        return EXTRA[kind].build(spec, rec)
    raise ValueError(kind)


# --- The id it must have

def ref(spec, nonids_too=False):
    kind = spec[0]
    if kind == 'none':
        return 'None'
    if kind in ('bool', 'int'):
        return str(spec[1])
    if kind == 'float':
        return repr(float(spec[1]))
    if kind == 'str':
        return quote(spec[1])
    if kind == 'list':
        return '[' + ','.join(map(ref, spec[1])) + ']'
    if kind == 'tuple':
        return '(' + ','.join(map(ref, spec[1])) + ')'
    if kind == 'lsub':
        return 'MyList(seq=[' + ','.join(map(ref, spec[1])) + '])'
    if kind == 'tsub':
        return 'MyTuple(seq=(' + ','.join(map(ref, spec[1])) + '))'
    if kind == 'dict':
        return '{' + ','.join(sorted(ref(k) + ':' + ref(v) for k, v in spec[1])) + '}'
    if kind == 'dsub':
        return 'MyDict(seq={' + ','.join(sorted(ref(k) + ':' + ref(v) for k, v in spec[1])) + '})'
    if kind == 'odict':
        return 'OrderedDict(seq=[' + ','.join('(' + ref(k) + ',' + ref(v) + ')' for k, v in spec[1]) + '])'
    if kind == 'set':
        return '{' + ','.join(sorted(map(ref, spec[1]))) + '}' if spec[1] else 'set()'
    if kind == 'fset':
        return 'frozenset({' + ','.join(sorted(map(ref, spec[1]))) + '})' if spec[1] else 'frozenset()'
    if kind == 'what':
        nid = set(spec[4]) if len(spec) > 4 and not nonids_too else ()
        body = call(spec[1], [kv for kv in spec[2] if kv[0] not in nid])
        return body if spec[3] is None else spec[3] + '=' + body
    if kind in ('W', 'wfn'):
        # attributes with leading or trailing underscore are private; a whatable function ignores none
        return call(spec[1], spec[2])
    if kind in ('duck', 'fn', 'partial'):
        return call(spec[1], spec[2])
    if kind == 'plainobj':
        return spec[1] + '()'
    if kind == 'strobj':
        return spec[2] + '()'
    if kind == 'type':
        return spec[1] + '()'
    if kind == 'cls':
        c = _resolve(spec[1])
        return "<class '%s'>" % (c.__module__ + '.' + c.__qualname__ if c.__module__ != 'builtins' else c.__name__)
    if kind in EXTRA:
        return EXTRA[kind].ref(spec)
    raise ValueError(kind)


def call(name, kvs):
    return name + '(' + ','.join(k + '=' + ref(v) for k, v in sorted(kvs, key=lambda kv: kv[0])) + ')'


def quote(s):
    return "'" + escaped(s) + "'"


def escaped(s):
    out = []
    s = s.replace("\\'", "'")
    for c in s:
        out.append("\\'" if c == "'" else c)
    return ''.join(out)


# --- What parsing it must give

def parsed(spec):
    """Canonical form of the value we must get when parsing ref(spec)."""
    kind = spec[0]
    if kind == 'none':
        return ('none',)
    if kind == 'bool':
        return ('bool', spec[1])
    if kind == 'int':
        return ('int', spec[1])
    if kind == 'float':
        return ('float', repr(float(spec[1])))
    if kind == 'str':
        return ('str', spec[1].replace("\\'", "'"))   # an escaped quote is the same as a quote
    if kind == 'list':
        return ('list', tuple(map(parsed, spec[1])))
    if kind == 'tuple':
        return ('tuple', tuple(map(parsed, spec[1])))
    if kind == 'lsub':
        return pwhat('MyList', {'seq': ('list', tuple(map(parsed, spec[1])))})
    if kind == 'tsub':
        return pwhat('MyTuple', {'seq': ('tuple', tuple(map(parsed, spec[1])))})
    if kind == 'dict':
        return ('dict', tuple(sorted(((parsed(k), parsed(v)) for k, v in spec[1]), key=repr)))
    if kind == 'dsub':
        return pwhat('MyDict', {'seq': parsed(['dict', spec[1]])})
    if kind == 'odict':
        return pwhat('OrderedDict', {'seq': ('list', tuple(('tuple', (parsed(k), parsed(v))) for k, v in spec[1]))})
    if kind in ('set', 'fset'):
        return ('set', tuple(sorted(map(parsed, spec[1]), key=repr)))
    if kind == 'what':
        nid = set(spec[4]) if len(spec) > 4 else ()
        return pwhat(spec[1], {k: parsed(v) for k, v in spec[2] if k not in nid}, spec[3])
    if kind in ('W', 'wfn', 'duck', 'fn', 'partial'):
        return pwhat(spec[1], {k: parsed(v) for k, v in spec[2]})
    if kind == 'plainobj':
        return pwhat(spec[1], {})
    if kind == 'strobj':
        return pwhat(spec[2], {})
    if kind == 'type':
        return pwhat(spec[1], {})
    if kind == 'cls':
        c = _resolve(spec[1])
        return ('class', c.__module__, c.__qualname__)
    raise ValueError(kind)


def pwhat(name, conf, out=None):
    return ('What', name, tuple(sorted(conf.items(), key=lambda kv: kv[0])), out)


def canon(v):
    """Canonical form of a real value, comparable with parsed(spec). Never raises."""
    from whatami import What
    if v is None:
        return ('none',)
    if isinstance(v, bool):
        return ('bool', v)
    if type(v) is int:
        return ('int', v)
    if type(v) is float:
        return ('float', repr(v))
    if isinstance(v, str):
        return ('str', str(v))
    if type(v) is list:
        return ('list', tuple(map(canon, v)))
    if type(v) is tuple:
        return ('tuple', tuple(map(canon, v)))
    if isinstance(v, (set, frozenset)):
        return ('set', tuple(sorted(map(canon, v), key=repr)))
    if type(v) is dict:
        return ('dict', tuple(sorted(((canon(k), canon(x)) for k, x in v.items()), key=repr)))
    if isinstance(v, What):
        try:
            return ('What', v.name, tuple(sorted(((k, canon(x)) for k, x in v.conf.items()),
                                                 key=lambda kv: str(kv[0]))), v.out_name)
        except Exception as e:
            return ('broken What', type(e).__name__)
    if isinstance(v, type):
        return ('class', v.__module__, v.__qualname__)
    return ('other', type(v).__name__)


def parseable(spec):
    """Can the generated id be parsed back? (the parser knows neither complex numbers nor arbitrary str())"""
    kind = spec[0]
    if kind in ('list', 'tuple', 'lsub', 'tsub', 'set', 'fset'):
        return all(map(parseable, spec[1]))
    if kind in ('dict', 'odict', 'dsub'):
        return all(parseable(k) and parseable(v) for k, v in spec[1])
    if kind in ('what', 'W', 'duck', 'fn', 'partial', 'wfn'):
        return all(parseable(v) for _, v in spec[2])
    return kind in ('none', 'bool', 'int', 'float', 'str', 'plainobj', 'type', 'cls', 'strobj')


def shrink_value(spec):
    """Simpler specifications."""
    kind = spec[0]
    if kind != 'int':
        yield ['int', 1]
    if kind in ('list', 'tuple', 'set', 'fset', 'lsub', 'tsub'):
        for i in range(len(spec[1])):
            yield [kind, spec[1][:i] + spec[1][i + 1:]]
            yield spec[1][i]
    elif kind in ('dict', 'odict', 'dsub'):
        for i in range(len(spec[1])):
            yield [kind, spec[1][:i] + spec[1][i + 1:]]
            yield spec[1][i][1]
    elif kind in ('what', 'W', 'duck', 'fn', 'partial', 'wfn'):
        for i in range(len(spec[2])):
            yield [kind, spec[1], spec[2][:i] + spec[2][i + 1:]] + spec[3:]
            for smaller in shrink_value(spec[2][i][1]):
                yield [kind, spec[1], spec[2][:i] + [[spec[2][i][0], smaller]] + spec[2][i + 1:]] + spec[3:]


def parsed_exact(spec):
    """Canonical form of the value itself, as canon() gives it (no escaping)."""
    return ('str', spec[1]) if spec[0] == 'str' else parsed(spec)
