# coding=utf-8
"""A world of mutable, possibly shared, real objects with a model that knows the current state of each of them."""
import collections

from .. import gen
from ..core import Violation


class Node(object):
    """The model of one real object: what it is made of now."""

    def __init__(self, kind, real, items=None, attrs=None, name=None, nid=(), out=None, spec=None):
        self.kind = kind
        self.real = real
        self.items = items      # lists, tuples, sets: nodes; dicts: [[scalar spec, node]...]
        self.attrs = attrs      # {key: node}
        self.name = name
        self.nid = set(nid)
        self.out = out
        self.spec = spec

    def children(self):
        if self.kind == 'dict':
            return [v for _, v in self.items]
        if self.items is not None:
            return list(self.items)
        return list(self.attrs.values()) if self.attrs is not None else []

    def reachable(self, seen=None):
        seen = {} if seen is None else seen
        if id(self) not in seen:
            seen[id(self)] = self
            for c in self.children():
                c.reachable(seen)
        return seen

    def to_spec(self):
        k = self.kind
        if k == 'leaf':
            return self.spec
        if k in ('list', 'tuple'):
            return [k, [c.to_spec() for c in self.items]]
        if k == 'dict':
            return ['dict', [[key, c.to_spec()] for key, c in self.items]]
        if k in ('N', 'NS'):
            return ['plainobj', self.name]      # only described by its attributes on its own
        nid = sorted(self.nid)
        return ['what', self.name, [[key, c.to_spec()] for key, c in self.shown().items()], self.out, nid]

    def shown(self):
        """The attributes that are not private to the object."""
        return collections.OrderedDict((k, n) for k, n in self.attrs.items() if self.kind not in TRIMMED or
                                       not (k.startswith('_') or k.endswith('_')))

    def id(self):
        spec = self.to_spec()
        if self.kind in ('N', 'NS'):
            spec = ['what', self.name, [[key, c.to_spec()] for key, c in self.shown().items()], None, []]
        return gen.ref(spec) if spec[0] == 'what' else 'w(v=%s)' % gen.ref(spec)

    def flat(self, nonids_too, collections_too, recursive):
        keys, values = [], []

        def rec(node, prefix):
            if node.kind == 'what':
                kvs = sorted((k, v) for k, v in node.attrs.items() if nonids_too or k not in node.nid)
            elif node.kind in ('list', 'tuple') and collections_too:
                kvs = list(enumerate(node.items))
            elif node.kind == 'dict' and collections_too:
                kvs = sorted(((gen.build(k), v) for k, v in node.items), key=lambda kv: kv[0])
            else:
                kvs = []
            for k, v in kvs:
                keys.append(prefix + (k,) if prefix else k)
                values.append(v)
                if recursive:
                    rec(v, prefix + (k,))
        rec(self, ())
        return keys, values

    def check(self):
        """The real object must be exactly what the model says."""
        for n in self.reachable().values():
            n._check()

    def _check(self):
        real = self.real
        if self.kind in ('list', 'tuple'):
            ok = len(real) == len(self.items) and all(r is n.real for r, n in zip(real, self.items))
        elif self.kind == 'dict':
            ok = list(real.items()) == [(gen.build(k), v.real) for k, v in self.items] if not self.items else (
                [gen.canon(k) for k in real] == [gen.parsed_exact(k) for k, _ in self.items] and
                all(r is n.real for r, (_, n) in zip(real.values(), self.items)))
        elif self.kind == 'leaf':
            ok = True
        elif self.kind == 'what':
            ok = (real.name == self.name and real.out_name == self.out and real.non_id_keys == self.nid and
                  self._same(real.conf))
        elif self.kind in ('W', 'sub', 'FL', 'N'):
            ok = self._same(real.__dict__)
        elif self.kind == 'I':
            d = dict(real.__dict__)
            ok = callable(d.pop('what', None)) and self._same(d)
        elif self.kind == 'duck':
            ok = list(real.__dict__) == ['conf'] and self._same(real.conf)
        elif self.kind in ('S', 'NS'):
            ok = not hasattr(real, '__dict__') and all(getattr(real, k) is n.real for k, n in self.attrs.items())
        elif self.kind == 'P':
            ok = self._same({k[1:]: v for k, v in real.__dict__.items()})
        elif self.kind in ('fn', 'wfn'):
            ok = True
        else:
            raise ValueError(self.kind)
        if not ok:
            raise Violation('changed', 'an object of kind %s is not as the user left it: %r' % (
                self.kind, getattr(real, '__dict__', real) if self.kind != 'what' else repr(real)))

    def _same(self, d):
        return set(d) == set(self.attrs) and all(d[k] is n.real for k, n in self.attrs.items())

    # --- what the user does

    def setattr(self, key, node):
        """Sets an attribute; node None deletes it."""
        real = self.real
        d = real.conf if self.kind in ('what', 'duck') else None
        if node is None:
            if d is not None:
                del d[key]
            else:
                delattr(real, '_' + key if self.kind == 'P' else key)
            del self.attrs[key]
        else:
            if d is not None:
                d[key] = node.real
            else:
                setattr(real, '_' + key if self.kind == 'P' else key, node.real)
            self.attrs[key] = node


PRIVATE = '_p', 'p_', '_q_'
TRIMMED = ('W', 'sub', 'I', 'FL', 'N')
OPEN = ('W', 'I', 'sub', 'FL', 'duck', 'what', 'N')      # attributes can come and go
RAW = ('fn', 'N', 'NS')     # these have no what()


def _ambiguous(self, other):
    raise ValueError('ambiguous')


# how the objects of some classes are compared, and what they are worth
COMPARE = {'Model': {'__eq__': lambda self, other: type(self) is type(other), '__hash__': lambda self: 7,
                     '__bool__': lambda self: False},
           'A': {'__eq__': lambda self, other: True, '__hash__': lambda self: 7},
           'B': {'__eq__': _ambiguous, '__hash__': None, '__bool__': lambda self: _ambiguous(self, None)}}


class World(object):
    """Builds the objects; classes are shared by name along the run."""

    def __init__(self):
        self.classes = {}

    def klass(self, kind, name, nid=()):
        from whatami import whatable
        from whatami.whatutils import FunctionLike
        key = (kind, name, tuple(sorted(nid)))
        if key in self.classes:
            return self.classes[key]
        ns = dict(COMPARE.get(name, {}))
        if kind in ('S', 'NS'):
            ns['__slots__'] = ('a', 'b', 'c') + (('__weakref__',) if name in ('A', 'f') else ())
        if kind == 'W':
            cls = whatable(type(str(name), (object,), ns), non_id_keys=tuple(nid) or None)
        elif kind == 'sub':
            cls = type(str(name), (self.klass('W', 'Base'),), ns)
        elif kind == 'S':
            cls = whatable(type(str(name), (object,), ns))
        elif kind == 'P':
            def prop(k):
                return property(lambda self: getattr(self, '_' + k))
            cls = whatable(type(str(name), (object,), {k: prop(k) for k in ('a', 'b', 'c')}))
        elif kind == 'FL':
            cls = type(str(name), (FunctionLike,), {'__call__': lambda self, x: x})
        elif kind in ('I', 'N', 'NS'):
            cls = type(str(name), (object,), ns)
        elif kind == 'duck':
            from whatami import What

            def dwhat(self):
                return What(name, dict(self.conf))
            cls = type('Duck' + str(name), (object,), {'what': dwhat})
        self.classes[key] = cls
        return cls

    def build(self, spec):
        """specs: those of gen, plus ['obj', kind, name, [[k, spec]...], nid, out]"""
        k = spec[0]
        if k == 'list':
            items = [self.build(s) for s in spec[1]]
            return Node('list', [i.real for i in items], items)
        if k == 'tuple':
            items = [self.build(s) for s in spec[1]]
            return Node('tuple', tuple([i.real for i in items]), items)
        if k == 'dict':
            items = [[key, self.build(s)] for key, s in spec[1]]
            return Node('dict', {gen.build(key): n.real for key, n in items}, items)
        if k == 'obj':
            return self.build_object(*spec[1:])
        return Node('leaf', gen.build(spec), spec=spec)

    def build_object(self, kind, name, attrs, nid, out):
        from whatami import What, whatable
        attrs = collections.OrderedDict((k, self.build(s)) for k, s in attrs)
        real = {k: n.real for k, n in attrs.items()}
        if kind == 'what':
            return Node(kind, What(name, real, non_id_keys=list(nid) or None, out_name=out), None, attrs, name, nid, out)
        if kind in ('fn', 'wfn'):
            f = gen.make_function(name, list(real.items()))
            return Node(kind, whatable(f) if kind == 'wfn' else f, None, attrs, name)
        obj = self.klass(kind, name, nid if kind == 'W' else ())()
        if kind == 'duck':
            obj.conf = real
        else:
            for k, v in real.items():
                setattr(obj, '_' + k if kind == 'P' else k, v)
        if kind == 'I':
            whatable(obj)
        return Node(kind, obj, None, attrs, name, nid if kind == 'W' else ())


def object_spec(rng, depth, kinds=None):
    kind = rng.choice(kinds or ('what', 'what', 'W', 'W', 'sub', 'I', 'duck', 'S', 'P', 'FL', 'fn', 'wfn', 'N', 'NS'))
    if kind in ('S', 'P', 'NS'):
        keys = ['a', 'b', 'c']
    else:
        keys = rng.sample(gen.KEYS[:8], rng.choice((0, 1, 1, 2, 3)))
        if kind not in ('fn', 'wfn') and rng.random() < .25:
            keys.append(rng.choice(PRIVATE))
    attrs = [[k, mixed_value(rng, depth - 1)] for k in keys]
    # classes with the same name share their non id keys, so a few fixed choices
    nid = [k for k in ('a', 'x') if kind in ('what', 'W') and rng.random() < .25]
    out = rng.choice(gen.KEYS) if kind == 'what' and rng.random() < .15 else None
    return ['obj', kind, rng.choice(gen.NAMES[:5]), attrs, nid, out]


def mixed_value(rng, depth):
    r = rng.random()
    if depth > 0 and r < .3:
        return object_spec(rng, depth)
    if depth > 0 and r < .5:
        return [rng.choice(('list', 'tuple')), [mixed_value(rng, depth - 1) for _ in range(rng.randrange(4))]]
    if depth > 0 and r < .65:
        return ['dict', [[['str', k], mixed_value(rng, depth - 1)] for k in rng.sample('pqrs', rng.randrange(4))]]
    return gen.scalar(rng) if r < .95 else ['set', gen._distinct([gen.scalar(rng) for _ in range(2)])]
