# coding=utf-8
"""Ids to be parsed, valid, old style and invalid, with what parsing them must give (C06, C07)."""
from .. import gen
from ..core import Violation
from .common import short

OLD_KINDS = ('scalar', 'list', 'tuple')


def old_value(rng, depth):
    r = rng.random()
    if depth and r < .2:
        return ['what', rng.choice(gen.NAMES), [[k, old_value(rng, depth - 1)]
                                                for k in rng.sample(gen.KEYS, rng.randrange(1, 3)) if k != 'out'],
                None, []]
    if r < .4:
        return [rng.choice(('list', 'tuple')), [gen.scalar(rng) for _ in range(rng.randrange(1, 3))]]
    return gen.scalar(rng)


def old_what(rng):
    keys = [k for k in rng.sample(gen.KEYS, rng.randrange(1, 4)) if k != 'out']
    return ['what', rng.choice(gen.NAMES), [[k, old_value(rng, 1)] for k in keys], None, []]


def old_ref(spec, nested=False):
    """The old style id."""
    kind = spec[0]
    if kind == 'what':
        body = spec[1] + '#' + '#'.join('%s=%s' % (k, old_ref(v, True)) for k, v in spec[2])
        return '"%s"' % body if nested else body
    if kind == 'list':
        return '[' + ', '.join(old_ref(s, True) for s in spec[1]) + ']'
    if kind == 'tuple':
        return '(' + ', '.join(old_ref(s, True) for s in spec[1]) + ')'
    return gen.ref(spec)


BREAK = ('unclose', 'extra', 'junk', 'prefix', 'comma', 'empty', 'digit', 'noval', 'twice', 'unquoted', 'open',
         'keyless', 'dot', 'minus', 'cut')


def broken(rng, spec):
    return {'how': rng.choice(BREAK), 'what': spec}


def broken_id(b):
    """An invalid id, made from a valid one."""
    i = gen.ref(b['what'])
    how = b['how']
    if how == 'unclose':
        return i[:-1]
    if how == 'extra':
        return i + ')'
    if how == 'junk':
        return i + ' x'
    if how == 'prefix':
        return '(' + i
    if how == 'comma':
        return 'f(x=1,,y=%s)' % i
    if how == 'empty':
        return ''
    if how == 'digit':
        return '1' + i
    if how == 'noval':
        return 'f(x=%s,y=)' % i
    if how == 'twice':
        return i + i
    if how == 'unquoted':
        return "f(x='%s)" % i.replace("'", '')
    if how == 'open':
        return 'f(x=[%s)' % i
    if how == 'keyless':
        return 'f(%s,1)' % i.partition('(')[0]
    if how == 'dot':
        return 'f(x=%s.)' % i
    if how == 'minus':
        return 'f(x=-%s)' % i
    if how == 'cut':
        return i[:max(1, i.index('('))]
    raise ValueError(how)


def must_be(out, want, text, where):
    """The outcome of parsing text must be that value."""
    if out[0] == 'exc':
        raise Violation('rejected', '%s: parsing %r raised %s: %s' % (
            where, text, type(out[1]).__name__, short(str(out[1]))))
    got = gen.canon(out[1])
    if got != want:
        raise Violation('wrong-parse', '%s: parsing %r gave %s, must be %s' % (where, text, short(got, 800),
                                                                              short(want, 800)))


def plain(p):
    """Canonical form of something parsed in which all What are dictionaries."""
    if p[0] == 'What':
        conf = ('dict', tuple(sorted(((('str', k), plain(v)) for k, v in p[2]), key=repr)))
        return ('dict', tuple(sorted(((('str', 'whatami_name'), ('str', p[1])),
                                      (('str', 'whatami_out_name'), ('none',) if p[3] is None else ('str', p[3])),
                                      (('str', 'whatami_conf'), conf)), key=repr)))
    if p[0] in ('list', 'tuple'):
        return (p[0], tuple(map(plain, p[1])))
    if p[0] == 'dict':
        return ('dict', tuple(sorted(((k, plain(v)) for k, v in p[1]), key=repr)))
    return p


def dict_of(spec):
    """Canonical form of the dictionary of a What specification."""
    return plain(gen.parsed(spec))
