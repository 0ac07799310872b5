# coding=utf-8
"""C22: old style ids are migrated to the id of the same configuration."""
import os

from .. import gen
from ..core import Violation, rng_for
from ..runner import Prop
from .common import module_files, maybe_fault, run_concurrently, sched, short
from . import ids
from .c07 import spoil, undelimited

OUTS = ('res', '', 'a b', "it's", 'f(x=1)', 'x=y', '"q"', '1', 'None')


def value(rng, depth):
    r = rng.random()
    if depth and r < .25:
        return what(rng, depth - 1)
    if depth and r < .5:
        kind = rng.choice(('list', 'tuple', 'list', 'tuple', 'dict', 'set'))
        if kind == 'dict':
            return ['dict', [[k, value(rng, depth - 1)] for k in
                             gen._distinct([gen.scalar(rng) for _ in range(rng.randrange(3))])]]
        if kind == 'set':
            return ['set', gen._distinct([gen.scalar(rng) for _ in range(rng.randrange(3))])]
        return [kind, [value(rng, depth - 1) for _ in range(rng.randrange(4))]]
    return gen.scalar(rng, rng.random() < .4)


def what(rng, depth):
    keys = rng.sample(gen.KEYS, rng.choice((0, 1, 1, 2, 3)))
    return ['what', rng.choice(gen.NAMES), [[k, value(rng, depth)] for k in keys], None, []]


def old(spec, rng, nested=False, last=True):
    """The old style id, with blanks here and there and with nested ids quoted unless there is no need."""
    kind = spec[0]
    blank = rng.choice(('', '', ' '))
    if kind == 'what':
        body = spec[1] + '#' + '#'.join('%s=%s' % (k, old(v, rng, True, last and i == len(spec[2]) - 1))
                                        for i, (k, v) in enumerate(spec[2]))
        if nested and (rng.random() < .8 or not (last and spec[2])):
            return '"%s"' % body
        return body
    if kind == 'dict':
        return '{' + (',' + blank).join(old(k, rng, True, False) + ':' + blank + old(v, rng, True, False)
                                        for k, v in spec[1]) + '}'
    if kind == 'set':
        return '{' + (',' + blank).join(old(v, rng, True, False) for v in spec[1]) + '}' if spec[1] else 'set()'
    if kind in ('list', 'tuple'):
        body = (',' + blank).join(old(v, rng, True, False) for v in spec[1])
        return '[' + body + ']' if kind == 'list' else '(' + body + ')'
    return gen.ref(spec)


def other(op):
    """Something that is not an old style id."""
    spec, rng = op['what'], rng_for(op['seed'])
    how = op['how']
    if how == 'new':
        return gen.ref(spec)
    if how == 'name':
        return spec[1]
    text = old(spec, rng)
    return {'hash': text + '#' if spec[2] else text + '#1', 'comma': text + ',b=2', 'junk': text + ')', 'digit': '1' + text,
            'noval': text + '#zz=' if spec[2] else text + 'zz=', 'bracket': spec[1] + '#zz=[1', 'empty': '', 'out': 'out=x',
            'nokey': spec[1] + '#1', 'outs': 'out=x#out=y#' + text}[how]


OTHERS = ('new', 'new', 'name', 'hash', 'comma', 'junk', 'digit', 'noval', 'bracket', 'empty', 'out', 'nokey', 'outs')


class C22(Prop):
    ID = 'C22'
    RUNS = {'quick': 1600, 'thorough': 40000}
    RULE = 'Half of the runs are histories of 3-14 operations in one thread; the others, 2-3 threads with 1-4 ' \
           'operations each, preempted at lines of whatami and of the parser generator: migrating and parsing ' \
           'generated old style ids (any values, nested configurations quoted or not, output names) and things that ' \
           'are not, parsing new style ids in between, spoiling results; interrupts at any line; at times, starting ' \
           'without the parser of old ids.'
    REAL = ('whatami.whatutils', 'whatami.parsers', 'whatami.what', 'whatami.plugins', 'arpeggio')
    STUB = ('thread scheduler and locks', 'interrupts')
    ASSUMPTIONS = ('tuples of one element are not written with a final comma',)
    NEED_PROBES = ('migrated', 'parsed', 'unchanged', 'out', 'ambiguous', 'spoiled', 'interrupted', 'concurrent',
                   'repeated', 'fresh', 'empty-dict')

    def prepare(self):
        import whatami
        import arpeggio
        from whatami import whatutils
        from whatami.whatutils import oldid2what
        # the parser can be built again only if it is built when it is first needed
        self.lazy = getattr(whatutils, 'OLD_WHATID_PARSER', self) is None
        self.arpeggio = os.path.dirname(arpeggio.__file__) + os.sep
        for _ in range(2):
            whatami.id2what('f(x=1)')
            oldid2what('f#x=1')

    def make_plan(self, rng, index, tier):
        threads, faults = [], []
        alone = rng.random() < .5
        pfault = rng.choice((0, .15, .4))
        n = 0
        pool = [what(rng, rng.choice((0, 1, 1, 2))) for _ in range(3)]
        seeds = [rng.randrange(1 << 30) for _ in range(3)]
        for _ in range(1 if alone else rng.choice((2, 2, 3))):
            ops = []
            for _ in range(rng.randrange(3, 15) if alone else rng.randrange(1, 5)):
                op = {'id': n, 'seed': rng.choice(seeds) if rng.random() < .6 else rng.randrange(1 << 30),
                      'what': rng.choice(pool) if rng.random() < .6 else what(rng, rng.choice((0, 1, 1, 2)))}
                n += 1
                r = rng.random()
                if undelimited(op['what']):
                    op['what'] = what(rng, 0)
                    op['what'][2] = []
                if r < .7:
                    op.update(do=rng.choice(('migrate', 'migrate', 'old')), out=rng.choice(OUTS) if rng.random() < .4 else None,
                              spoil=rng.random() < .4)
                elif r < .85:
                    op.update(do='other', how=rng.choice(OTHERS))
                else:
                    op.update(do='new')
                maybe_fault(rng, faults, op['id'], pfault, rng.choice((100, 1500)))
                ops.append(op)
            threads.append(ops)
        return {'threads': threads, 'faults': faults, 'alone': alone, 'fresh': rng.random() < .2,
                'deep': rng.random() < .6,
                'sched': {'kind': 'none'} if alone else sched(rng, rng.choice((100, 1000, 4000)))}

    def execute(self, plan, make_sim):
        import whatami
        from whatami import whatutils
        from whatami.whatutils import oldid2what, id2whatami4
        sim = make_sim(faults=plan['faults'], sched=plan['sched'],
                       files=module_files() + ((self.arpeggio,) if plan['deep'] else ()))
        if plan['fresh'] and self.lazy:
            whatutils.OLD_WHATID_PARSER = None
            sim.probe('fresh')
        seen, texts = set(), {}

        def perform(th, op):
            do, spec = op['do'], op['what']
            if do == 'other':
                text = other(op)
                return lambda: id2whatami4(text)
            if do == 'new':
                text = gen.ref(spec)
                return lambda: whatami.id2what(text)
            text = old(spec, rng_for(op['seed']))
            if op['out'] is not None:
                text = 'out=%s#%s' % (op['out'], text)
            texts[op['id']] = text
            return (lambda: id2whatami4(text)) if do == 'migrate' else (lambda: oldid2what(text))

        def after(op, out, fired):
            do, spec = op['do'], op['what']
            if fired and out[0] == 'exc':
                sim.probe('interrupted')
                return
            if do == 'other':
                sim.probe('unchanged')
                text = other(op)
                if out != ('ok', text):
                    raise Violation('changed', '%r is not an old style id, but migrating it gave %s' % (text, short(out[1])))
                return
            if do == 'new':
                ids.must_be(out, gen.parsed(spec), gen.ref(spec), do)
                return
            text = texts[op['id']]
            if "{}" in text:
                sim.probe('empty-dict')
            if text in seen:
                sim.probe('repeated')
            seen.add(text)
            kvs = spec[2]
            if op['out'] is not None:
                sim.probe('out')
                if 'out' in [k for k, _ in kvs]:
                    sim.probe('ambiguous')
                    if out[0] == 'ok' or not isinstance(out[1], ValueError):
                        raise Violation('ambiguous', 'the output of %r is ambiguous, but %s gave %s' % (
                            text, do, short(out[1])))
                    return
                kvs = kvs + [['out', ['str', op['out']]]]
            want = spec[:2] + [kvs] + spec[3:]
            if do == 'migrate':
                sim.probe('migrated')
                if out[0] == 'exc' or out[1] != gen.ref(want):
                    raise Violation('wrong', 'migrating %r gave %s, must give %s' % (
                        text, short(out[1], 600), short(gen.ref(want), 600)))
            else:
                sim.probe('parsed')
                ids.must_be(out, gen.parsed(want), text, do)
                if op['spoil']:
                    sim.probe('spoiled')
                    spoil(out[1], rng_for(op['id']))

        run_concurrently(sim, plan['threads'], perform, canon=lambda v: None, after=after)
        if len(plan['threads']) > 1:
            sim.probe('concurrent')
        sim.probe('nontrivial')


PROP = C22()
