# coding=utf-8
"""C07: parsing an id depends on nothing but the id."""
import os

from .. import gen
from ..core import Violation, EXCS
from ..runner import Prop
from .common import module_files, maybe_fault, short, USER_ERRORS
from . import ids

# classes that cannot be imported: there is no such module, or no such class in it
ABSENT = ('os.nosuchthing.Klass', 'nosuchmodule.Klass', 'collections.NoKlass', 'NoKlass', 'nosuchmodule.sub.sub2.K')
NOT_STRINGS = (None, 3, 2.5, True, ['f(x=1)'], {'f': 1}, b'f(x=1)')


def keeps_id(spec):
    """Frozen sets are parsed as sets."""
    if spec[0] == 'fset':
        return False
    if spec[0] in ('list', 'tuple', 'lsub', 'tsub', 'set'):
        return all(map(keeps_id, spec[1]))
    if spec[0] in ('dict', 'odict', 'dsub'):
        return all(keeps_id(k) and keeps_id(v) for k, v in spec[1])
    if spec[0] in ('what', 'W', 'duck', 'fn', 'partial', 'wfn'):
        return all(keeps_id(v) for _, v in spec[2])
    return True


def undelimited(spec):
    """Does it have strings finishing with an odd number of backslashes? Their ids do not tell where they finish."""
    if isinstance(spec, list):
        if spec[:1] == ['str']:
            return (len(spec[1]) - len(spec[1].rstrip('\\'))) % 2 == 1
        return any(map(undelimited, spec))
    return False


def spoil(v, rng, depth=0):
    """Changes everything that can be changed in a result."""
    from whatami import What
    if isinstance(v, What):
        spoil(v.conf, rng, depth + 1)
        v.non_id_keys.add('x')
    elif isinstance(v, dict):
        for x in list(v.values()):
            spoil(x, rng, depth + 1)
        v['spoiled'] = 'spoiled'
        for k in list(v)[:1]:
            del v[k]
    elif isinstance(v, list):
        for x in v:
            spoil(x, rng, depth + 1)
        v.append('spoiled')
    elif isinstance(v, tuple):
        for x in v:
            spoil(x, rng, depth + 1)
    elif isinstance(v, set):
        v.add('spoiled')


class C07(Prop):
    ID = 'C07'
    RUNS = {'quick': 2200, 'thorough': 50000}
    RULE = 'Histories of 4-20 parses of generated ids, repeated ids, broken ids, things that are not strings and very ' \
           'deep ids, with interrupts at any line of whatami or of the parser generator, and with results spoiled in ' \
           'between; each result is compared with the value its id was generated from.'
    REAL = ('whatami.parsers', 'whatami.whatutils', 'whatami.what', 'whatami.plugins', 'arpeggio')
    STUB = ('interrupts',)
    NEED_PROBES = ('KeyboardInterrupt', 'rejected', 'parsed', 'interrupted', 'spoiled', 'not-a-string', 'deep', 'own-visitor', 'visitor-failed',
                   'absent-class')

    def prepare(self):
        import whatami
        import arpeggio
        from whatami.whatutils import oldid2what
        self.arpeggio = os.path.dirname(arpeggio.__file__) + os.sep
        whatami.id2what('f(x=1)')
        oldid2what('f#x=1')

    def make_plan(self, rng, index, tier):
        ops, faults = [], []
        pool = [gen.what(rng, rng.choice((1, 2, 2, 3)), nasty=True) for _ in range(rng.randrange(1, 4))]
        pool = [p for p in pool if gen.parseable(p)] or [gen.what(rng, 1)]
        pfault = rng.choice((0, .3, .6))
        for i in range(rng.randrange(4, 21)):
            op = {'id': i}
            r = rng.random()
            spec = rng.choice(pool)
            if r < .55:
                op.update(do=rng.choice(('parse', 'parse', 'parse', 'id2dict', 'to_dict', 'own_parser')), what=spec,
                          spoil=rng.random() < .4)
                maybe_fault(rng, faults, i, pfault, rng.choice((100, 1500, 6000)))
            elif r < .65:
                op.update(do='invalid', broken=ids.broken(rng, rng.choice((spec, gen.what(rng, 1)))))
                maybe_fault(rng, faults, i, pfault / 2, 1000)
            elif r < .75:
                op.update(do='nonstring', which=rng.randrange(len(NOT_STRINGS)))
            elif r < .85:
                op.update(do=rng.choice(('old', 'migrate')), what=ids.old_what(rng))
                maybe_fault(rng, faults, i, pfault, 1500)
            elif r < .87:
                op.update(do='visit', what=spec, fail=rng.choice((None, None) + USER_ERRORS[:6]))
                maybe_fault(rng, faults, i, pfault / 2, rng.choice((100, 1500, 6000)))
            elif r < .885:
                op.update(do='absent', name=rng.choice(ABSENT))
                maybe_fault(rng, faults, i, pfault / 2, 1500)
            elif r < .9:
                op.update(do='deep', depth=rng.choice((10, 30, 300)))
            else:
                op.update(do='parse', what=gen.what(rng, 2, nasty=True), spoil=False)
                if not gen.parseable(op['what']):
                    op['what'] = spec
            ops.append(op)
        if index % 500 == 7:        # the known finding
            spec = ['what', 'f', [['x', ['str', 'C:\\']], ['y', ['str', 'b']]], None, []]
            ops, faults = [{'id': 0, 'do': 'parse', 'what': spec, 'spoil': False}], []
        return {'ops': ops, 'faults': faults, 'deep': rng.random() < .8}

    def execute(self, plan, make_sim):
        import whatami
        from whatami.whatutils import oldid2what, id2whatami4, id2dict
        from whatami.parsers import build_whatami_parser, WhatamiTreeVisitor
        sim = make_sim(faults=plan['faults'],
                       files=module_files() + ((self.arpeggio,) if plan['deep'] else ()))
        th = sim.enter()
        parsers = {}

        def own(text):
            if not parsers:
                parsers['own'] = build_whatami_parser()
            return whatami.parse_whatid(text, parser=parsers['own'])

        class Visitor(WhatamiTreeVisitor):
            """A visitor of the user, which can fail."""
            def __init__(self, fail):
                super(Visitor, self).__init__()
                self.fail = fail

            def visit_whatami_id_top(self, node, children):
                sim.here('user')
                if self.fail:
                    sim.probe('visitor-failed')
                    raise EXCS[self.fail]('user visitor')
                sim.probe('own-visitor')
                return 'mine', children[0]

        for op in plan['ops']:
            do = op['do']
            if do == 'invalid':
                text = ids.broken_id(op['broken'])
                fn = lambda: whatami.id2what(text)
            elif do == 'nonstring':
                text = NOT_STRINGS[op['which']]
                fn = lambda: whatami.parse_whatid(text)
            elif do == 'deep':
                n = op['depth']
                text = 'f(x=' * n + '1' + ')' * n
                fn = lambda: whatami.parse_whatid(text)
            elif do == 'absent':
                text = "f(x=<class '%s'>,y=1)" % op['name']
                fn = lambda: whatami.parse_whatid(text)
            elif do in ('old', 'migrate'):
                text = ids.old_ref(op['what'])
                fn = {'old': lambda: oldid2what(text), 'migrate': lambda: id2whatami4(text)}[do]
            elif do == 'visit':
                text = gen.ref(op['what'])
                fn = lambda: whatami.parse_whatid(text, visitor=Visitor(op['fail']))
            else:
                text = gen.ref(op['what'])
                fn = {'parse': lambda: whatami.parse_whatid(text), 'own_parser': lambda: own(text),
                      'id2dict': lambda: id2dict(text),
                      'to_dict': lambda: gen.build(op['what']).to_dict()}[do]
            out, _, _, fired = sim.op(th, op['id'], fn, canon=lambda v: None)
            if fired and out[0] == 'exc':
                sim.probe('interrupted')
                continue
            if do == 'invalid':
                sim.probe('rejected')
                if out[0] == 'ok':
                    raise Violation('accepted', 'parsing the invalid %r gave %s' % (
                        text, short(gen.canon(out[1]), 500)))
            elif do == 'nonstring':
                sim.probe('not-a-string')
                if out[0] == 'ok':
                    raise Violation('accepted', 'parsing %r gave %s' % (text, short(gen.canon(out[1]), 500)))
            elif do == 'absent':
                sim.probe('absent-class')
                ids.must_be(out, ('What', 'f', (
                    ('x', ('dict', ((('str', 'class'), ('str', op['name'])),))), ('y', ('int', 1))), None), text, do)
            elif do == 'visit' and undelimited(op['what']):
                pass
            elif do == 'visit':
                if op['fail']:
                    if out[0] == 'ok' or type(out[1]) is not EXCS[op['fail']] or out[1].args != ('user visitor',):
                        raise Violation('visitor', 'parsing %r with a visitor failing with %s gave %s' % (
                            text, op['fail'], short(out[1])))
                elif out[0] == 'exc' or type(out[1]) is not tuple or len(out[1]) != 2 or out[1][0] != 'mine':
                    raise Violation('visitor', 'parsing %r with a visitor of the user gave %s' % (text, short(out[1])))
                else:
                    ids.must_be(('ok', out[1][1]), gen.parsed(op['what']), text, do)
            elif do == 'deep':
                sim.probe('deep')
                if out[0] == 'exc':
                    if not isinstance(out[1], (RecursionError, MemoryError)):
                        raise Violation('rejected', 'parsing an id of depth %d raised %s' % (
                            op['depth'], short(out[1])))
                else:
                    sim.probe('deep-parsed')
                    v, n = out[1], 0
                    while type(v).__name__ == 'What' and v.name == 'f' and list(v.conf) == ['x']:
                        v, n = v.conf['x'], n + 1
                    if v != 1 or n != op['depth']:
                        raise Violation('wrong-parse', 'the id of depth %d was parsed as %d levels and %s' % (
                            op['depth'], n, short(v)))
            elif do == 'migrate':
                if out[0] == 'exc' or out[1] != gen.ref(op['what']):
                    raise Violation('wrong-parse', 'migrating %r gave %s' % (text, short(out[1])))
            else:
                sim.probe('parsed')
                spec = op['what']
                if out[0] == 'exc' and undelimited(spec):
                    raise Violation('wrong-parse', 'parsing %r raised %s' % (text, short(out[1])),
                                    key='final-backslash')
                ids.must_be(out, ids.dict_of(spec) if do in ('id2dict', 'to_dict') else gen.parsed(spec), text, do)
                if do in ('parse', 'own_parser') and keeps_id(spec):
                    again = out[1].id()
                    if again != text:
                        raise Violation('round-trip', 'the result of parsing %r has id %r' % (text, again))
                if op.get('spoil'):
                    sim.probe('spoiled')
                    from ..core import rng_for
                    spoil(out[1], rng_for(op['id']))
        if sim.probes.get('spoiled') or sim.probes.get('rejected'):
            sim.probe('nontrivial')
        sim.leave()


PROP = C07()
