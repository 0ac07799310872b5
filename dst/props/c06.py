# coding=utf-8
"""C06: parsing from several threads at once gives each caller its own result."""
import os

from .. import gen
from ..core import Violation
from ..runner import Prop
from .common import module_files, maybe_fault, sched, run_concurrently, short
from . import ids


def candidates(text):
    return ['s(k=%d,z=%s)' % (k, text) for k in range(3)] + [
        't(k=0,z=%s)' % text, 's(k=1,z=NotThere())', 's(k=0,z=NotThere())', 's(k=2,z=NotThere())', 's(k=0)']


class C06(Prop):
    ID = 'C06'
    RUNS = {'quick': 1600, 'thorough': 40000}
    RULE = 'Two to four threads, each with 1-4 calls that parse generated ids (also old style and invalid ones) ' \
           'through any of the parsing functions, preempted at lines of whatami and of the parser generator.'
    REAL = ('whatami.parsers', 'whatami.whatutils', 'whatami.what', 'arpeggio')
    STUB = ('thread scheduler and locks', 'interrupts')
    ASSUMPTIONS = ('if an interrupt falls between taking a lock and entering the block that releases it, the '
                   'simulator releases the lock',)
    NEED_PROBES = ('KeyboardInterrupt', 'rejected', 'parsed')

    def prepare(self):
        import whatami
        import arpeggio
        from whatami.whatutils import oldid2what
        self.arpeggio = os.path.dirname(arpeggio.__file__) + os.sep
        for _ in range(2):
            whatami.id2what('f(x=1)')
            oldid2what('f#x=1')

    def make_plan(self, rng, index, tier):
        threads, faults = [], []
        oid = 0
        pfault = rng.choice((0, 0, .15))
        # some runs only do one thing, with a few ids that the threads have in common
        shared = [gen.what(rng, rng.choice((0, 1, 1, 2))) for _ in range(2)] if rng.random() < .35 else None
        focus = rng.choice((.25, .55, .7, .85, .95)) if rng.random() < .35 else None
        for _ in range(rng.choice((2, 2, 3, 4))):
            ops = []
            for _ in range(rng.choice((1, 1, 2, 3))):
                op = {'id': oid}
                oid += 1
                r = rng.random() if focus is None else focus
                spec = gen.what(rng, rng.choice((0, 1, 1, 2))) if shared is None else rng.choice(shared)
                if r < .5:
                    op.update(do=rng.choice(('parse', 'parse', 'id2dict', 'to_dict', 'own_parser')), what=spec)
                elif r < .6:
                    op.update(do='invalid', broken=ids.broken(rng, spec))
                elif r < .8:
                    op.update(do=rng.choice(('old', 'old_out', 'migrate')), what=ids.old_what(rng))
                elif r < .9:
                    op.update(do='sort', values=rng.sample(range(10), rng.randrange(1, 4)), what=spec)
                else:
                    op.update(do='match', what=spec, value=rng.randrange(3), ignore=rng.choice(([], [], ['k'], ['z'])))
                maybe_fault(rng, faults, op['id'], pfault, 800)
                ops.append(op)
            threads.append(ops)
        return {'threads': threads, 'faults': faults, 'sched': sched(rng, rng.choice((100, 1000, 5000))),
                'deep': rng.random() < .7, 'fresh_old': rng.random() < .3}

    def execute(self, plan, make_sim):
        import whatami
        from whatami import whatutils
        from whatami.whatutils import oldid2what, id2whatami4, match_whatids, sort_whatids, id2dict
        from whatami.parsers import build_whatami_parser
        sim = make_sim(faults=plan['faults'], sched=plan['sched'],
                       files=module_files() + ((self.arpeggio,) if plan['deep'] else ()))
        own = {}

        def own_parse(text):
            if not own:
                own['parser'] = build_whatami_parser()
            return whatami.parse_whatid(text, parser=own['parser'])

        def perform(th, op):
            do = op['do']
            if do == 'invalid':
                text = ids.broken_id(op['broken'])
                return lambda: whatami.id2what(text)
            spec = op['what']
            text = gen.ref(spec)
            old = ids.old_ref(spec) if do in ('old', 'old_out', 'migrate') else None
            return {
                'parse': lambda: whatami.parse_whatid(text),
                'own_parser': lambda: own_parse(text),
                'id2dict': lambda: id2dict(text),
                'to_dict': lambda: gen.build(spec).to_dict(),
                'old': lambda: oldid2what(old),
                'old_out': lambda: oldid2what('out=res#' + old),
                'migrate': lambda: id2whatami4(old),
                'sort': lambda: sort_whatids(['s(k=%d,z=%s)' % (v, text) for v in op['values']], 'k'),
                'match': lambda: match_whatids(candidates(text), 's(k=%d,z=%s)' % (op['value'], text), op['ignore']),
            }[do]

        history = run_concurrently(sim, plan['threads'], perform, canon=lambda v: None)
        for h in history:
            op, out, do = h['op'], h['out'], h['op']['do']
            if h['fired'] and out[0] == 'exc':
                continue
            if do == 'invalid':
                sim.probe('rejected')
                if out[0] == 'ok':
                    raise Violation('accepted', 'parsing the invalid %r gave %s' % (
                        ids.broken_id(op['broken']), short(gen.canon(out[1]), 500)))
                continue
            sim.probe('parsed')
            spec = op['what']
            text = gen.ref(spec)
            if do in ('parse', 'own_parser'):
                ids.must_be(out, gen.parsed(spec), text, do)
            elif do in ('id2dict', 'to_dict'):
                ids.must_be(out, ids.dict_of(spec), text, do)
            elif do == 'old':
                ids.must_be(out, gen.parsed(spec), ids.old_ref(spec), do)
            elif do == 'old_out':
                ids.must_be(out, gen.parsed(spec[:2] + [spec[2] + [['out', ['str', 'res']]]] + spec[3:]),
                            ids.old_ref(spec), do)
            elif do == 'migrate':
                if out[0] == 'exc' or out[1] != text:
                    raise Violation('wrong-parse', 'migrating %r gave %s' % (ids.old_ref(spec), short(out[1])))
            elif do == 'sort':
                want = [('s(k=%d,z=%s)' % (v, text), (v,)) for v in sorted(op['values'])]
                if out[0] == 'exc' or not isinstance(out[1], tuple) or len(out[1]) != 2 or \
                        list(zip(*out[1])) != want:
                    raise Violation('wrong-parse', 'sorting gave %s, must be %s' % (short(out[1]), short(want)))
            elif do == 'match':
                value, ignored = op['value'], op['ignore']
                template = 's(k=%d,z=%s)' % (value, text)
                want = ['s(k=%d,z=%s)' % (k, text) for k in range(3) if k == value or ignored == ['k']] + \
                    (['s(k=%d,z=NotThere())' % value] if not spec[2] and ignored == ['z'] else [])
                if out[0] == 'exc':
                    raise Violation('wrong-parse', 'matching %r raised %s' % (template, short(out[1])))
                if out[1] != want:
                    raise Violation('wrong-parse', 'matching %r gave %s, must be %s' % (
                        template, short(out[1], 900), short(want, 900)))
        # nothing is left behind
        for op in [op for ops in plan['threads'] for op in ops if op['do'] == 'parse'][:2]:
            text = gen.ref(op['what'])
            try:
                out = ('ok', whatami.parse_whatid(text))
            except Exception as e:
                out = ('exc', e)
            ids.must_be(out, gen.parsed(op['what']), text, 'afterwards')


PROP = C06()
