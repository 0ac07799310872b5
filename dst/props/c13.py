# coding=utf-8
"""C13: ids and parsing do not depend on the optional libraries being importable."""
import importlib
import importlib.machinery
import sys

from .. import gen
from ..core import Violation
from ..runner import Prop
from .common import short

MODES = ('ok', 'absent', 'raise', 'half', 'none', 'once')
KINDS = gen.RICH + ('bound', 'np-free')
HEAVY = ('pandas', 'numpy', 'sklearn', 'scipy')


class Blocker(object):
    """Makes libraries fail to import."""

    def __init__(self, modes, saved):
        self.modes = dict(modes)
        self.saved = saved          # the real modules
        self.attempts = {}

    def find_spec(self, name, path=None, target=None):
        top = name.partition('.')[0]
        mode = self.modes.get(top, 'ok')
        if mode == 'ok':
            return None
        if name == top:
            self.attempts[top] = self.attempts.get(top, 0) + 1
        if mode == 'once' and self.attempts.get(top, 0) > 1:
            # it works now
            self.modes[top] = 'ok'
            sys.modules.update({n: m for n, m in self.saved.items() if n.partition('.')[0] == top})
            return importlib.machinery.ModuleSpec(name, self)
        if mode == 'absent' or name not in (top, top + '.core'):
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        return importlib.machinery.ModuleSpec(name, self, is_package=name == top)

    def find_module(self, name, path=None):
        return None

    def create_module(self, spec):
        if self.modes.get(spec.name) == 'ok':
            return self.saved[spec.name]
        return None

    def exec_module(self, module):
        top = module.__name__.partition('.')[0]
        mode = self.modes[top]
        if mode == 'ok':
            return
        if module.__name__ != top:
            module.leftover = True
            return
        module.ndarray = None
        if mode == 'half':
            importlib.import_module(top + '.core')     # stays in sys.modules
        raise ImportError('%s is broken: cannot open shared object file' % top)


class C13(Prop):
    ID = 'C13'
    GROUP = 1
    RUNS = {'quick': 2500, 'thorough': 50000}
    RULE = 'Each run imports whatami anew with numpy and pandas each importable, absent, failing, failing half way ' \
           '(leaving submodules behind), disabled in sys.modules or failing only the first time, and then makes a ' \
           'history of 3-12 descriptions, parses, registrations, records and uses of what needs the libraries.'
    REAL = ('whatami', 'import system')
    STUB = ('failing imports of numpy and pandas (meta path finder)',)
    NEED_PROBES = ('numpy-missing', 'pandas-missing', 'both-missing', 'id', 'parsed', 'recorder', 'needs-pandas',
                   'needs-numpy', 'transient', 'half', 'dataframe', 'hasher')
    MAIN = 'whatami'

    def prepare(self):
        import whatami.whatutils      # noqa
        import numpy, pandas          # noqa
        # all that the library needs lazily
        import pandas.core.frame      # noqa
        pandas.DataFrame.from_dict({'a': {'b': 1}}, orient='index').loc[['a']]

    def make_plan(self, rng, index, tier):
        numpy = rng.choice(MODES)
        pandas = rng.choice(MODES)
        if numpy not in ('ok', 'once') and pandas in ('ok', 'once'):
            pandas = 'raise'      # it cannot be imported without numpy
        ops = []
        for i in range(rng.randrange(3, 13)):
            o = {'id': i}
            r = rng.random()
            if r < .45:
                o.update(do='id', spec=gen.value(rng, 3, nasty=rng.random() < .3), seed=rng.randrange(1 << 30))
            elif r < .7:
                o.update(do='parse', spec=gen.what(rng, 3, kinds=gen.PLAIN + ('what', 'W', 'type', 'cls')))
            elif r < .78:
                o.update(do='record', key='k%d' % rng.randrange(3), spec=gen.scalar(rng))
            elif r < .86:
                o.update(do='df')
            elif r < .92:
                o.update(do='need', lib=rng.choice(('np', 'pd')), attr=rng.choice(('array', 'DataFrame', 'Series')))
            elif r < .96:
                o.update(do='has')
            else:
                o.update(do='register', spec=gen.what(rng, 2), nick='n%d' % rng.randrange(3))
            ops.append(o)
        return {'ops': ops, 'numpy': numpy, 'pandas': pandas}

    def execute(self, plan, make_sim):
        sim = make_sim()
        th = sim.enter()
        modes = {'numpy': plan['numpy'], 'pandas': plan['pandas']}
        saved = {n: m for n, m in sys.modules.items() if n.partition('.')[0] in ('numpy', 'pandas', 'whatami')}
        for n in saved:
            if n.startswith('whatami') or modes[n.partition('.')[0]] != 'ok':
                del sys.modules[n]
        for lib, mode in modes.items():
            if mode == 'none':
                sys.modules[lib] = None
        blocker = Blocker(modes, saved)
        sys.meta_path.insert(0, blocker)
        try:
            out, _, _, _ = sim.op(th, 'import', lambda: importlib.import_module('whatami'), trace=False,
                                  canon=lambda m: 'whatami')
            if out[0] == 'exc':
                raise Violation('import', 'whatami cannot be imported with numpy %s and pandas %s: %r' % (
                    plan['numpy'], plan['pandas'], out[1]))
            # whatami asks for numpy first, so a library that fails once is missing for it
            has = {'np': plan['numpy'] == 'ok', 'pd': plan['pandas'] == 'ok'}
            for lib in ('np', 'pd'):
                if not has[lib]:
                    sim.probe({'np': 'numpy', 'pd': 'pandas'}[lib] + '-missing')
                    sim.probe('nontrivial')
                    sim.count('import-%s' % modes[{'np': 'numpy', 'pd': 'pandas'}[lib]])
            if not any(has.values()):
                sim.probe('both-missing')
            if 'once' in modes.values():
                sim.probe('transient')
            if 'half' in modes.values():
                sim.probe('half')
            self.history(plan, sim, th, has)
        finally:
            sys.meta_path.remove(blocker)
            for n in [n for n in sys.modules if n.partition('.')[0] in ('numpy', 'pandas', 'whatami')]:
                del sys.modules[n]
            sys.modules.update(saved)
            sim.leave()

    def history(self, plan, sim, th, has):
        import whatami
        from whatami import What, what2id
        from whatami.registry import Recorder, WhatamiRegistry
        recorder, registry = Recorder(), WhatamiRegistry()
        records, nicks = [], {}
        state = 'with numpy %s and pandas %s' % (plan['numpy'], plan['pandas'])

        def call(op, fn):
            out, _, _, _ = sim.op(th, op['id'], fn, trace=False, canon=lambda v: v if isinstance(v, str) else None)
            return out

        def ok(op, out):
            if out[0] == 'exc':
                raise Violation('error', '%s: %s raised %s: %s' % (
                    state, short(op), type(out[1]).__name__, out[1]))
            return out[1]

        for op in plan['ops']:
            do = op['do']
            if do == 'id':
                import random
                rng = random.Random(op['seed'])
                v = gen.build(op['spec'], order=lambda items: rng.sample(list(items), len(items)))
                got = ok(op, call(op, lambda: What('w', {'v': v}).id()))
                if got != 'w(v=%s)' % gen.ref(op['spec']):
                    raise Violation('id', '%s: the id of %s is %r, must be %r' % (
                        state, short(op['spec']), got, 'w(v=%s)' % gen.ref(op['spec'])))
                sim.probe('id')
            elif do == 'parse':
                if not gen.parseable(op['spec']):
                    continue
                got = ok(op, call(op, lambda: whatami.parse_whatid(gen.ref(op['spec']))))
                if gen.canon(got) != gen.parsed(op['spec']):
                    raise Violation('parse', '%s: parsing %r gives %r' % (state, gen.ref(op['spec']), got))
                sim.probe('parsed')
            elif do == 'record':
                v = gen.build(op['spec'])
                out = call(op, lambda: recorder.add(op['key'], value=v))
                if op['key'] in records:
                    if out[0] == 'ok':
                        raise Violation('recorder', '%s: %s was added twice' % (state, op['key']))
                else:
                    ok(op, out)
                    records.append(op['key'])
                if len(recorder) != len(records):
                    raise Violation('recorder', '%s: there are %d records instead of %d' % (
                        state, len(recorder), len(records)))
                sim.probe('recorder')
            elif do == 'df':
                out = call(op, recorder.to_df)
                if not records:
                    if not has['pd'] and not (out[0] == 'exc' and isinstance(out[1], ImportError)):
                        raise Violation('eager', '%s: to_df did not raise ImportError' % state)
                    continue
                if has['pd']:
                    if list(ok(op, out).index) != records:
                        raise Violation('recorder', '%s: wrong dataframe' % state)
                    sim.probe('dataframe')
                elif out[0] == 'ok' or not isinstance(out[1], ImportError):
                    raise Violation('needs', '%s: to_df must raise ImportError, but %r' % (state, out[1]))
                else:
                    sim.probe('needs-pandas')
            elif do == 'need':
                import whatami.plugins as plugins
                out = call(op, lambda: getattr(getattr(plugins, op['lib']), op['attr']))
                if not has[op['lib']]:
                    if out[0] == 'ok' or not isinstance(out[1], ImportError):
                        raise Violation('needs', '%s: using %s.%s must raise ImportError, but %r' % (
                            state, op['lib'], op['attr'], out[1]))
                    sim.probe('needs-numpy')
            elif do == 'has':
                import whatami.plugins as plugins
                if bool(ok(op, call(op, plugins.has_numpy))) != has['np']:
                    raise Violation('has', '%s: has_numpy is %s' % (state, not has['np']))
                if bool(ok(op, call(op, plugins.has_pandas))) != has['pd']:
                    raise Violation('has', '%s: has_pandas is %s' % (state, not has['pd']))
                # hashing does not need numpy
                ok(op, call(op, lambda: plugins.hasher([1, 'a'])) if plan['numpy'] not in ('none',) else ('ok', ''))
                sim.probe('hasher')
            elif do == 'register':
                w = gen.build(op['spec'])
                wid = gen.ref(op['spec'])
                out = call(op, lambda: registry.register(w, op['nick']))
                good = nicks.get(op['nick'], wid) == wid and all(
                    i != wid or n == op['nick'] for n, i in nicks.items())
                if good:
                    ok(op, out)
                    nicks[op['nick']] = wid
                elif out[0] == 'ok':
                    raise Violation('registry', '%s: %s was registered' % (state, short(op)))
                if registry.nick2id(op['nick']) != nicks.get(op['nick']):
                    raise Violation('registry', '%s: %s is wrongly registered' % (state, op['nick']))


PROP = C13()
