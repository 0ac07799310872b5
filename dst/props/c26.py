# coding=utf-8
"""C26: configurations can be changed, copied, compared and looked into as plain values."""
import pickle

from .. import gen
from ..core import EXCS, HarnessError, Violation, rng_for
from ..runner import Prop
from .common import USER_ERRORS, module_files, maybe_fault, run_concurrently, sched, short
from . import ids

KEYS = ('a', 'b', 'c', 'n_jobs', 'out', 'x')
DICTKEYS = (['str', 'k'], ['str', 'j'], ['str', ''], ['int', 0], ['int', 1], ['int', 12], ['none'])
# (what() that raises KeyError cannot be told from an absent key)
ERRORS = [e for e in USER_ERRORS if e not in ('KeyError', 'StopIteration')]
SIM = [None]


class Duck(object):
    """An object of the user that tells its configuration, and fails."""

    def __init__(self, conf):
        self.conf = conf

    def what(self):
        user_code()
        from whatami import What
        return What('duck', dict(self.conf))

    def __deepcopy__(self, memo):
        from copy import deepcopy
        user_code()
        return Duck(deepcopy(self.conf, memo))

    def __eq__(self, other):
        user_code()
        return self is other

    def __ne__(self, other):
        return not self == other

    __hash__ = object.__hash__


def user_code():
    if SIM[0] is not None:
        SIM[0].user_code()


class Thing(object):
    """Decorated when whatami is there."""

    def __init__(self):
        self._private = 3


class Node(object):
    """What is known of a mutable thing, or of a value."""
    __slots__ = ('kind', 'v', 'name', 'out', 'nonids')

    def __init__(self, kind, v, name=None, out=None, nonids=()):
        self.kind, self.v, self.name, self.out, self.nonids = kind, v, name, out, set(nonids)

    def children(self):
        """[(step, node)]"""
        if self.kind in ('what', 'duck', 'thing'):
            return sorted(self.v.items())
        if self.kind in ('list', 'tuple'):
            return list(enumerate(self.v))
        if self.kind == 'dict':
            return list(self.v.items())
        return []

    def state(self):
        if self.kind == 'leaf':
            return gen.parsed_exact(self.v)
        kids = tuple((k, n.state()) for k, n in self.children())
        if self.kind == 'what':
            return 'what', self.name, self.out, tuple(sorted(self.nonids)), kids
        if self.kind == 'dict':
            return 'dict', tuple(sorted(kids, key=repr))
        return self.kind, kids

    def spec(self):
        """As a specification, to know its id."""
        if self.kind == 'leaf':
            return self.v
        if self.kind in ('list', 'tuple'):
            return [self.kind, [n.spec() for n in self.v]]
        if self.kind == 'dict':
            return ['dict', [[plain(k), n.spec()] for k, n in self.v.items()]]
        kvs = [[k, n.spec()] for k, n in self.v.items()]
        if self.kind == 'what':
            return ['what', self.name, kvs, self.out, sorted(self.nonids)]
        return ['duck', {'duck': 'duck', 'thing': 'Thing'}[self.kind], kvs]

    def copy(self, deep):
        if not deep:
            return Node('what', dict(self.v), self.name, self.out, self.nonids)
        memo = {}
        new = Node('what', {k: n.deep(memo) for k, n in self.v.items()}, self.name, self.out, self.nonids)
        return new

    def deep(self, memo):
        if id(self) not in memo:
            memo[id(self)] = new = Node(self.kind, self.v, self.name, self.out, self.nonids)
            if self.kind in ('what', 'duck', 'thing', 'dict'):
                new.v = {k: n.deep(memo) for k, n in self.v.items()}
            elif self.kind in ('list', 'tuple'):
                new.v = [n.deep(memo) for n in self.v]
        return memo[id(self)]

    def reach(self, found=None):
        found = {} if found is None else found
        if id(self) not in found:
            found[id(self)] = self
            for _, n in self.children():
                n.reach(found)
        return found


def plain(k):
    return ['none'] if k is None else ['int', k] if isinstance(k, int) else ['str', k]


def same(a, b):
    """As == does."""
    if a is b:
        return True
    if a.kind != b.kind or a.kind in ('duck', 'thing'):
        return False
    if a.kind == 'leaf':
        return gen.build(a.v) == gen.build(b.v)
    if a.kind == 'what' and (a.name, a.out) != (b.name, b.out):
        return False
    if a.kind in ('list', 'tuple'):
        return len(a.v) == len(b.v) and all(map(same, a.v, b.v))
    return set(a.v) == set(b.v) and all(same(n, b.v[k]) for k, n in a.v.items())


def state(v):
    """The same as Node.state, of the real thing."""
    from whatami import What
    if type(v) is What:
        return 'what', v.name, v.out_name, tuple(sorted(v.non_id_keys)), tuple(
            sorted((k, state(x)) for k, x in v.conf.items()))
    if type(v) is Duck:
        return 'duck', tuple(sorted((k, state(x)) for k, x in v.conf.items()))
    if type(v) is Thing:
        return 'thing', tuple(sorted((k, state(x)) for k, x in vars(v).items() if k != '_private'))
    if type(v) in (list, tuple):
        return type(v).__name__, tuple((i, state(x)) for i, x in enumerate(v))
    if type(v) is dict:
        return 'dict', tuple(sorted(((k, state(x)) for k, x in v.items()), key=repr))
    return gen.canon(v)


def step_into(v, k):
    """The real thing behind the real thing."""
    if type(v) in (list, tuple, dict):
        return v[k]
    if type(v) is Thing:
        return getattr(v, k)
    return v.conf[k]


def ordered(items):
    """[(key, node)] of a dictionary, sorted if it is known how."""
    try:
        return sorted(items, key=lambda kv: kv[0])
    except TypeError:
        return None


def flat(node, nonids, collections, recursive):
    """[(path, node)] and whether the order is known."""
    found, known = [], [True]

    def walk(n, path):
        kvs = []
        if n.kind == 'what':
            kvs = [(k, x) for k, x in sorted(n.v.items()) if nonids or k not in n.nonids]
        elif n.kind in ('list', 'tuple') and collections:
            kvs = list(enumerate(n.v))
        elif n.kind == 'dict' and collections:
            kvs = ordered(n.v.items())
            if kvs is None:
                kvs, known[0] = list(n.v.items()), False
        for k, x in kvs:
            found.append((path + (k,) if path else k, x))
            if recursive:
                walk(x, path + (k,))
    walk(node, ())
    return found, known[0]


def lookup(node, key):
    """The node of the key, or None."""
    if not isinstance(key, tuple):
        key = (key,)
    for k in key:
        if node.kind in ('list', 'tuple'):
            if not isinstance(k, int) or not k < len(node.v):
                return None
            node = node.v[k]
        elif node.kind == 'leaf' or k not in node.v:
            return None
        else:
            node = node.v[k]
    return node


def as_dict(node, nonids):
    """What to_dict must give, in canonical form."""
    spec = node.spec()
    return ids.dict_of([spec[0], spec[1], spec[2], spec[3], [] if nonids else spec[4]])


class C26(Prop):
    ID = 'C26'
    LOOKALIKES = ({'b': 'A', 'c': 'aa', 'x': 'X', 'B': 'a'},)
    RUNS = {'quick': 2600, 'thorough': 60000}
    RULE = 'Half of the runs are histories of 5-25 operations in one thread over a pool of configurations that share ' \
           'parts; the others, 2-3 threads that read and derive from the same configurations: setting keys, copying ' \
           '(shallow, deep, pickled), changing nested parts, comparing, looking up, listing and describing, with ' \
           'what() methods, comparisons and copies of nested objects that fail, and interrupts at any line.'
    REAL = ('whatami.what', 'whatami.whatutils', 'whatami.plugins', 'whatami.parsers', 'pickle')
    STUB = ('thread scheduler', 'interrupts', 'user objects')
    NEED_PROBES = ('set', 'set-copy', 'shallow', 'deep', 'pickled', 'mutated', 'equal', 'different', 'found', 'absent',
                   'listed', 'described', 'through-what', 'user-failure', 'interrupted', 'concurrent', 'shared-part',
                   'unordered', 'mixed-keys')

    def prepare(self):
        from whatami import whatable, What
        global Thing
        if not hasattr(Thing, 'what'):
            Thing = whatable(Thing)
        w = What('f', {'x': What('g', {'y': [1]})})
        w.to_dict()
        pickle.loads(pickle.dumps(w.copy(deep=True)))

    # --- Plans

    def make_plan(self, rng, index, tier):
        faults, n, threads = [], 0, []
        alone = rng.random() < .5
        pfault = rng.choice((0, 0, .15, .4))
        pool = [self.new(rng) for _ in range(rng.choice((1, 2, 3)))]
        for _ in range(1 if alone else rng.choice((2, 2, 3))):
            ops = []
            for _ in range(rng.randrange(5, 26) if alone else rng.randrange(2, 9)):
                op = {'id': n, 'seed': rng.randrange(1 << 30)}
                n += 1
                r = rng.random()
                if r < .1:
                    op.update(do='new', spec=self.new(rng))
                elif r < .25:
                    op.update(do='copy', how=rng.choice(('shallow', 'shallow', 'deep', 'deep', 'pickle')))
                elif r < .4:
                    op.update(do='set', copy=rng.random() < .4, spec=self.part(rng, 2) if rng.random() < .6 else None)
                elif r < .52:
                    op.update(do='mutate', spec=self.part(rng, 1))
                elif r < .62:
                    op.update(do='equal')
                elif r < .78:
                    op.update(do='lookup', get=rng.random() < .6)
                elif r < .88:
                    op.update(do='list', how=rng.choice(('flatten', 'keys', 'values')), nonids=rng.random() < .5,
                              collections=rng.random() < .5, recursive=rng.random() < .8)
                elif r < .97:
                    op.update(do='describe', how=rng.choice(('id', 'id', 'str', 'positional', 'to_dict')),
                              nonids=rng.random() < .5)
                else:
                    op.update(do='add', specs=[self.part(rng, 1) for _ in range(rng.randrange(3))])
                if rng.random() < .15:
                    op['fail'] = {'at': rng.choice((1, 1, 2, 3)), 'exc': rng.choice(ERRORS)}
                maybe_fault(rng, faults, op['id'], pfault, rng.choice((8, 40, 300)))
                ops.append(op)
            threads.append(ops)
        return {'threads': threads, 'faults': faults, 'alone': alone, 'pool': pool,
                'sched': {'kind': 'none'} if alone else sched(rng, nsteps=800)}

    def leaf(self, rng):
        if rng.random() < .1:
            return ['set', [['int', i] for i in rng.sample(range(4), rng.randrange(3))]]
        return rng.choice((['none'], ['bool', False], ['bool', True], ['int', 0], ['int', 1], ['float', '1.0'],
                           ['float', '2.5'], ['str', ''], ['str', 'a'], ['str', 'f(x=1)'], ['int', 7], ['cls', 'str']))

    def part(self, rng, depth):
        kind = rng.choice(('leaf', 'list', 'tuple', 'dict', 'what', 'what', 'duck', 'thing')) if depth > 0 else 'leaf'
        if kind == 'leaf':
            return self.leaf(rng)
        if kind in ('list', 'tuple'):
            return [kind, [self.part(rng, depth - 1) for _ in range(rng.randrange(4))]]
        if kind == 'dict':
            keys = rng.sample(DICTKEYS, rng.randrange(4))
            if rng.random() < .5:
                keys = [k for k in keys if k[0] == 'str']
            return [kind, [[k, self.part(rng, depth - 1)] for k in keys]]
        kvs = [[k, self.part(rng, depth - 1)] for k in rng.sample(KEYS, rng.randrange(4))]
        if kind == 'what':
            return ['what', rng.choice('AB'), kvs, rng.choice((None, None, 'o')),
                    [k for k in KEYS if rng.random() < .15]]
        return [kind, kvs]

    def new(self, rng):
        while True:
            s = self.part(rng, 3)
            if s[0] == 'what':
                return s

    # --- Building

    def build(self, spec):
        """(real thing, node)"""
        kind = spec[0]
        if kind in ('list', 'tuple'):
            parts = [self.build(s) for s in spec[1]]
            return (list if kind == 'list' else tuple)(p[0] for p in parts), Node(kind, [p[1] for p in parts])
        if kind == 'dict':
            parts = [(gen.build(k), self.build(s)) for k, s in spec[1]]
            return {k: p[0] for k, p in parts}, Node(kind, {k: p[1] for k, p in parts})
        if kind in ('what', 'duck', 'thing'):
            kvs = [(k, self.build(s)) for k, s in (spec[2] if kind == 'what' else spec[1])]
            real = {k: p[0] for k, p in kvs}
            node = Node(kind, {k: p[1] for k, p in kvs})
            if kind == 'duck':
                return Duck(real), node
            if kind == 'thing':
                thing = Thing()
                for k, v in real.items():
                    setattr(thing, k, v)
                return thing, node
            from whatami import What
            node.name, node.out, node.nonids = spec[1], spec[3], set(spec[4])
            return What(spec[1], real, non_id_keys=spec[4], out_name=spec[3]), node
        return gen.build(spec), Node('leaf', spec)

    # --- Running

    def execute(self, plan, make_sim):
        sim = self.sim = make_sim(sched=plan['sched'], faults=plan['faults'], files=module_files())
        self.alone = plan['alone']
        pool = [self.build(s) for s in plan['pool']]
        self.shared = [] if self.alone else pool
        self.own = [list(pool) if self.alone else [] for _ in plan['threads']]
        self.pending = {}
        self.failing = {}       # thread: [calls to go, exception, raised]
        SIM[0] = self
        try:
            run_concurrently(sim, plan['threads'], self.perform, canon=lambda v: None, after=self.after)
            self.failing.clear()
            self.check_all('at the end')
        finally:
            SIM[0] = None
        if not self.alone and len(plan['threads']) > 1:
            sim.probe('concurrent')
        sim.probe('nontrivial')

    def user_code(self):
        self.sim.here('user')
        th = self.current()
        failing = self.failing.get(th)
        if failing and failing[0] > 0:
            failing[0] -= 1
            if failing[0] == 0:
                failing[2] = EXCS[failing[1]]('user code')
                self.sim.probe('user-failure')
                raise failing[2]

    def current(self):
        import _thread
        th = self.sim.by_ident.get(_thread.get_ident())
        return None if th is None else th.tid

    def check_all(self, when):
        SIM[0] = None
        seen, reals, nodes = {}, {}, {}
        for real, node in self.shared + [x for own in self.own for x in own]:
            got, must = state(real), node.state()
            if got != must:
                raise Violation('state', '%s a configuration is %s, must be %s' % (when, short(got, 900),
                                                                                   short(must, 900)))
            if seen.setdefault(id(real), node) is not node:
                raise Violation('same', '%s two configurations are the same' % when)
            self.check_sharing(real, node, reals, nodes, when)
        SIM[0] = self

    def check_sharing(self, real, node, reals, nodes, when):
        """What is one thing must be one thing, and different things must be different."""
        if node.kind == 'leaf':
            return
        if node.kind != 'tuple':
            if nodes.setdefault(id(real), node) is not node or reals.setdefault(id(node), real) is not real:
                raise Violation('shared', '%s %s is %s' % (when, short(node.state()),
                                'shared and it must not' if nodes[id(real)] is not node else 'not shared any more'))
        for k, n in node.children():
            self.check_sharing(step_into(real, k), n, reals, nodes, when)

    def reachable(self, node):
        """Is it part of what other threads can see?"""
        return any(id(node) in n.reach() for _, n in self.shared)

    def perform(self, th, op):
        import whatami
        rng = rng_for(op['seed'])
        do, own = op['do'], self.own[th.tid]
        if do == 'new' or not (own or self.shared):
            real, node = self.build(op.get('spec') if do == 'new' else self.new(rng))
            own.append((real, node))
            op = dict(op, do='new')
            self.pending[op['id']] = ('nothing',)
            return lambda: None
        if 'fail' in op:
            self.failing[th.tid] = [op['fail']['at'], op['fail']['exc'], None]
        if do == 'lookup' and rng.random() < .05:
            # there is nothing to look up in classes, also if they are whatable
            w = whatami.What('f', {'c': Thing, 'd': [Thing, Duck]})
            key = rng.choice((('c', 'a'), ('d', 0, 'a'), ('d', 1, 'a'), ('c', 'what')))
            self.pending[op['id']] = 'class', key
            return lambda: w.get(key, self)
        real, node = rng.choice(own + self.shared)
        mine = not any(node is n for _, n in self.shared)
        if do == 'copy':
            how = op['how']
            self.pending[op['id']] = 'copy', real, node, own
            if how == 'pickle':
                protocol = rng.choice((2, 3, 4))
                return lambda: pickle.loads(pickle.dumps(real, protocol))
            if how == 'shallow':
                return real.copy if rng.random() < .5 else lambda: real.copy(deep=False)
            return lambda: real.copy(deep=True)
        if do == 'set':
            key = rng.choice(KEYS)
            copy = op['copy'] or not mine
            if op['spec'] is None:
                # something of the pool, or a part of it, or itself when that makes no cycle
                value, vnode = self.some_part(rng, *((real, node) if rng.random() < .4 else
                                                     rng.choice(own + self.shared)))
                if id(node) in vnode.reach() and not copy:
                    value, vnode = self.build(['int', 5])
                elif vnode.kind != 'leaf':
                    self.sim.probe('shared-part')
            else:
                value, vnode = self.build(op['spec'])
            self.pending[op['id']] = 'set', real, node, own, key, value, vnode, copy
            if copy:
                return lambda: real.set(key, value, copy=True)
            return (lambda: real.set(key, value)) if rng.random() < .5 else lambda: real.set(key, value, copy=False)
        if do == 'mutate':
            self.mutate(rng, op, real, node)
            self.pending[op['id']] = ('nothing',)
            return lambda: None
        if do == 'equal':
            other, onode = rng.choice(own + self.shared)
            r = rng.random()
            if r < .15:
                other, onode = self.some_part(rng, other, onode)
            elif r < .25:
                other, onode = rng.choice(((None, None), (3, None), ('A(x=1)', None), ({}, None)))
            negated = rng.random() < .3
            self.pending[op['id']] = 'equal', node, onode, negated
            return (lambda: real != other) if negated else (lambda: real == other)
        if do == 'lookup':
            key = self.some_key(rng, node)
            self.pending[op['id']] = 'lookup', real, node, key, op['get'], rng.choice((None, 'default'))
            default = self.pending[op['id']][-1]
            if op['get']:
                return (lambda: real.get(key)) if default is None else lambda: real.get(key, default)
            return lambda: real[key]
        if do == 'list':
            flags = dict(non_ids_too=op['nonids'], collections_too=op['collections'], recursive=op['recursive'])
            self.pending[op['id']] = 'list', real, node
            if op['how'] == 'flatten':
                def flatten():
                    keys, values = real.flatten(**flags)
                    return keys, values, [real[k] for k in keys]
                return flatten
            return lambda: getattr(real, op['how'])(**flags)
        if do == 'describe':
            self.pending[op['id']] = 'describe', node
            how, nonids = op['how'], op['nonids']
            return {'id': lambda: real.id(nonids_too=nonids), 'str': lambda: str(real),
                    'positional': lambda: real.positional_id(non_ids_too=nonids),
                    'to_dict': lambda: real.to_dict(nonids_too=nonids)}[how]
        if do == 'add':
            key = rng.choice(KEYS)
            parts = [self.build(s) for s in op['specs']]
            values = [p[0] for p in parts]
            self.pending[op['id']] = 'add', node, key, [p[1] for p in parts]
            given = rng.choice((list, tuple, iter))(values)
            return lambda: whatami.whatutils.whatadd(real, key, given)
        raise HarnessError(do)

    def some_part(self, rng, real, node):
        """Something in it."""
        while node.children() and rng.random() < .7:
            k, n = rng.choice(node.children())
            real, node = step_into(real, k), n
        return real, node

    def some_key(self, rng, node):
        path, n = [], node
        while n.children() and (not path or rng.random() < .7):
            k, n = rng.choice(n.children())
            path.append(k)
        r = rng.random()
        if r < .25 and path:
            path[rng.randrange(len(path))] = rng.choice(('a', 'b', 'zz', 0, 3, None, 'k'))
        elif r < .4:
            path.append(rng.choice(('a', 'zz', 99, None, '_private', 'conf', 'what')))
        elif not path:
            path = ['a']
        return tuple(path) if len(path) > 1 or rng.random() < .2 else path[0]

    def mutate(self, rng, op, real, node):
        """Changes some part, directly."""
        real, node = self.some_part(rng, real, node)
        if node.kind in ('leaf', 'tuple') or self.reachable(node):
            return
        value, vnode = self.build(op['spec'])
        self.sim.probe('mutated')
        r = rng.random()
        if node.kind == 'list':
            if node.v and r < .4:
                i = rng.randrange(len(node.v))
                real[i], node.v[i] = value, vnode
            elif node.v and r < .6:
                real.pop(), node.v.pop()
            else:
                real.append(value), node.v.append(vnode)
        elif node.kind == 'dict':
            k = gen.build(rng.choice(DICTKEYS))
            if k in node.v and r < .3:
                del real[k], node.v[k]
            else:
                real[k] = value
                node.v[k] = vnode
        elif node.kind == 'thing':
            k = rng.choice(KEYS)
            setattr(real, k, value)
            node.v[k] = vnode
        else:
            k = rng.choice(KEYS)
            if node.kind == 'what' and r < .15:
                real.name = node.name = rng.choice('ABC')
            elif node.kind == 'what' and r < .3:
                real.out_name = node.out = rng.choice((None, 'o', 'p'))
            elif node.kind == 'what' and r < .5:
                if k in node.nonids:
                    real.non_id_keys.discard(k), node.nonids.discard(k)
                else:
                    real.non_id_keys.add(k), node.nonids.add(k)
            elif k in node.v and r < .7:
                del real.conf[k], node.v[k]
            else:
                real.conf[k] = value
                node.v[k] = vnode

    # --- Judging

    def after(self, op, out, fired):
        th = self.current()
        failing = self.failing.pop(th, None)
        pending = self.pending[op['id']]
        try:
            if fired and out[0] == 'exc':
                self.sim.probe('interrupted')
                self.judge_interrupted(pending)
            elif failing is not None and failing[2] is not None:
                if out[0] == 'ok' or out[1] is not failing[2]:
                    raise Violation('hidden', '%s: user code failed with %r but the call gave %s' % (
                        op['do'], failing[2], short(out[1])))
                self.judge_interrupted(pending)
            else:
                self.judge(op, out, pending)
        finally:
            if self.alone:
                SIM[0] = self
        if self.alone:
            self.check_all('after %s' % {k: v for k, v in op.items() if k not in ('id', 'seed')})

    def judge_interrupted(self, pending):
        if pending[0] == 'set':
            _, real, node, own, key, value, vnode, copy = pending
            if not copy and key in real.conf and real.conf[key] is value:
                node.v[key] = vnode

    def judge(self, op, out, pending):
        what = pending[0]
        if what == 'nothing':
            return
        if what == 'class':
            if out[0] == 'exc' or out[1] is not self:
                raise Violation('absent', 'looking up %r in a class gave %s, must give the default' % (
                    pending[1], short(out[1])))
            return
        if what == 'set':
            _, real, node, own, key, value, vnode, copy = pending
            self.need(out, op)
            if not copy:
                if out[1] is not real:
                    raise Violation('set', 'set does not return the configuration itself')
                node.v[key] = vnode
                self.sim.probe('set')
            else:
                new = node.copy(False)
                new.v[key] = vnode
                self.adopt(out[1], new, real, own, 'set in a copy')
                self.parts(out[1], real, node, skip=key)
                if out[1].conf.get(key) is not value:
                    raise Violation('set', 'the value of %r is not the one given' % key)
                self.sim.probe('set-copy')
        elif what == 'copy':
            _, real, node, own = pending
            self.need(out, op)
            how = op['how']
            self.adopt(out[1], node.copy(how != 'shallow'), real, own, how + ' copy')
            if how == 'shallow':
                self.parts(out[1], real, node)
            self.sim.probe('pickled' if how == 'pickle' else how)
        elif what == 'equal':
            _, node, onode, negated = pending
            self.need(out, op)
            must = (onode is not None and same(node, onode)) != negated
            if onode is not None and onode.kind == 'duck':
                return
            if out[1] is not must:
                raise Violation('equal', '%s %s %s gave %r' % (
                    short(node.state()), '!=' if negated else '==', short(onode and onode.state()), out[1]))
            self.sim.probe('equal' if must != negated else 'different')
        elif what == 'lookup':
            _, real, node, key, get, default = pending
            self.judge_lookup(out, real, node, key, get, default)
        elif what == 'list':
            self.need(out, op)
            self.judge_list(op, out[1], pending[2])
        elif what == 'describe':
            self.need(out, op)
            self.judge_description(op, out[1], pending[1])
        else:
            _, node, key, vnodes = pending
            if key in node.v:
                if out[0] == 'ok' or type(out[1]) is not ValueError:
                    raise Violation('add', 'adding values of the key %r, that is there, gave %s' % (key, short(out[1])))
                return
            self.need(out, op)
            must = []
            for vnode in vnodes:
                new = node.copy(False)
                new.v[key] = vnode
                must.append(gen.ref(new.spec()))
            if list(out[1]) != must:
                raise Violation('add', 'adding values of %r gave %s, must give %s' % (key, short(out[1], 900),
                                                                                     short(must, 900)))

    @staticmethod
    def need(out, op):
        if out[0] == 'exc':
            raise Violation('error', '%s raised %s' % ({k: v for k, v in op.items() if k not in ('id', 'seed')},
                                                       short(out[1])))

    def adopt(self, real, node, original, own, how):
        from whatami import What
        if type(real) is not What:
            raise Violation('copy', '%s gave %s' % (how, short(real)))
        if real is original or real.conf is original.conf or real.non_id_keys is original.non_id_keys:
            raise Violation('copy', '%s shares its keys with the original' % how)
        got, must = state(real), node.state()
        if got != must:
            raise Violation('copy', '%s gave %s, must be %s' % (how, short(got, 900), short(must, 900)))
        own.append((real, node))

    def parts(self, real, original, node, skip=None):
        """The values of a copy that is not deep are the very same ones."""
        for k, n in node.v.items():
            if k != skip and n.kind != 'leaf' and real.conf[k] is not original.conf[k]:
                raise Violation('copy', 'the value of %r in a shallow copy is not that of the original' % k)

    def judge_lookup(self, out, real, node, key, get, default):
        # the characters of a text are whatever Python says
        n = node
        path = key if isinstance(key, tuple) else (key,)
        for k in path:
            if n is not None and n.kind == 'leaf' and isinstance(k, int):
                return
            n = lookup(n, k) if n is not None else None
        must = lookup(node, key)
        where = 'looking up %r in %s' % (key, short(node.state(), 900))
        if must is None:
            self.sim.probe('absent')
            if get:
                if out[0] == 'exc' or out[1] is not default:
                    raise Violation('absent', '%s gave %s, must give the default' % (where, short(out[1])))
            elif out[0] == 'ok' or not isinstance(out[1], KeyError):
                raise Violation('absent', '%s gave %s, must raise KeyError' % (where, short(out[1])))
            return
        self.sim.probe('found')
        if any(lookup(node, path[:i]).kind in ('duck', 'thing') for i in range(1, len(path))):
            self.sim.probe('through-what')
        if out[0] == 'exc':
            raise Violation('lookup', '%s raised %s' % (where, short(out[1])))
        if must.kind != 'leaf':
            found = real
            for k in path:
                found = step_into(found, k)
            if found is not out[1]:
                raise Violation('lookup', '%s gave other object: %s' % (where, short(out[1])))
        elif state(out[1]) != must.state():
            raise Violation('lookup', '%s gave %s, must give %s' % (where, short(out[1]), short(must.state())))

    def judge_list(self, op, got, node):
        must, known = flat(node, op['nonids'], op['collections'], op['recursive'])
        how = op['how']
        where = 'listing (%s) %s' % (op, short(node.state(), 900))
        if op['collections'] and any(n.kind == 'dict' and len(set(map(type, n.v))) > 1 for n in node.reach().values()):
            self.sim.probe('mixed-keys')
        if how == 'flatten':
            keys, values, found = got
        elif how == 'keys':
            keys, values, found = got, None, None
        else:
            keys, values, found = None, got, None
        for name, one, two in (('keys', keys, [k for k, _ in must]),
                               ('values', values and list(map(state, values)), [n.state() for _, n in must])):
            if one is None:
                continue
            one = list(one)
            if not known:
                self.sim.probe('unordered')
                one, two = sorted(map(repr, one)), sorted(map(repr, two))
            if one != two:
                raise Violation('list', '%s gave the %s %s, must give %s' % (where, name, short(one, 900),
                                                                            short(two, 900)))
        if found is not None and (len(keys) != len(values) or any(a is not b for a, b in zip(values, found))):
            raise Violation('list', '%s: the keys do not give the values' % where)
        self.sim.probe('listed')

    def judge_description(self, op, got, node):
        how, spec = op['how'], node.spec()
        self.sim.probe('described')
        if how in ('id', 'str'):
            must = gen.ref(spec, nonids_too=op['nonids'] or how == 'str')
        elif how == 'positional':
            values = [gen.ref(n.spec()) for _, n in flat(node, op['nonids'], False, True)[0]]
            must = '%s(%s)' % (node.name, ','.join(values))
            if node.out is not None:
                must = node.out + '=' + must
        else:
            got, must = gen.canon(got), as_dict(node, op['nonids'])
        if got != must:
            raise Violation('describe', '%s of %s gave %s, must give %s' % (how, short(node.state()), short(got, 900),
                                                                           short(must, 900)))


PROP = C26()
