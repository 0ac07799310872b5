# coding=utf-8
"""Batches of simulated runs: one forked process per run, minimisation, replay files, evidence."""
import gc
import json
import mmap
import os
import select
import signal
import struct
import subprocess
import sys
import time
import traceback

from . import core
from .core import Violation, HarnessError, rng_for

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYFLAGS = (['--jit', 'off'] if hasattr(sys, 'pypy_version_info') else []) + ['-W', 'ignore']     # as in ./check
RUN_TIMEOUT = 60.      # wall seconds for one run, only to survive real hangs


# --- One run ---------------------------------------------------------------------------------------------------

def _result(sim, violation=None, extra=None):
    res = {'violation': None, 'loghash': None, 'ihash': None, 'fired': {}, 'probes': {}, 'steps': 0,
           'switches': [], 'inside': 0, 'clock': 0., 'seq': 0}
    if sim is not None:
        res.update(loghash=sim.loghash(), ihash=sim.interleaving_hash(), fired=sim.fired, probes=sim.probes,
                   steps=sim.steps, switches=sim.switches, inside=sim.nswitch_inside, clock=sim.clock, seq=sim.seq)
    if violation is not None:
        res['violation'] = {'kind': violation.kind, 'detail': str(violation.detail)[:4000], 'key': violation.key}
    if extra:
        res.update(extra)
    return res


def unexpected(e):
    """
    Errors that are due to the library: those that left it where no plan makes it fail, and those of an oracle that can
    make nothing of what it got. Not those of the harness itself or of the system it runs on.
    """
    if isinstance(e, HarnessError) or not isinstance(e, Exception):
        return False
    tb, inside = e.__traceback__, False
    while tb is not None:
        inside = inside or tb.tb_frame.f_code.co_filename.startswith(core.REPO + os.sep)
        tb = tb.tb_next
    return inside or not isinstance(e, (OSError, MemoryError))


def prepare(prop):
    """Warms up. Returns the violation if the library fails when doing so."""
    try:
        prop.prepare()
    except Exception as e:
        if isinstance(e, Violation):
            return e
        if not unexpected(e):
            raise
        return Violation('prepare', traceback.format_exc()[-2000:])


def _child(prop, plans, w):
    """Runs some plans one after another, writing a line for each result. Never returns."""
    state = {'sim': None}

    def emit(res):
        data = json.dumps(res).encode() + b'\n'
        off = 0
        while off < len(data):
            off += os.write(w, data[off:])

    def on_fatal(sim, violation):
        emit(_result(sim, violation))
        os._exit(0)

    def make_sim(**kwargs):
        sim = state['sim'] = core.Sim(on_fatal=on_fatal, **kwargs)
        return sim

    try:
        dn = os.open(os.devnull, os.O_RDWR)
        os.dup2(dn, 0)
        os.dup2(dn, 1)
        if not os.environ.get('DST_DEBUG'):
            os.dup2(dn, 2)
        for plan in plans:
            state['sim'] = None
            try:
                prop.execute(plan, make_sim)
            except Violation as v:
                emit(_result(state['sim'], v))
                os._exit(0)
            emit(_result(state['sim']))
        os._exit(0)
    except BaseException as e:
        try:
            if unexpected(e):
                emit(_result(state['sim'], Violation('unexpected', traceback.format_exc()[-2000:])))
                os._exit(0)
            emit({'error': '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:])})
        finally:
            os._exit(3)


def run_group(prop, plans, timeout=RUN_TIMEOUT):
    """Executes plans in one forked process; returns their results, until the first violation or error."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child(prop, plans, w)
        os._exit(4)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + timeout
    hung = False
    while True:
        ready, _, _ = select.select([r], [], [], max(0., deadline - time.monotonic()))
        if not ready:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        data = os.read(r, 1 << 16)
        if not data:
            break
        chunks.append(data)
    os.close(r)
    os.waitpid(pid, 0)
    lines = b''.join(chunks).split(b'\n')
    results = [json.loads(line) for line in lines[:-1]]
    done = len(results) == len(plans) or (results and (results[-1].get('violation') or results[-1].get('error')))
    if hung:
        results.append({'error': None, 'hung': True})
    elif not done:
        results.append({'error': 'the run died without a result', 'died': True})
    return results


def run_plan(prop, plan, timeout=RUN_TIMEOUT):
    """Executes a plan (or the plans of a group) and returns the (last) result."""
    return run_group(prop, plan['group'] if 'group' in plan else [plan], timeout)[-1]


# --- Known findings --------------------------------------------------------------------------------------------

def known_findings():
    """{(property, key): text} for the recorded, not repaired, defects. "fixed:" lines suppress nothing."""
    found = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('finding:'):
                    _, prop, key, text = line.strip().split(' ', 3)
                    found[prop.split('=')[1], key.split('=')[1]] = text
    return found


# --- Batches ---------------------------------------------------------------------------------------------------

def renamed(plan, names):
    """The same plan, with other names for some things."""
    if isinstance(plan, str):
        return names.get(plan, plan)
    if isinstance(plan, dict):
        return {names.get(k, k): renamed(v, names) for k, v in plan.items()}
    if isinstance(plan, (list, tuple)):
        return type(plan)([renamed(v, names) for v in plan])
    return plan


def plan_for(prop, seed, index, tier):
    rng = rng_for('plan', prop.ID, seed, index)
    plan = prop.make_plan(rng, index, tier)
    if prop.LOOKALIKES:
        rng = rng_for('lookalikes', prop.ID, seed, index)
        if rng.random() < .2:
            plan = renamed(plan, rng.choice(prop.LOOKALIKES))
    plan['prop'] = prop.ID
    plan['seed'] = seed
    plan['index'] = index
    return json.loads(json.dumps(plan))


class _Agg(object):
    def __init__(self):
        self.runs = 0
        self.fired = {}
        self.probes = {}
        self.opkinds = {}
        self.steps = 0
        self.switches = 0
        self.inside = 0
        self.clock = 0.
        self.seq = 0
        self.loghashes = set()
        self.ihashes = set()
        self.nontrivial = set()
        self.rechecked = 0
        self.mismatches = []
        self.errors = []
        self.violations = []
        self.known = {}
        self.samples = []

    def add(self, plan, res, prop):
        self.runs += 1
        for name in ('fired', 'probes'):
            mine = getattr(self, name)
            for k, v in res[name].items():
                mine[k] = mine.get(k, 0) + v
        for k, v in prop.op_kinds(plan).items():
            self.opkinds[k] = self.opkinds.get(k, 0) + v
        self.steps += res['steps']
        self.switches += len(res['switches'])
        self.inside += res['inside']
        self.clock += res['clock']
        self.seq += res['seq']
        self.loghashes.add(res['loghash'])
        self.ihashes.add(res['ihash'])
        if res['fired'] or res['inside'] or res['probes'].get('nontrivial'):
            self.nontrivial.add(res['loghash'])

    def dump(self):
        d = dict(self.__dict__)
        for k in ('loghashes', 'ihashes', 'nontrivial'):
            d[k] = sorted(d[k])
        return d

    def merge(self, d):
        for k in ('runs', 'steps', 'switches', 'inside', 'clock', 'seq', 'rechecked'):
            setattr(self, k, getattr(self, k) + d[k])
        for k in ('fired', 'probes', 'opkinds', 'known'):
            mine = getattr(self, k)
            for kk, v in d[k].items():
                mine[kk] = mine.get(kk, 0) + v
        for k in ('loghashes', 'ihashes', 'nontrivial'):
            getattr(self, k).update(d[k])
        for k in ('mismatches', 'errors', 'violations', 'samples'):
            getattr(self, k).extend(d[k])


def _worker(prop, seed, tier, wid, nworkers, nruns, recheck, limit, known, wall_cap, w):
    agg = _Agg()
    t0 = time.monotonic()
    size = prop.GROUP

    def stop_at(i):
        if i < struct.unpack('q', limit[:8])[0]:
            limit[:8] = struct.pack('q', i)

    for first in range(wid * size, nruns, nworkers * size):
        if first > struct.unpack('q', limit[:8])[0] or time.monotonic() - t0 > wall_cap:
            break
        plans = [plan_for(prop, seed, i, tier) for i in range(first, min(first + size, nruns))]
        results = run_group(prop, plans)
        if results[-1].get('hung') or results[-1].get('died'):
            # look again, one by one
            results = []
            for plan in plans:
                res = run_plan(prop, plan)
                if res.get('hung'):
                    res = _result(None, Violation('hang', 'the run does not finish (twice)'))
                elif res.get('died'):
                    res = _result(None, Violation('died', 'the process dies (twice)'))
                results.append(res)
                if res.get('error') or res['violation']:
                    break
        stop = False
        for j, (plan, res) in enumerate(zip(plans, results)):
            i = first + j
            if res.get('error'):
                agg.errors.append([i, res['error']])
                stop = len(agg.errors) > 3
                break
            v = res['violation']
            if v is not None and v.get('key') and (prop.ID, v['key']) in known:
                agg.known[v['key']] = agg.known.get(v['key'], 0) + 1
                v = None
                # the rest of the group has not been run
                results.extend(run_group(prop, plans[j + 1:]) if j + 1 < len(plans) else [])
            if v is not None:
                agg.violations.append([i, v, res['switches'], first])
                stop_at(i)
                stop = True
                break
            agg.add(plan, res, prop)
            if len(agg.samples) < 1 and (res['fired'] or res['inside'] or not prop.FAULTY):
                agg.samples.append({'index': i, 'plan': plan, 'events': res['seq'],
                                    'switches': res['switches'][:20], 'faults_fired': res['fired']})
        if stop:
            break
        if first < recheck and not agg.errors:
            again = run_group(prop, plans)
            for j, (one, two) in enumerate(zip(results, again)):
                agg.rechecked += 1
                if one.get('loghash') != two.get('loghash'):
                    agg.mismatches.append(first + j)
    data = json.dumps(agg.dump()).encode()
    off = 0
    while off < len(data):
        off += os.write(w, data[off:])
    os._exit(0)


def batch(prop, seed, tier, nruns, nworkers, recheck=40, wall_cap=600.):
    limit = mmap.mmap(-1, 8)
    limit[:8] = struct.pack('q', 1 << 60)
    known = known_findings()
    gc.collect()
    pipes = {}
    pids = []
    for wid in range(nworkers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                _worker(prop, seed, tier, wid, nworkers, nruns, recheck, limit, known, wall_cap, w)
            except BaseException:
                traceback.print_exc()
            os._exit(5)
        os.close(w)
        pipes[r] = []
        pids.append(pid)
    agg = _Agg()
    live = set(pipes)
    while live:
        ready, _, _ = select.select(list(live), [], [])
        for r in ready:
            data = os.read(r, 1 << 20)
            if not data:
                live.discard(r)
                os.close(r)
            else:
                pipes[r].append(data)
    for pid in pids:
        os.waitpid(pid, 0)
    for chunks in pipes.values():
        if not chunks:
            raise HarnessError('a worker died')
        agg.merge(json.loads(b''.join(chunks)))
    agg.violations.sort(key=lambda v: v[0])
    return agg


# --- Minimisation ----------------------------------------------------------------------------------------------

def as_listed(plan, switches):
    """The same plan with its schedule written out."""
    plan = json.loads(json.dumps(plan))
    if plan.get('sched', {}).get('kind', 'none') != 'none':
        plan['sched'] = {'kind': 'list', 'switches': switches}
    return plan


def minimise(prop, plan, kind, budget_s=60., budget_runs=600):
    t0 = time.monotonic()
    runs = [0]

    def fails(candidate):
        if runs[0] >= budget_runs or time.monotonic() - t0 > budget_s:
            return False
        runs[0] += 1
        res = run_plan(prop, candidate, timeout=30.)
        if res.get('hung'):
            return kind == 'hang'
        if res.get('died'):
            return kind == 'died'
        return bool(res.get('violation')) and res['violation']['kind'] == kind

    def clone(p):
        return json.loads(json.dumps(p))

    def ddmin(get, put, current):
        items = get(current)
        n = 2
        while items and runs[0] < budget_runs:
            size = max(1, len(items) // n)
            reduced = False
            for start in range(0, len(items), size):
                rest = items[:start] + items[start + size:]
                cand = clone(current)
                put(cand, clone(rest))
                if fails(cand):
                    current, items, reduced = cand, rest, True
                    break
            if reduced:
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(items), n * 2)
        return current

    changed = True
    rounds = 0
    while changed and rounds < 4 and runs[0] < budget_runs:
        rounds += 1
        before = json.dumps(plan, sort_keys=True)
        for path in prop.shrink_lists(plan):
            def get(p, path=path):
                for k in path:
                    p = p[k]
                return list(p)

            def put(p, items, path=path):
                for k in path[:-1]:
                    p = p[k]
                p[path[-1]] = items
            try:
                get(plan)
            except (KeyError, IndexError, TypeError):
                continue
            plan = ddmin(get, put, plan)
        for cand in prop.shrink_more(clone(plan)) if 'group' not in plan else ():
            if fails(cand):
                plan = cand
        changed = json.dumps(plan, sort_keys=True) != before
    return plan, runs[0]


# --- Properties ------------------------------------------------------------------------------------------------

class Prop(object):
    """What each property module provides."""
    ID = None
    FAULTY = True
    GROUP = 8            # runs that share a process
    RECHECK = 40         # runs executed twice, to compare their event logs
    RUNS = {'quick': 1000, 'thorough': 20000}
    RULE = ''
    REAL = ()
    STUB = ()
    ASSUMPTIONS = ()
    LOOKALIKES = ()      # maps of names used in the plans to others that look alike
    NEED_PROBES = ()     # probes and faults that must have been reached by a batch, otherwise the workload is wrong
    LEVEL = 'exploration'

    def prepare(self):
        """Imports what the runs need, once, before forking."""

    def make_plan(self, rng, index, tier):
        raise NotImplementedError

    def execute(self, plan, make_sim):
        raise NotImplementedError

    def op_kinds(self, plan):
        kinds = {}
        for ops in plan.get('threads', [plan.get('ops', [])]):
            for op in ops:
                kinds[op['do']] = kinds.get(op['do'], 0) + 1
        return kinds

    def shrink_lists(self, plan):
        paths = []
        if 'group' in plan:
            return [('group',)] + [('group', i) + path for i in range(len(plan['group']))
                                   for path in self.shrink_lists(plan['group'][i])]
        if 'threads' in plan:
            paths.append(('threads',))
            paths.extend(('threads', i) for i in range(len(plan['threads'])))
        if 'ops' in plan:
            paths.append(('ops',))
        if plan.get('faults'):
            paths.append(('faults',))
        if plan.get('sched', {}).get('switches'):
            paths.append(('sched', 'switches'))
        return paths

    def shrink_more(self, plan):
        return ()


# --- Command line ----------------------------------------------------------------------------------------------

def write_replay(prop, plan, violation, original, out_dir):
    os.makedirs(out_dir, exist_ok=True)
    path = os.path.join(out_dir, '%s-seed%s-run%s.json' % (prop.ID, plan['seed'], plan['index']))
    with open(path, 'w') as f:
        json.dump({'property': prop.ID, 'violation': violation, 'plan': plan, 'original_plan': original,
                   'replay_cmd': './check --replay %s' % path}, f, indent=1, sort_keys=True)
    return path


def replay(prop, path):
    with open(path) as f:
        doc = json.load(f)
    failed = prepare(prop)
    if doc['plan'].get('prepare'):
        res = _result(None, failed)
    else:
        res = run_plan(prop, doc['plan'])
    if res.get('hung'):
        res = _result(None, Violation('hang', 'the run does not finish'))
    elif res.get('died'):
        res = _result(None, Violation('died', 'the process dies'))
    if res.get('error'):
        print('ERROR', res['error'])
        return 2
    v = res['violation']
    if v is None:
        print('replay: no violation')
        return 0
    print('replay: %s: %s' % (v['kind'], v['detail']))
    print('replay: event log hash %s' % res['loghash'])
    same = v['kind'] == doc['violation']['kind']
    print('VIOLATION property=%s replay=%s' % (prop.ID, path))
    return 1 if same else 2


def report(prop, tier, seed, found):
    """Minimises a violation and confirms it in a fresh interpreter. Returns the replay file (None: not confirmed)."""
    index, violation, switches, first = found
    original = plan_for(prop, seed, index, tier)
    # From simpler to more complex: the schedule written out, drawn again from the seed, or the run together with
    # those that preceded it in its process (if what they left behind is to blame).
    group = {'prop': prop.ID, 'seed': seed, 'index': index,
             'group': [plan_for(prop, seed, i, tier) for i in range(first, index + 1)]}
    reproduced = False
    for start in (as_listed(original, switches), original, group):
        res = run_plan(prop, start)
        reproduced = (violation['kind'] == 'hang' if res.get('hung') else
                      violation['kind'] == 'died' if res.get('died') else
                      bool(res.get('violation')) and res['violation']['kind'] == violation['kind'])
        if reproduced:
            if start is group:
                original = group
            break
    small, tried = minimise(prop, start, violation['kind'],
                            budget_s=40. if tier == 'quick' else 120.) if reproduced else (start, 0)
    res = run_plan(prop, small)
    if res.get('violation'):
        violation = res['violation']
    path = write_replay(prop, small, violation, original, os.path.join(VERIF, 'replays'))
    # replay it in a fresh interpreter
    again = subprocess.run([sys.executable] + PYFLAGS + ['-m', 'dst', '--replay', path], cwd=VERIF,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    confirmed = again.returncode == 1
    if not confirmed and reproduced:
        path = write_replay(prop, original, violation, original, os.path.join(VERIF, 'replays'))
        again = subprocess.run([sys.executable] + PYFLAGS + ['-m', 'dst', '--replay', path], cwd=VERIF,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        confirmed = again.returncode == 1
    print('%s: run %d violates the property' % (prop.ID, index))
    print('  kind: %s' % violation['kind'])
    print('  detail: %s' % violation['detail'])
    print('  minimised with %d runs; replay in a fresh process: %s' %
          (tried, 'same violation' if confirmed else 'NOT REPRODUCED'))
    if confirmed:
        return path, violation
    print(again.stdout.decode(errors='replace')[-2000:])
    return None, violation


def check(prop, tier, seed, nworkers, nruns=None, evidence=True):
    t0 = time.time()
    failed = prepare(prop)
    prep = time.time() - t0
    nruns = nruns or prop.RUNS[tier]
    agg = batch(prop, seed, tier, nruns, nworkers, recheck=prop.RECHECK,
                wall_cap=500. if tier == 'quick' else 3600.)
    wall = time.time() - t0
    explore = max(1e-9, wall - prep)
    starved = [p for p in prop.NEED_PROBES if not (agg.probes.get(p) or agg.fired.get(p))]
    status = 0
    lines = []
    if agg.violations:
        for nth, found in enumerate(agg.violations[:4]):
            path, violation = report(prop, tier, seed, found)
            if path is not None:
                lines.append('VIOLATION property=%s replay=%s' % (prop.ID, path))
                status = 1
                break
            status = 2
    if status != 1 and failed is not None:
        violation = {'kind': failed.kind, 'detail': str(failed.detail), 'key': None}
        plan = {'prepare': True, 'seed': seed, 'index': 'prepare'}
        path = write_replay(prop, plan, violation, plan, os.path.join(VERIF, 'replays'))
        print('%s: the simplest use fails\n  kind: %s\n  detail: %s' % (prop.ID, failed.kind, failed.detail))
        lines.append('VIOLATION property=%s replay=%s' % (prop.ID, path))
        status = 1
    if status == 0 and agg.errors:
        print('%s: %d harness errors, first: run %s' % (prop.ID, len(agg.errors), agg.errors[0]))
        status = 2
    if agg.mismatches:
        print('%s: WARNING nondeterministic runs: %r' % (prop.ID, agg.mismatches[:10]))
    if status == 0 and starved:
        print('%s: WARNING never reached: %r' % (prop.ID, starved))
    known = known_findings()
    for key, n in sorted(agg.known.items()):
        lines.append('KNOWN-FINDING: property=%s %s (%d runs)' % (prop.ID, known[prop.ID, key], n))
    if evidence:
        doc = {
            'property': prop.ID, 'tier': tier, 'seed': seed, 'level': prop.LEVEL,
            'coverage': {
                'evaluations': agg.runs,
                'distinct_nontrivial': len(agg.nontrivial),
                'rule': prop.RULE + ' Every run is one seed (VERIF_SEED, run index). Distinct: different event logs. '
                                    'Non-trivial: at least one fault fired in it, or a context switch inside an '
                                    'operation, or the property specific condition named in its "nontrivial" probe.',
                'samples': agg.samples[:2],
                'seeds': agg.runs,
                'runs_per_hour': int(agg.runs / explore * 3600),
                'simulated_steps': agg.steps,
                'simulated_events': agg.seq,
                'simulated_seconds': agg.clock,
                'simulated_time_note': 'time in this library is logical: traced points and operation events; the '
                                       'simulated clock only advances where the code under test reads it',
                'context_switches': agg.switches,
                'context_switches_inside_operations': agg.inside,
                'distinct_interleavings': len(agg.ihashes),
                'distinct_event_logs': len(agg.loghashes),
                'interleaving_measure': 'hash of the sequence of invocations, context switches and injected faults, '
                                        'with thread and source line',
                'faults_fired': agg.fired,
                'probes': agg.probes,
                'operations': agg.opkinds,
                'never_reached': starved,
                'determinism': {'runs_executed_twice': agg.rechecked, 'different_event_logs': len(agg.mismatches)},
                'workers': nworkers,
                'real_components': list(prop.REAL),
                'stub_components': list(prop.STUB),
                'known_findings_hit': agg.known,
            },
            'assumptions': list(prop.ASSUMPTIONS) + [
                'standard library calls are atomic with respect to preemption and interrupts; the traced points are '
                'the lines (or bytecodes) of the listed real components and the simulated user code'],
            'wall_s': round(time.time() - t0, 2),
            'violations': len(agg.violations),
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop.ID + '.json'), 'w') as f:
            json.dump(doc, f, indent=1, sort_keys=True)
    print('%s: %s seed=%d runs=%d distinct-nontrivial=%d steps=%d switches=%d faults=%s wall=%.1fs (%.0f runs/s)' % (
        prop.ID, tier, seed, agg.runs, len(agg.nontrivial), agg.steps, agg.inside,
        json.dumps(agg.fired, sort_keys=True), time.time() - t0, agg.runs / explore))
    for line in lines:
        print(line)
    sys.stdout.flush()
    return status
