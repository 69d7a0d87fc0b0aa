"""Runs batches of seeds in worker processes, aggregates, reports.

Each batch runs in its own process with its own PYTHONHASHSEED, both functions
of (VERIF_SEED, batch number) only, so results do not depend on the number of
workers.
"""
import argparse
import ctypes
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

from . import core

PYTHON = sys.executable
CHECK = os.path.join(core.VERIF, 'check.py')
REPLAYS = os.path.join(core.VERIF, 'replays')
EVIDENCE = os.path.join(core.VERIF, 'evidence')
KNOWN = os.path.join(core.VERIF, 'known_findings.json')
MEMORY = 3 << 30
BATCHES = {'quick': 16, 'thorough': 128}
# after this many seconds no new run is started
SOFT_LIMIT = {'quick': 420, 'thorough': 6 * 3600}


def load_prop(pid):
    return importlib.import_module('dst.props.' + pid.lower())


def plan_for(prop, pid, seed, batch, index, tier):
    rng = core.rng_for(pid, seed, batch, index)
    return json.loads(json.dumps(prop.generate(rng, tier)))


def hashseed_for(pid, seed, batch):
    return core.rng_for('hash', pid, seed, batch).randrange(1, 2 ** 32 - 1)


# -------------------------------------------------------------------- worker

def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))


def one_run(prop, plan, scratch):
    """Fresh scratch directory, fixed global random state, one run."""
    import random
    import numpy
    if getattr(prop, 'NEEDS_SCRATCH', False):
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
    seed = int(core.digest(plan), 16)
    random.seed(seed)
    numpy.random.seed(seed % 2 ** 32)
    return core.run_plan(prop, plan, scratch)


def worker(spec):
    pid, seed, batch = spec['property'], spec['seed'], spec['batch']
    prop = load_prop(pid)
    scratch = os.path.join(spec['dir'], 'scratch%d' % batch)
    progress = open(spec['out'] + '.progress', 'w')
    total = core.Env()
    out = {'runs': 0, 'not_started': 0, 'nontrivial': [], 'samples': [],
           'violation': None, 'first': None}
    log = []
    core.load_fca()
    limit_memory()
    for index in range(spec['count']):
        if time.time() > spec['deadline']:
            out['not_started'] = spec['count'] - index
            break
        progress.seek(0)
        progress.write('%09d' % index)
        progress.flush()
        plan = plan_for(prop, pid, seed, batch, index, spec['tier'])
        env, v = one_run(prop, plan, scratch)
        out['runs'] += 1
        total.faults.update(env.faults)
        total.probes.update(env.probes)
        total.steps += env.steps
        total.ticks += env.ticks
        total.states |= env.states
        total.schedules |= env.schedules
        log.append(core.digest([env.trace, env.steps, env.ticks,
                                sorted(env.states), sorted(env.schedules),
                                sorted(env.faults.items()),
                                v and [v.kind, v.detail]]))
        if env.nontrivial:
            out['nontrivial'].append(core.digest(plan))
            if len(out['samples']) < 12:
                out['samples'].append(plan)
        if v is not None:
            finding = known_finding(pid, v)
            if finding is not None:
                out.setdefault('known', {})[finding] = 1
                continue
            small, used = core.minimise(prop, plan, v.kind, scratch)
            _, again = one_run(prop, small, scratch)
            out['violation'] = {
                'index': index, 'plan': plan, 'small': small,
                'kind': v.kind, 'detail': v.detail,
                'small_detail': again.detail if again else None,
                'minimiser_runs': used}
            break
    out['samples'] = sorted(out['samples'],
                            key=lambda p: len(json.dumps(p)))[:2]
    out['log'] = core.digest(log)
    out['faults'] = total.faults
    out['probes'] = total.probes
    out['steps'] = total.steps
    out['ticks'] = total.ticks
    out['states'] = sorted(total.states)[:200000]
    out['schedules'] = sorted(total.schedules)[:200000]
    with open(spec['out'] + '.tmp', 'w') as f:
        json.dump(out, f)
    os.rename(spec['out'] + '.tmp', spec['out'])
    shutil.rmtree(scratch, ignore_errors=True)


def worker_env(hashseed):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1',
               PYTHONPYCACHEPREFIX='/nonexistent/pycache',
               OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONUTF8='1')
    env.pop('PYTHONPATH', None)
    return env


def pin_addresses():
    """No address randomisation: hashes that depend on id() repeat as well."""
    try:
        ctypes.CDLL(None).personality(0x0040000)
    except Exception:
        pass


def start_worker(spec, hashseed):
    path = spec['out'] + '.spec'
    with open(path, 'w') as f:
        json.dump(spec, f)
    return subprocess.Popen(
        [PYTHON, '-W', 'ignore', CHECK, '--worker', path],
        env=worker_env(hashseed), stdin=subprocess.DEVNULL,
        preexec_fn=pin_addresses,
        stdout=subprocess.DEVNULL, stderr=open(spec['out'] + '.err', 'w'))


# ------------------------------------------------------------------- replays

def run_session(replay, seconds=900):
    """Replay in a fresh process: (kind, detail) of the last plan's violation,
    or None.  A dying process counts as the violation 'process died'."""
    with tempfile.TemporaryDirectory(prefix='fca-dst-') as d:
        path = os.path.join(d, 'replay.json')
        with open(path, 'w') as f:
            json.dump(replay, f)
        out = os.path.join(d, 'out.json')
        p = subprocess.Popen(
            [PYTHON, '-W', 'ignore', CHECK, '--replay-inner', path, out],
            env=worker_env(replay['hashseed']), stdin=subprocess.DEVNULL,
            preexec_fn=pin_addresses,
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        try:
            p.wait(seconds)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return 'process hangs', {}
        if os.path.exists(out):
            with open(out) as f:
                got = json.load(f)
            return (got['kind'], got['detail']) if got['kind'] else None
        if p.returncode == 3:
            raise RuntimeError('harness error while replaying')
        return 'process died', {'status': p.returncode}


def replay_inner(path, out):
    with open(path) as f:
        replay = json.load(f)
    prop = load_prop(replay['property'])
    core.load_fca()
    limit_memory()
    scratch = os.path.join(os.path.dirname(out), 'scratch')
    v = None
    for plan in replay['plans']:
        _, v = one_run(prop, plan, scratch)
    with open(out + '.tmp', 'w') as f:
        json.dump({'kind': v.kind if v else None,
                   'detail': v.detail if v else None}, f)
    os.rename(out + '.tmp', out)


def make_replay(pid, tier, seed, batch, hashseed, bad):
    """The smallest of: the minimised plan alone, the plan alone, the whole
    batch up to it - that fails in a fresh process."""
    prop = load_prop(pid)
    base = {'property': pid, 'seed': seed, 'batch': batch,
            'index': bad['index'], 'hashseed': hashseed}

    def fails(plans):
        got = run_session(dict(base, plans=plans))
        return got if got and got[0] == bad['kind'] else None

    for plans in ([bad['small']], [bad['plan']]):
        got = fails(plans)
        if got:
            return dict(base, plans=plans, kind=got[0], detail=got[1])
    plans = [plan_for(prop, pid, seed, batch, i, tier)
             for i in range(bad['index'] + 1)]
    got = fails(plans)
    if not got:
        return None
    # state left behind by earlier runs: drop what is not needed
    deadline, n = time.time() + 60, 2
    head, last = plans[:-1], plans[-1:]
    while head and time.time() < deadline:
        size = max(1, len(head) // n)
        for k in range(0, len(head), size):
            cand = head[:k] + head[k + size:]
            again = fails(cand + last)
            if again:
                head, got, n = cand, again, max(2, n - 1)
                break
            if time.time() > deadline:
                break
        else:
            if size == 1:
                break
            n *= 2
    return dict(base, plans=head + last, kind=got[0], detail=got[1])


# ------------------------------------------------------------ known findings

def known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return json.load(f)['open']


def known_finding(pid, v):
    """Index of the listed finding this violation is, if any."""
    text = json.dumps(v.detail, sort_keys=True)
    for i, k in enumerate(known()):
        if k['property'] == pid and k['kind'] == v.kind and \
                all(part in text for part in k['match']):
            return i
    return None


# ---------------------------------------------------------------------- main

CRASHES = (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL)


def explore(pid, tier, seed, runs, workers, soft):
    prop = load_prop(pid)
    nb = BATCHES[tier]
    runs = runs or prop.RUNS[tier]
    count = max(1, -(-runs // nb))
    t0 = time.time()
    deadline = t0 + soft
    results, running, todo = {}, {}, list(range(nb))
    failed, crashed = [], []
    with tempfile.TemporaryDirectory(prefix='fca-dst-') as d:
        while todo or running:
            while todo and len(running) < workers and not failed:
                b = todo.pop(0)
                spec = {'property': pid, 'tier': tier, 'seed': seed,
                        'batch': b, 'count': count, 'dir': d,
                        'deadline': deadline,
                        'out': os.path.join(d, 'b%d.json' % b)}
                running[b] = (start_worker(spec, hashseed_for(pid, seed, b)),
                              spec)
            if failed and not running:
                break
            time.sleep(0.01)
            for b in list(running):
                p, spec = running[b]
                if p.poll() is None:
                    if time.time() > deadline + 420:
                        p.kill()
                        p.wait()
                    else:
                        continue
                del running[b]
                if os.path.exists(spec['out']):
                    with open(spec['out']) as f:
                        results[b] = json.load(f)
                    if results[b]['violation']:
                        failed.append(b)
                        continue
                else:
                    with open(spec['out'] + '.err') as f:
                        err = f.read()
                    results[b] = dead_worker(pid, tier, seed, b, spec,
                                             p.returncode, err)
                    if -p.returncode in CRASHES and results[b]['violation']:
                        # the library is Python only: most likely a fault of
                        # the interpreter, met by tracing; no verdict
                        crashed.append(b)
                        if len(crashed) <= nb // 5:
                            results[b].update(
                                violation=None, probes={'interpreter crash, '
                                                        'batch given up': 1},
                                not_started=count - results[b]['runs'])
                            continue
                    failed.append(b)
        # repeat one batch: same seed, same log?
        same = None
        if not failed and 0 in results and 0 not in crashed:
            spec = {'property': pid, 'tier': tier, 'seed': seed, 'batch': 0,
                    'count': min(count, 40), 'dir': d,
                    'deadline': time.time() + 60}
            logs = []
            ps = []
            for k in range(2):
                s = dict(spec, out=os.path.join(d, 'again%d.json' % k),
                         dir=os.path.join(d, 'again%d' % k))
                os.makedirs(s['dir'])
                ps.append((start_worker(s, hashseed_for(pid, seed, 0)), s))
            for p, s in ps:
                p.wait()
                with open(s['out']) as f:
                    logs.append(json.load(f)['log'])
            same = logs[0] == logs[1]
    return results, failed, count, nb, same, time.time() - t0


def dead_worker(pid, tier, seed, batch, spec, status, err):
    """A worker that ended without a result: the code under test killed it,
    or the harness is broken."""
    try:
        with open(spec['out'] + '.progress') as f:
            index = int(f.read() or 0)
    except (OSError, ValueError):
        index = None
    empty = {'runs': index or 0, 'not_started': 0, 'nontrivial': [],
             'samples': [], 'faults': {}, 'probes': {}, 'steps': 0, 'ticks': 0,
             'states': [], 'schedules': [], 'log': '', 'violation': None}
    if 'IMPORT FAILED' in err:
        empty['broken'] = 'the library cannot be imported:\n' + err
        return empty
    if index is None or 'Traceback' in err:
        empty['broken'] = err[-3000:] or 'status %s' % status
        return empty
    plan = plan_for(load_prop(pid), pid, seed, batch, index, tier)
    empty['violation'] = {'index': index, 'plan': plan, 'small': plan,
                          'kind': 'process died', 'detail': {'status': status},
                          'small_detail': None, 'minimiser_runs': 0}
    return empty


def aggregate(results):
    t = {'runs': 0, 'not_started': 0, 'steps': 0, 'ticks': 0}
    faults, probes = Counter(), Counter()
    nontrivial, states, schedules, samples, knowns = set(), set(), set(), [], \
        set()
    for b in sorted(results):
        r = results[b]
        for k in t:
            t[k] += r[k]
        faults.update(r['faults'])
        probes.update(r['probes'])
        nontrivial.update(r['nontrivial'])
        states.update(r['states'])
        schedules.update(r['schedules'])
        samples += r['samples']
        knowns.update(r.get('known', {}))
    samples.sort(key=lambda p: len(json.dumps(p)))
    return t, faults, probes, nontrivial, states, schedules, samples, knowns


def write_evidence(pid, tier, seed, results, count, nb, same, wall,
                   violations):
    prop = load_prop(pid)
    t, faults, probes, nontrivial, states, schedules, samples, _ = \
        aggregate(results)
    coverage = {
        'evaluations': t['runs'],
        'distinct_nontrivial': len(nontrivial),
        'rule': prop.RULE,
        'samples': samples[:1] + samples[len(samples) // 2:][:1],
        'seeds': {'VERIF_SEED': seed, 'batches': len(results),
                  'runs_per_batch': count,
                  'hash_seeds': len(results),
                  'derivation': 'Random(property:VERIF_SEED:batch:index)'},
        'runs_per_hour': int(t['runs'] / max(wall, .001) * 3600),
        'operations': t['steps'],
        'simulated_time': {
            'ticks': t['ticks'] + t['steps'],
            'unit': getattr(prop, 'TICK', 'operations plus scheduler, trace and raw I/O events')
        },
        'faults_injected': dict(sorted(faults.items())),
        'probes': dict(sorted(probes.items())),
        'distinct_states': {'count': len(states),
                            'measure': getattr(prop, 'STATE',
                                               'digest of the model state')},
        'distinct_interleavings': {
            'count': len(schedules),
            'measure': getattr(prop, 'SCHEDULE',
                               'digest of the sequence of switches')},
        'real_code': prop.REAL,
        'stubs': prop.STUB,
        'runs_not_started': t['not_started'],
        'repeated_batch_log_equal': same,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    doc = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
           'coverage': coverage,
           'assumptions': getattr(prop, 'ASSUMPTIONS', []) + [
               'sampled runs: evidence, not proof'],
           'wall_s': round(wall, 3), 'violations': violations}
    tmp = os.path.join(EVIDENCE, pid + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1, ensure_ascii=True)
        f.write('\n')
    os.rename(tmp, os.path.join(EVIDENCE, pid + '.json'))
    return coverage


def check(pid, tier, seed, runs, workers, soft):
    results, failed, count, nb, same, wall = explore(pid, tier, seed, runs,
                                                     workers, soft)
    broken = [r['broken'] for r in results.values() if r.get('broken')]
    bad = [(b, results[b]['violation']) for b in sorted(results)
           if results[b]['violation']]
    coverage = write_evidence(pid, tier, seed, results, count, nb, same, wall,
                              len(bad))
    *_, knowns = aggregate(results)
    for i in sorted(knowns):
        k = known()[int(i)]
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for b, v in bad:
        replay = make_replay(pid, tier, seed, b, hashseed_for(pid, seed, b), v)
        if replay is None:
            print('not reproducible in a fresh process: %s batch %d run %d'
                  % (v['kind'], b, v['index']), file=sys.stderr)
            print(json.dumps(v, indent=1)[:4000], file=sys.stderr)
            continue
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, '%s-%d-%d-%d.json' % (
            pid, seed, b, v['index']))
        with open(path, 'w') as f:
            json.dump(replay, f, indent=1)
            f.write('\n')
        print('%s: %s' % (pid, replay['kind']))
        for k, x in (replay['detail'] or {}).items():
            print('    %s: %s' % (k, x))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if bad or broken:
        for x in broken[:2]:
            print(x, file=sys.stderr)
        return 2
    started = coverage['evaluations']
    if started < .25 * count * nb:
        print('only %d of %d runs done' % (started, count * nb),
              file=sys.stderr)
        return 2
    print('%s %s: held on %d runs (%d distinct non-trivial), %d faults, '
          '%.1f s' % (pid, tier, started, coverage['distinct_nontrivial'],
                      sum(coverage['faults_injected'].values()), wall))
    return 0


def main(argv):
    if argv[:1] == ['--worker']:
        with open(argv[1]) as f:
            spec = json.load(f)
        try:
            core.load_fca()
        except Exception:
            print('IMPORT FAILED', file=sys.stderr)
            traceback.print_exc()
            return 4
        worker(spec)
        return 0
    if argv[:1] == ['--replay-inner']:
        try:
            replay_inner(argv[1], argv[2])
        except Exception:
            traceback.print_exc()
            return 3
        return 0
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'),
                    choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--soft', type=float)
    a = ap.parse_args(argv)
    if a.replay:
        with open(a.replay) as f:
            replay = json.load(f)
        got = run_session(replay)
        if got is None:
            print('%s: does not fail' % replay['property'])
            return 0
        print('%s: %s' % (replay['property'], got[0]))
        for k, x in (got[1] or {}).items():
            print('    %s: %s' % (k, x))
        print('VIOLATION property=%s replay=%s' % (replay['property'],
                                                  a.replay))
        return 1
    print('seed %d' % a.seed)
    sys.stdout.flush()
    return check(a.property, a.tier, a.seed, a.runs, a.workers,
                 a.soft or SOFT_LIMIT[a.tier])
