"""C17: a save that returns is complete; one that fails says so and is over."""
import gc
import os

from .. import core, storage
from ..simfs import SimDisk, draw_disk_for

RUNS = {'quick': 10752, 'thorough': 86016}
RULE = ('a run takes one data set and one of the nine writers, saves it once '
        'undisturbed counting raw I/O events, and then repeats the save with '
        'a fault at a drawn event, 14 times: open, write or close failing once or from then on, with an '
        'errno and a part of the data drawn, or a machine whose text encoding '
        'lacks some of the names. A faulty save must raise and '
        'leave no file open while the error is still being handled; then the '
        'fault is gone, the same save to the same path must be complete, and '
        'the file must not change any more once everything is collected. '
        'Non-trivial: at least one fault struck a write')
REAL = ['fca.readwrite writers', "Python's buffered and text I/O, codecs, "
        'minidom']
STUB = ['raw file layer (SimDisk)']
NEEDS_SCRATCH = True
TICK = 'raw I/O events and operations'
STATE = 'digest of data, writer and fault'
LISTS = ['faults']
WRITERS = storage.SAVED + storage.EXPORTS


def generate(rng, tier):
    kind = rng.choice(WRITERS)
    d = storage.draw_data(rng, kind, rng.random() < .3)
    if kind in ('dot', 'udot', 'udotfull') and len(d['objs']) > 5:
        d['objs'], d['rows'] = d['objs'][:5], d['rows'][:5]
    disk = dict(draw_disk_for(rng, d), read_chunks=[])
    if disk['write_chunks'] == [1] and rng.random() < .7:
        disk['write_chunks'] = [rng.randint(5, 90)]
    return {'disk': disk, 'data': d,
            'faults': [[rng.choice(['open', 'write', 'write', 'write', 'write+',
                                    'write+', 'close', 'close']),
                        rng.randrange(1 << 16),
                        rng.choice(['ENOSPC', 'EIO', 'EDQUOT', 'torn']),
                        rng.random(), rng.random() < .5]
                       for _ in range(14)] +
            [['machine', 0, rng.choice(storage.LOCALES[:4]), 0,
              rng.random() < .5]]}


def shrink(plan):
    import json
    if plan['disk'] != {}:
        yield dict(plan, disk={})
    from .c16 import shrink as by_data
    p = dict(plan, old=None)
    for q in by_data(p):
        q = {k: v for k, v in q.items() if k != 'old'}
        if q['disk'] == plan['disk']:
            yield q


def execute(plan, env):
    fca = core.load_fca()
    if gc.get_freeze_count() < 5000:
        gc.freeze()         # what is loaded need not be looked at each time
    d = plan['data']
    obj = env.call('make', storage.make, fca, d)
    before = storage.same_after(d, obj)
    path = os.path.join(env.scratch, 'target')
    with SimDisk(env.scratch, env, plan['disk']) as disk:
        def complete(label):
            env.call('save ' + label, storage.save, fca, d, obj, path)
            env.check(not disk.leaked(), 'file still open after a save',
                      files=disk.leaked(), writer=d['kind'])
            keep = disk.late_writes
            storage.judge_saved(env, fca, d, obj, path, label)
            env.eq('object after saving it', storage.same_after(d, obj),
                   before)
            return keep

        disk.arm([])
        complete('undisturbed')
        counts = dict(disk.counts)
        hit = 0
        for op, at, what, frac, over in plan['faults']:
            if op == 'machine':
                disk.arm([])
                disk.locale = what
                ok, e = env.attempt(storage.save, fca, d, obj, path)
                env.check(not disk.leaked(), 'file left open by a failed save'
                          if not ok else 'file still open after a save',
                          files=disk.leaked(), error=e, writer=d['kind'])
                if ok:
                    # then nothing was lost
                    if d['kind'] not in storage.FIXED:
                        with open(path, 'rb') as f:
                            lost = f.read().decode(what)
                        with open(path, 'wb') as f:
                            f.write(lost.encode('utf-8'))
                    disk.locale = 'utf-8'
                    storage.judge_saved(env, fca, d, obj, path, 'on another '
                                        'machine')
                else:
                    env.check(d['kind'] not in storage.FIXED and
                              not storage.encodable(d, what),
                              'save fails on another machine', encoding=what,
                              error=e, writer=d['kind'])
                    env.fault('names that cannot be written')
                disk.locale = 'utf-8'
                kept = e if not ok else None
                complete('after a failed one')
                del kept
                continue
            base = op.rstrip('+')
            n = counts.get(base, 0)
            if not n:
                continue
            if not over and os.path.exists(path):
                os.unlink(path)
            if what == 'torn' and base != 'write':
                what = 'EIO'
            disk.sealed = set()
            disk.arm([[op, 1 + at % n, what, frac]])
            try:
                storage.save(fca, d, obj, path)
            except core.Violation:
                raise
            except Exception as e:
                fired = bool(disk.fired)
                env.check(fired, 'save failed without a fault', error=e)
                leaked = disk.leaked()
                env.check(not leaked, 'file left open by a failed save',
                          files=leaked, error=e, writer=d['kind'])
                env.probe('failure reported')
                hit += base == 'write'
                kept = e            # somebody still looks at the error
            else:
                kept = None
                if disk.fired:
                    env.fail('failed %s not reported' % base, fault=what,
                             writer=d['kind'], at=at % n)
            env.state(d['kind'], op, at % n, what)
            # the fault is gone
            disk.arm([])
            complete('after a failed one')
            with open(path, 'rb') as f:
                content = f.read()
            disk.sealed = {os.path.realpath(path)}
            disk.late_writes = []
            kept = None
            gc.collect()
            with open(path, 'rb') as f:
                env.eq('content once the failed attempt is collected',
                       f.read(), content)
            env.check(not disk.late_writes, 'late write by a failed save',
                      writes=disk.late_writes)
            disk.sealed = set()
    env.nontrivial = hit > 0
