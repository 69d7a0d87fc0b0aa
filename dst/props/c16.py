"""C16: a file cut short never loads as different data."""
import os

from .. import core, storage
from ..simfs import Crash, SimDisk, draw_disk_for

RUNS = {'quick': 13152, 'thorough': 105216}
RULE = ('a run saves one data set (cxt, its utf-8 variant, XML), perhaps over '
        'an earlier one, and then either the process crashes at a drawn open, '
        'write or close with a drawn part of that write on disk, or the '
        'stored file is truncated (every length when it is short, else 60 '
        'drawn lengths), or reading it meets an error or an early end of '
        'data at a drawn read. Whatever can then be loaded is the data being '
        'saved (after a crash also the earlier data), anything else is an '
        'error; a load that does not end is a hang. Non-trivial: something '
        'was really cut off or failed, and loading was tried')
REAL = ['fca.readwrite (cxt, xml_)', 'fca.Context, ConceptSystem, Concept',
        "Python's buffered and text I/O, expat"]
STUB = ['raw file layer (SimDisk)', 'process crash']
NEEDS_SCRATCH = True
TICK = 'raw I/O events and operations'
STATE = 'digest of the remains loaded'
LISTS = ['cuts']
KINDS = ['cxt', 'cxt', 'ucxt', 'xml']


def generate(rng, tier):
    kind = rng.choice(KINDS)
    d = storage.draw_data(rng, kind, rng.random() < .25)
    how = rng.choice(['crash', 'truncate', 'truncate', 'read', 'read'])
    old = storage.draw_data(rng, kind, rng.random() < .4) \
        if rng.random() < .5 else None
    return {'disk': dict(draw_disk_for(rng, d, old), locale=rng.choice(
        [None] + storage.LOCALES) if kind in storage.FIXED else None),
        'data': d, 'old': old, 'mode': how,
            'cuts': [[rng.choice(['open', 'write', 'write', 'write', 'close']),
                      rng.randrange(1 << 16), rng.random()]
                     for _ in range(8)] if how == 'crash' else
            [[rng.choice(['EIO', 'EIO', 'eof', 'EIO+', 'open']),
              rng.randrange(1 << 16), rng.random()] for _ in range(8)]
            if how == 'read' else
            [['cut', rng.randrange(1 << 20), 0] for _ in range(60)],
            'all': True}


def execute(plan, env):
    fca = core.load_fca()
    d, old = plan['data'], plan['old']
    path = os.path.join(env.scratch, 'file')
    kind = d['kind']
    obj = env.call('make', storage.make, fca, d)
    want = storage.expected(d)
    with SimDisk(env.scratch, env, plan['disk']) as disk:
        def put(x, o):
            env.call('save', storage.save, fca, x, o, path)

        def remains(allowed, label):
            ok, got = env.attempt(storage.load, fca, d, path)
            env.state(kind, repr(got) if ok else 'error')
            if ok:
                env.probe('remains loaded')
                env.check(any(got == w for w in allowed),
                          'other data loaded after ' + label, kind_=kind,
                          loaded=got, saved=want)
            else:
                env.probe('remains refused')

        put(d, obj)
        with open(path, 'rb') as f:
            full = f.read()
        disk.arm([])
        if plan['mode'] == 'truncate':
            cuts = range(len(full)) if len(full) <= 260 and plan['all'] else \
                sorted({c[1] % (len(full) + 1) for c in plan['cuts']} |
                       {max(0, len(full) - k) for k in range(1, 6)})
            for k in cuts:
                with open(path, 'wb') as f:
                    f.write(full[:k])
                env.fault('truncated file')
                remains([want], 'truncation to %d of %d bytes' % (k, len(full))
                        if not plan['all'] else 'truncation')
            env.nontrivial = len(full) > 0
        elif plan['mode'] == 'crash':
            # how many events of each kind does an undisturbed save have?
            disk.arm([])
            put(d, obj)
            counts = dict(disk.counts)
            allowed = [want]
            for op, at, frac in plan['cuts']:
                disk.restart()
                if os.path.exists(path):
                    os.unlink(path)
                allowed = [want]
                if old is not None:
                    put(old, storage.make(fca, old))
                    allowed.append(storage.expected(old))
                n = max(1, counts.get(op, 1))
                disk.arm([[op, 1 + at % n, 'crash', frac]])
                try:
                    storage.save(fca, d, obj, path)
                except Crash:
                    env.probe('crashed')
                disk.restart()
                if not os.path.exists(path):
                    env.probe('nothing there after the crash')
                remains(allowed, 'a crash during ' + op)
            env.nontrivial = env.probes['crashed'] > 0
        else:
            disk.arm([])
            env.eq('data loaded', storage.load(fca, d, path), want)
            n = max(1, disk.counts.get('read', 1))
            for what, at, frac in plan['cuts']:
                at = 1 + at % n
                if what == 'eof':
                    disk.arm([['read+', at, 'eof']])
                elif what == 'open':
                    disk.arm([['open', 1, 'EMFILE']])
                elif what == 'EIO+':
                    disk.arm([['read+', at, 'EIO']])
                else:
                    disk.arm([['read', at, 'EIO']])
                ok, got = env.attempt(storage.load, fca, d, path)
                if ok:
                    env.check(got == want, 'other data loaded after a read '
                              'fault', fault=what, at=at, loaded=got, saved=want)
                    env.probe('read fault harmless')
                else:
                    env.probe('read fault reported')
                del got
                disk.arm([])
                env.eq('data loaded after the fault',
                       env.call('load again', storage.load, fca, d, path), want)
            env.nontrivial = bool(disk.fired) or env.probes[
                'read fault reported'] > 0


def shrink(plan):
    import json
    for disk in ({},):
        if plan['disk'] != disk:
            yield dict(plan, disk=disk)
    if plan['old'] is not None:
        yield dict(plan, old=None)
    d = plan['data']
    if d['kind'] == 'xml':
        for i in range(len(d['concepts'])):
            p = json.loads(json.dumps(plan))
            del p['data']['concepts'][i]
            yield p
        return
    for i in range(len(d['objs'])):
        p = json.loads(json.dumps(plan))
        del p['data']['objs'][i], p['data']['rows'][i]
        yield p
    for j in range(len(d['atts'])):
        p = json.loads(json.dumps(plan))
        del p['data']['atts'][j]
        for r in p['data']['rows']:
            del r[j]
        yield p
