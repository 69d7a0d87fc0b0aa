"""C15: saved data load back identical."""
import os

from .. import core, storage
from ..simfs import SimDisk, draw_disk_for
from ..world import history

RUNS = {'quick': 29952, 'thorough': 239616}
RULE = ('a run is a disk that splits reads and writes in a drawn way (chunks '
        'from one byte up, small buffers, small text chunks), a text encoding '
        'of the machine that may change from call to call, and a history of '
        'up to 10 saves, overwrites and loads over up to 3 paths, of contexts '
        '(two cxt variants), many-valued contexts (two variants), concept '
        'systems with annotations, and of documents in the five load-only '
        'text formats written by the simulator; names include code, '
        'near-literals, numbers, unicode and markup. Every load is compared '
        'with what was saved last under that path; the saved objects must be '
        'unchanged; some names leave a trace when executed. Non-trivial: 2 loads '
        'and a split read or write')
REAL = ['fca.readwrite (cxt, tab_separated, comma_separated, xml_)',
        'fca.Context, ManyValuedContext, ConceptSystem, Concept',
        "Python's buffered and text I/O, csv, expat"]
STUB = ['raw file layer (SimDisk)']
NEEDS_SCRATCH = True
TICK = 'raw I/O events and operations'
STATE = 'digest of the data saved'


def generate(rng, tier):
    ops = []
    for _ in range(history(rng, 2, 10)):
        kind = rng.choice(storage.SAVED * 2 + storage.DOCS)
        ops.append([rng.randrange(3), storage.draw_data(
            rng, kind, rng.random() < .1), rng.choice([1, 1, 1, 2, 0]),
            rng.randrange(3), rng.choice(['utf-8'] * 7 + storage.LOCALES)])
    return {'disk': draw_disk_for(rng, *[op[1] for op in ops]), 'ops': ops}


def shrink(plan):
    import json
    for d in ({}, {'read_chunks': [1]}, {'write_chunks': [1]}):
        if plan['disk'] != d:
            yield dict(plan, disk=d)
    for x, op in enumerate(plan['ops']):
        d = op[1]
        if d['kind'] == 'xml':
            for i in range(len(d['concepts'])):
                p = json.loads(json.dumps(plan))
                del p['ops'][x][1]['concepts'][i]
                yield p
            continue
        for i in range(len(d['objs'])):
            p = json.loads(json.dumps(plan))
            del p['ops'][x][1]['objs'][i], p['ops'][x][1]['rows'][i]
            yield p
        for j in range(len(d['atts'])):
            p = json.loads(json.dumps(plan))
            del p['ops'][x][1]['atts'][j]
            for r in p['ops'][x][1]['rows']:
                del r[j]
            yield p


def execute(plan, env):
    with SimDisk(env.scratch, env, plan['disk']) as disk:
        session(plan, env, env.scratch, disk)


def session(plan, env, home, disk=None):
    """The history of one party that keeps its files in `home`."""
    fca = core.load_fca()
    loads = 0
    current, written = {}, {}
    storage.executed()
    for slot, d, times, how, *machine in plan['ops']:
        path = os.path.join(home, 'file%d' % slot)
        kind = d['kind']
        machine = machine[0] if machine and disk is not None else 'utf-8'
        if disk is not None:
            disk.locale = machine
        if kind in storage.DOCS:
            with open(path, 'wb') as f:
                f.write(storage.document(d).encode('utf-8'))
            machine = 'utf-8'
        else:
            obj = env.call('make ' + kind, storage.make, fca, d)
            before = storage.shown(kind, obj)
            if kind not in storage.FIXED and not storage.encodable(d, machine):
                # this machine has no way of writing such names
                ok, _ = env.attempt(storage.save, fca, d, obj, path)
                if not ok:
                    env.probe('names this machine cannot write')
                    env.eq('object after a failed save',
                           storage.shown(kind, obj), before)
                    current.pop(slot, None)
                    continue
            else:
                env.call('save ' + kind, storage.save, fca, d, obj, path)
            env.eq('object after saving it', storage.shown(kind, obj), before)
        current[slot] = d
        written[slot] = machine
        env.state(d)
        for s in [slot] * times + ([how] if how in current else []):
            dd = current[s]
            p = os.path.join(home, 'file%d' % s)
            if disk is not None and dd['kind'] not in storage.FIXED:
                # read where it was written, or on a machine alike
                disk.locale = written[s]
            got = env.call('load ' + dd['kind'], storage.load, fca, dd, p,
                           how)
            if disk is not None:
                disk.locale = machine
            env.check(not storage.executed(), 'a name was executed while '
                      'loading ' + dd['kind'], data=dd)
            env.eq('data loaded from ' + dd['kind'], got,
                   storage.expected(dd), disk=plan.get('disk'))
            env.probe('loaded ' + dd['kind'])
            loads += 1
    env.nontrivial = loads >= 2 and bool(env.faults['short read'] or
                                         env.faults['short write'])
