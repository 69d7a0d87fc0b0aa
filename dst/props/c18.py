"""C18: exported diagrams and transaction files say what the data say."""
import os

from .. import core, storage
from ..edits import apply_edit, draw_edit
from ..simfs import SimDisk, draw_disk_for
from ..world import check_same_table, draw_rich, history, make_context, Table

RUNS = {'quick': 24000, 'thorough': 192000}
RULE = ('a run is up to 3 tables, a disk splitting the I/O, and a history of '
        'up to 10 exports (diagram, utf-8 diagram short and full, '
        'transactions) to few paths, of fresh and of earlier exported and '
        'annotated lattices in any order. Each exported text is parsed '
        'independently and compared with concepts, covering relation and own '
        'objects and attributes by definition; exporting leaves the data '
        'unchanged. Set order varies with the names and the hash seed of the '
        'batch. Non-trivial: 2 exports, one of them a diagram with 3 concepts')
REAL = ['fca.readwrite.dot, fimi', 'ConceptLattice, ConceptSystem', 'norris',
        "Python's text I/O"]
STUB = ['raw file layer (SimDisk)']
NEEDS_SCRATCH = True
TICK = 'raw I/O events and operations'
STATE = 'digest of exported tables'


def generate(rng, tier):
    tables = []
    for _ in range(rng.randint(1, 3)):
        d = storage.draw_data(rng, 'dot')
        while any(any(c.isspace() for c in str(x)) for x in
                  d['objs'] + d['atts']):
            d = storage.draw_data(rng, 'dot')
        if rng.random() < .3:
            # many equal rows: long label lists
            n = rng.randint(5, 12)
            d['objs'] = storage.draw_distinct(rng, 'fimi', n)
            r = [int(rng.random() < .5) for _ in d['atts']]
            d['rows'] = [list(r) if rng.random() < .8 else
                         [int(rng.random() < .5) for _ in d['atts']]
                         for _ in range(n)]
            d['objs'] = [o for o in d['objs']]
            if any(not storage.ok_name('dot', str(o)) for o in d['objs']):
                d['objs'] = ['o%d' % i for i in range(n)]
            if rng.random() < .5:
                k = rng.randint(5, 10)
                d['atts'] = d['atts'] + ['z%d~' % j for j in range(k)]
                d['rows'] = [x + [x[0] if x and rng.random() < .9 else 0] * k
                             for x in d['rows']]
        if rng.random() < .006:
            r = draw_rich(rng, 5, 7)
            d = dict(r, objs=['o%d' % i for i in range(len(r['objs']))],
                     atts=['a%d' % i for i in range(len(r['atts']))])
        tables.append({k: d[k] for k in ('objs', 'atts', 'rows',
                                                    'huge') if k in d})
    return {'disk': dict(draw_disk_for(rng, *tables), locale=rng.choice(
        [None] + storage.LOCALES)), 'tables': tables,
            'ops': [[rng.randrange(3), rng.choice(storage.EXPORTS),
                     rng.randrange(3), rng.randrange(4)]
                    for _ in range(history(rng, 2, 10))]}


def shrink(plan):
    import json
    from ..world import shrink_table
    if plan['disk']:
        yield dict(plan, disk={})
    for x, t in enumerate(plan['tables']):
        for s in shrink_table(t):
            p = json.loads(json.dumps(plan))
            p['tables'][x] = s
            yield p


def execute(plan, env):
    with SimDisk(env.scratch, env, plan['disk']) as disk:
        session(plan, env, env.scratch, disk)


def session(plan, env, home, disk=None):
    fca = core.load_fca()
    exports = big = 0
    cxts = [make_context(fca, t) for t in plan['tables']]
    lattices = {}
    for which, kind, slot, how in plan['ops']:
        which %= len(cxts)
        t = Table.of(plan['tables'][which])
        d = dict(plan['tables'][which], kind=kind)
        if any(not storage.ok_name(kind, str(x)) for x in
               t.objs + t.atts):
            continue
        path = os.path.join(home, 'export%d' % slot)
        if kind == 'fimi':
            obj = cxts[which]
        else:
            obj = lattices.get(which)
            if obj is None or how == 0:
                obj = lattices[which] = env.call(
                    'lattice', fca.ConceptLattice, cxts[which])
            if how == 1:
                for c in obj:
                    c.meta['note'] = len(c.extent)
            big += len(obj) >= 3
        if disk is not None:
            # formats with an encoding of their own do not care
            disk.locale = plan['disk'].get('locale') or 'utf-8' \
                if kind in storage.FIXED else 'utf-8'
        before = storage.same_after(d, obj)
        env.call('export ' + kind, storage.save, fca, d, obj, path)
        env.eq('data after exporting', storage.same_after(d, obj), before)
        storage.judge_saved(env, fca, d, obj, path, '(%s)' % kind)
        check_same_table(env, cxts[which], t)
        env.state(kind, d)
        env.probe('exported ' + kind)
        exports += 1
    env.nontrivial = exports >= 2 and big > 0
