"""C20: interest indices, annotations, filtering."""
from .. import core
from ..queries import (INDICES, index_function, index_values, judge_index,
                       judge_lattice, show_lattice)
from ..world import check_same_table, draw_names, draw_rich, draw_rows, draw_table, \
    history, make_context, shrink_key, Table

RUNS = {'quick': 17952, 'thorough': 150000}
RULE = ('a run has up to 2 lattices (up to 6x6, sometimes 70 objects or '
        'attributes on a few others) and a history of up to 14 operations: '
        'indices computed, lattices annotated (repeatedly, under old and new '
        'names, by functions that fail), filtered by number, value and share, '
        'order queries. Indices are compared with their definitions, after '
        'every operation the lattice is compared with the order by '
        'definition and its annotations with those made; filters with the '
        'ranking by the defined values. Non-trivial: an annotation and a '
        'filter or a second index')
REAL = ['fca.algorithms.filtering', 'ConceptLattice, ConceptSystem, Concept',
        'norris']
STUB = ['failing index functions']
STATE = 'digest of table and annotations'
shrink = shrink_key('a', 'b')


LABELS = {'istability': 'Intensional stability',
          'estability': 'Extensional stability',
          'separation': 'Separation index', 'probability': 'Probability index',
          'extent_size': 'Extent size', 'intent_size': 'Intent size'}


def draw_wide(rng):
    n, m = rng.randint(30, 70), rng.randint(1, 4)
    t = {'objs': draw_names(rng, n, 'word'), 'atts': draw_names(rng, m, 'word'),
         'rows': draw_rows(rng, n, m)}
    if rng.random() < .5:
        t = Table.of(t).transposed().as_plan()
    return t


def generate(rng, tier):
    plan = {}
    for k in 'ab':
        plan[k] = draw_wide(rng) if rng.random() < .12 else \
            draw_table(rng, 6, 6, min_n=1, min_m=1, sortable=False)
        if rng.random() < .004:
            plan[k] = draw_rich(rng, 6, 7)
    plan['ops'] = [[rng.choice(['index', 'annotate', 'annotate', 'filter',
                                'filter', 'order', 'fail']),
                    rng.choice(INDICES), rng.randrange(2),
                    rng.choice(['part', 'abs', 'value']),
                    rng.choice([rng.random(), rng.random(), 0, 1, .5,
                                rng.randint(0, 12)]), rng.randrange(8)]
                   for _ in range(history(rng, 2, 14))]
    return plan


def show(c):
    return [sorted(map(str, x)) for x in c]


def key(c):
    return (frozenset(c.extent), frozenset(c.intent))


def execute(plan, env):
    fca = core.load_fca()
    ts = [Table.of(plan[k]) for k in 'ab']
    cxts = [make_context(fca, plan[k]) for k in 'ab']
    if any(not t.objs or not t.atts for t in ts):
        return
    cls = [env.call('lattice', fca.ConceptLattice, c) for c in cxts]
    metas = [{key(c): {} for c in cl} for cl in cls]
    keyed = [{c: key(c) for c in cl} for cl in cls]     # found again later?
    values, done = {}, set()

    def value(w, name):
        if (w, name) not in values:
            values[w, name] = index_values(ts[w], name)
        return values[w, name]

    for kind, name, w, mode, opt, k in plan['ops']:
        t, cl = ts[w], cls[w]
        f = index_function(fca, name)
        if k in (2, 5):
            # as a program offers it to its user
            offered = env.call('offered', fca.algorithms.filtering.
                               get_compute_functions)
            env.check(LABELS[name] in offered, 'index not offered', name=name)
            f = offered[LABELS[name]]
            env.eq('filter modes offered', sorted(
                fca.algorithms.filtering.get_modes()), ['abs', 'part',
                                                        'value'])
        if kind == 'index':
            got = env.call(name, f, cl)
            judge_index(env, t, name, {key(c): v for c, v in got.items()})
            env.probe('index ' + name)
        elif kind in ('annotate', 'fail'):
            label = name if k < 6 else 'other name'
            if kind == 'fail':
                def bad(lattice):
                    raise core.fault(int(opt * 100), 'index function fails')
                e = env.refused('failing index', fca.compute_index, cl, bad,
                                label)
                env.check(isinstance(e, core.SimulatedFault), 'failure replaced', error=e)
                env.fault('index function fails')
            else:
                env.call('annotate', fca.compute_index, cl, f, label)
                for c, v in value(w, name).items():
                    metas[w][c][label] = v
                env.probe('annotated ' + name)
        elif kind == 'filter':
            if mode == 'abs':
                opt = int(opt) if opt >= 1 else k
            elif mode == 'value' and k % 2:
                opt = sorted(value(w, name).values())[k % len(value(w, name))]
            elif opt > 1:
                opt = opt / 12
            own = {key(c): v for c, v in env.call(name, f, cl).items()}
            if mode == 'value' and k % 4 == 1:
                # one of the library's own values, to the last digit
                opt = sorted(own.values())[int(opt * 7) % len(own)]
            if k == 6:
                # what is left out counts as 1
                opt = 1
                got = env.call('filter', fca.filter_concepts, cl, f, mode)
            else:
                got = env.call('filter', fca.filter_concepts, cl, f, mode,
                               opt)
            judge_filter(env, value(w, name), [key(c) for c in got], mode, opt)
            if mode == 'value':
                judge_index(env, t, name, own)
                env.eq('filter by value',
                       sorted(show(key(c)) for c in got),
                       sorted(show(c) for c, v in own.items() if v >= opt),
                       value=opt, values=own)
            for c in got:
                env.check(c in cl, 'filtered concept not in the lattice')
            env.probe('filtered by ' + mode)
        done.add((kind, name))
        for w2, cl2 in enumerate(cls):
            small = len(cl2) <= 40
            if small or w2 == w:
                judge_lattice(env, ts[w2], show_lattice(cl2))
            for c in cl2:
                env.check(keyed[w2].get(c) == key(c),
                          'concept not found where it was', concept=key(c))
                got = dict(c.meta)
                want = metas[w2][key(c)]
                env.eq('annotation names', sorted(got), sorted(want))
                for n, v in want.items():
                    env.check(abs(got[n] - v) < 1e-9, 'wrong annotation',
                              name=n, got=got[n], want=v, concept=key(c))
            check_same_table(env, cxts[w2], ts[w2])
        env.state(ts[w].rows, sorted(done))
    kinds = [d[0] for d in done]
    env.nontrivial = 'annotate' in kinds and ('filter' in kinds or
                                              len(kinds) > 2)


def judge_filter(env, values, got, mode, opt):
    env.check(len(set(got)) == len(got), 'concept returned twice', got=got)
    env.check(set(got) <= set(values), 'unknown concept returned')
    v = [values[c] for c in got]
    rest = [x for c, x in values.items() if c not in set(got)]
    ranked = sorted(values.values(), reverse=True)
    tol = 1e-9
    # never a worse one instead of a better one
    env.check(not v or not rest or min(v) >= max(rest) - tol,
              'a better concept was left out', mode=mode, opt=opt,
              returned=sorted(v), left=sorted(rest))
    if mode == 'value':
        env.check(all(x >= opt - tol for x in v) and
                  all(x < opt + tol for x in rest),
                  'wrong filter by value', value=opt, returned=sorted(v),
                  left=sorted(rest))
    elif mode == 'abs':
        env.eq('number of concepts', len(got), min(opt, len(values)))
    else:
        n = int(len(values) * opt)
        env.check(len(got) >= n, 'fewer than the requested share', got=len(got),
                  share=opt, all=len(values))
        if len(got) > n:
            # only those as good as the best one left over, within the last gap
            eps = ranked[n - 2] - ranked[n - 1] if n >= 2 else 0
            # (values equal but for rounding may count as such a gap)
            env.check(all(x > ranked[n] - eps - tol for x in v) and n >= 2,
                      'more than the requested share', got=len(got), share=opt,
                      all=len(values))
