"""C26: random contexts."""
from math import comb, log

from .. import core
from ..sched import Scheduler, draw_preemptions
from ..world import check_same_table, Table

RUNS = {'quick': 1920, 'thorough': 15360}
RULE = ('a run draws sizes (also 0) and a density (also 0 and 1), seeds the '
        'random source and makes 100 to 400 contexts in a row, in a tenth of '
        'the runs from two pre-empted threads. Shapes and names are checked '
        'exactly; total, per-cell, per-row and per-column frequencies, '
        'agreement of neighbouring cells, of the same cell in consecutive '
        'contexts, and of the number of crosses with its most likely value '
        'are compared with independent drawing by a large deviation bound '
        '(chance of a false alarm below 1e-12 per test). Non-trivial: at '
        'least 500 cells and 0 < d < 1')
REAL = ['fca.make_random_context, fca.Context']
STUB = ['the random source is seeded by the plan',
        'the thread scheduler, where threads are used']
LIMIT = 33.0
ASSUMPTIONS = ['statistical: biases much smaller than the deviation bound '
               'for the number of cells drawn are not seen']


def generate(rng, tier):
    n = rng.choice([0, 1, 2, 3, 4, 5, 8, 13])
    m = rng.choice([0, 1, 2, 3, 4, 5, 8, 13])
    return {'n': n, 'm': m, 'k': rng.choice([100, 200, 400]),
            'd': rng.choice([0, 1, .5, .25, .1, .9, .3, .4, .6, .75, .02,
                             .005, .001, .125, 1 / 3, .995, .999,
                             round(rng.random(), 3), rng.random(),
                             rng.random() ** 4, 1 - rng.random() ** 4]),
            'seed': rng.getrandbits(32), 'threads': rng.random() < .1,
            'preempt': draw_preemptions(rng, 2, rng.randint(5, 60),
                                        rng.randint(5, 500)), 'ops': []}


def shrink(plan):
    for key, vals in (('n', [1, 2, 4]), ('m', [1, 2, 4])):
        for v in vals:
            if v < plan[key]:
                yield dict(plan, **{key: v})


def unlikely(hits, n, p):
    """Large deviation exponent of `hits` out of n independent trials."""
    if n == 0:
        return 0
    if p in (0, 1):
        return 0 if hits == n * p else float('inf')
    q = hits / n
    out = 0
    if q > 0:
        out += q * log(q / p)
    if q < 1:
        out += (1 - q) * log((1 - q) / (1 - p))
    return n * out


def execute(plan, env):
    import random
    fca = core.load_fca()
    n, m, d, k = plan['n'], plan['m'], plan['d'], plan['k']
    random.seed(plan['seed'])

    def many(count):
        return [fca.make_random_context(n, m, d) for _ in range(count)]
    if plan['threads']:
        s = Scheduler(env, plan['preempt'])
        for _ in range(2):
            s.spawn(lambda: many(min(k, 100)))
        cxts = []
        for status, value in s.run(0):
            if status != 'ok':
                raise value
            cxts += value
        k = len(cxts)
        env.probe('threads')
    else:
        cxts = env.call('make_random_context', many, k)
    tables = []
    for c in cxts:
        rows = [[int(x) for x in c[i]] for i in range(len(c))]
        env.eq('shape', (len(c.objects), len(c.attributes),
                         [len(r) for r in rows]), (n, m, [m] * n))
        env.check(len(set(c.objects)) == n and len(set(c.attributes)) == m,
                  'names not distinct')
        tables.append(rows)
    for c, rows in list(zip(cxts, tables))[:5]:
        check_same_table(env, c, Table(c.objects, c.attributes, rows))
    env.steps += k

    def test(what, hits, trials, p):
        env.check(unlikely(hits, trials, p) < LIMIT, 'not as requested: ' +
                  what, crosses=hits, of=trials, expected=p * trials)

    cells = [(i, j) for i in range(n) for j in range(m)]
    test('density', sum(t[i][j] for t in tables for i, j in cells),
         k * len(cells), d)
    for i, j in cells:
        test('density of one cell', sum(t[i][j] for t in tables), k, d)
    for i in range(n):
        test('density of one row', sum(sum(t[i]) for t in tables), k * m, d)
    for j in range(m):
        test('density of one column', sum(r[j] for t in tables for r in t),
             k * n, d)
    same = d * d + (1 - d) * (1 - d)

    def agreement(what, pairs):
        pairs = list(pairs)
        test(what, sum(a == b for a, b in pairs), len(pairs), same)
    agreement('cells next to each other agree',
              ((t[i][j], t[i][j + 1]) for t in tables for i in range(n)
               for j in range(0, m - 1, 2)))
    agreement('cells below each other agree',
              ((t[i][j], t[i + 1][j]) for t in tables for j in range(m)
               for i in range(0, n - 1, 2)))
    agreement('first and last row agree',
              ((t[0][j], t[-1][j]) for t in tables for j in range(m) if n > 1))
    agreement('first and last column agree',
              ((t[i][0], t[i][-1]) for t in tables for i in range(n) if m > 1))
    agreement('mirrored cells agree',
              ((t[i][j], t[j][i]) for t in tables for i in range(min(n, m))
               for j in range(i)))
    agreement('consecutive contexts agree',
              ((a[i][j], b[i][j]) for a, b in zip(tables[::2], tables[1::2])
               for i, j in cells))
    if cells:
        c = len(cells)
        h = int((c + 1) * d) if d < 1 else c
        p = comb(c, h) * d ** h * (1 - d) ** (c - h)
        test('number of crosses most likely', sum(
            sum(map(sum, t)) == h for t in tables), k, p)
        p0 = (1 - d) ** c
        test('empty tables', sum(not any(map(any, t)) for t in tables), k, p0)
        full = d ** c
        test('full tables', sum(all(map(all, t)) for t in tables), k, full)
    env.state(n, m, d)
    env.nontrivial = k * len(cells) >= 500 and 0 < d < 1
