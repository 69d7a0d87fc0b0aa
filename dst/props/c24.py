"""C24: incremental implication covers, minimising."""
from .. import core
from ..model import close
from ..world import Table, draw_names, draw_table, make_context, pick, \
    shrink_key, check_same_table
from .c22 import draw_imp

RUNS = {'quick': 41952, 'thorough': 335616}
RULE = ('a run delivers the examples of a table (up to 10x7) one by one in '
        'some order, some of them again, some late, to two or three covers '
        'that grow side by side in an interleaved order; after every arrival '
        'the cover\'s closures of all attribute sets are compared with those '
        'of the examples seen so far; covers, canonical bases and arbitrary '
        'lists with repetitions are minimised. Non-trivial: 5 arrivals and a '
        'minimisation that drops something')
REAL = ['fca.algorithms.implication_covers', 'closure_operators',
        'fca.Implication']
STUB = ['order of arrival']
STATE = 'digest of the closures of a cover'
LISTS = ['ops', 'extra']
shrink = shrink_key('table')


def generate(rng, tier):
    t = draw_table(rng, 10, 7, style=rng.choice(['word', 'word', 'int',
                                                 'unicode']))
    n, m = len(t['objs']), len(t['atts'])
    orders = []
    for w in range(rng.choice([1, 2, 2, 3])):
        o = list(range(n))
        rng.shuffle(o)
        for _ in range(rng.choice([0, 0, 1, 3])):
            if o:
                o.insert(rng.randrange(len(o) + 1), rng.choice(o))
        orders.append(o)
    ops = []
    queues = [[w, list(o)] for w, o in enumerate(orders)]
    while any(q for _, q in queues):
        w, q = rng.choice([x for x in queues if x[1]])
        ops.append(['arrive', w, q.pop(0)])
        if rng.random() < .1:
            ops.append(['minimise', w, rng.randrange(4)])
        if rng.random() < .05:
            ops.append(['branch', w, rng.randrange(3)])
    for w in range(len(orders)):
        ops.append(['minimise', w, rng.randrange(4)])
    if rng.random() < .5:
        ops.append(['whole', 0, rng.randrange(4)])
    if rng.random() < .5:
        ops.insert(rng.randrange(len(ops) + 1),
                   ['list', 0, rng.randrange(4)])
    extra = [draw_imp(rng, m) for _ in range(rng.randint(1, 10))] if m else []
    for _ in range(rng.choice([0, 1, 3])):
        if extra:
            extra.append(rng.choice(extra))
    return {'table': t, 'n': len(orders), 'ops': ops, 'extra': extra}


def execute(plan, env):
    fca = core.load_fca()
    from fca.algorithms import implication_covers as ic
    co = fca.algorithms.closure_operators
    t = Table.of(plan['table'])
    rows = t.rel.rows
    m = len(t.atts)
    every = (1 << m) - 1
    covers, seen = [], []
    for w in range(plan['n']):
        covers.append([fca.Implication(set(), set(t.atts))])
        seen.append([])
    dropped = arrived = 0

    def masks(cover):
        out = []
        for i in cover:
            p, c = set(i.premise), set(i.conclusion)
            env.check(p | c <= set(t.atts), 'unknown attributes in a cover',
                      implication=(p, c))
            out.append((t.amask(p), t.amask(c)))
        return out

    def closures(imps):
        return [close(s, imps) for s in range(every + 1)]

    def of_examples(examples):
        out = []
        for s in range(every + 1):
            c = every
            for r in examples:
                if r & s == s:
                    c &= r
            out.append(c)
        return out

    def judge_cover(cover, want, what):
        imps = masks(cover)
        got = closures(imps)
        if got != want:
            s = [x for x in range(every + 1) if got[x] != want[x]][0]
            env.fail('wrong closures of ' + what, set=t.aset(s),
                     answer=t.aset(got[s]), expected=t.aset(want[s]),
                     cover=cover)
        env.state(sorted(set(got)))
        # questions about single implications
        for k, (p, c) in enumerate(imps[:6]):
            rest = imps[:k] + imps[k + 1:]
            env.eq('redundancy', bool(ic.is_redundant(
                cover[k], cover[:k] + cover[k + 1:])),
                close(p, rest) & c == c, implication=cover[k], cover=cover)

    def minimised(cover, how, what):
        nonlocal dropped
        want = closures(masks(cover))
        before = len(cover)
        mine = [fca.Implication(set(i.premise), set(i.get_conclusion()))
                for i in cover]
        f = [co.simple_closure, co.lin_closure][how % 2]
        if how >= 2:
            env.call('minimize', ic.minimize, mine)
        else:
            env.call('minimize', ic.minimize, mine, f)
        judge_cover(mine, want, what)
        env.check(len(mine) <= before, 'cover grew by minimising',
                  before=before, after=mine)
        dropped += len(mine) < before
        imps = masks(mine)
        for k, (p, c) in enumerate(imps):
            rest = imps[:k] + imps[k + 1:]
            env.check(close(p, rest) & c != c, 'redundant implication left',
                      implication=mine[k], cover=mine)
            env.check(not ic.is_redundant(mine[k], mine[:k] + mine[k + 1:]),
                      'called redundant', implication=mine[k], cover=mine)
        env.probe('minimised ' + what)

    for kind, w, k in plan['ops']:
        if kind == 'arrive':
            if k >= len(rows):
                continue
            intent = t.aset(rows[k])
            if rows[k] in seen[w]:
                env.fault('example again')
            before = [(set(i.premise), set(i.conclusion)) for i in covers[w]]
            new = env.call('updated_basis', ic.updated_basis, intent,
                           covers[w], set(t.atts))
            env.eq('example afterwards', intent, t.aset(rows[k]))
            env.eq('earlier cover', [(set(i.premise), set(i.conclusion))
                                     for i in covers[w]], before)
            covers[w] = new
            imps = masks(new)
            for x, (p, c) in enumerate(imps):
                env.check(c & ~p or not m, 'implication that says nothing',
                          implication=new[x], cover=new)
                env.check(not any(j != x and q & p == q and c & d == c
                                  for j, (q, d) in enumerate(imps)),
                          'implication that follows from another one',
                          implication=new[x], cover=new)
            seen[w].append(rows[k])
            arrived += 1
            judge_cover(covers[w], of_examples(seen[w]), 'cover')
            env.probe('arrival')
        elif kind == 'branch':
            covers.append(list(covers[w]))
            seen.append(list(seen[w]))
            covers[w], covers[-1] = covers[-1], covers[w]
        elif kind == 'minimise':
            minimised(covers[w], k, 'cover')
        elif kind == 'whole':
            cxt = env.call('Context', make_context, fca, plan['table'])
            got = env.call('cover', ic.compute_implication_cover, cxt)
            judge_cover(got, of_examples(rows), 'whole cover')
            check_same_table(env, cxt, t)
            minimised(got, k, 'whole cover')
        else:
            imps = [fca.Implication({pick(t.atts, x) for x in p},
                                    {pick(t.atts, x) for x in c})
                    for p, c in plan['extra']] if m else []
            minimised(imps, k, 'list')
    env.nontrivial = arrived >= 5 and dropped > 0
