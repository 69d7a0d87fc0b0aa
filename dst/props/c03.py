"""C03: concept enumeration, lattices and concept systems."""
from .. import core
from ..edits import apply_edit, draw_edit
from ..queries import (CONCEPTS, ask, draw_query, judge, judge_concepts,
                       prepare, show_lattice, judge_lattice)
from ..world import choose, draw_rich, draw_table, history, make_context, shrink_key, \
    swarm, Table

RUNS = {'quick': 41568, 'thorough': 332544}
RULE = ('a run is a start table and a history of edits, whole enumerations, '
        'lattice queries in random order, concept systems that concepts are '
        'appended to and removed from, and step-by-step enumerations of the '
        'same and of a second context advanced in a drawn interleaving and '
        'abandoned; every answer is compared with the intersections of rows '
        'and the inclusion order. Non-trivial: at least 3 judged answers and '
        'more than 4 concepts in one of them')
REAL = ['norris, iterative_norris', 'ConceptLattice', 'ConceptSystem',
        'Concept', 'fca.Context']
STUB = ['the caller']
SCHEDULE = 'digest of the order in which suspended enumerations advance'
shrink = shrink_key('table', 'other')


def generate(rng, tier):
    wide = rng.random() < .05
    t = draw_table(rng, 7, 66 if wide else 7, sortable=False,
                   tall=0 if wide else .03)
    if rng.random() < .01:
        t = draw_rich(rng)
    o = draw_table(rng, 5, 5, sortable=False)
    if rng.random() < .3:
        o = dict(t)                         # equal content, another context
    ops = []
    if rng.random() < .5:
        ops = [['open', rng.randrange(3)] for _ in range(rng.randint(2, 3))]
    mix = swarm(rng, {'edit': 25, 'ask': 25, 'open': 14, 'next': 50, 'drop': 4,
                      'lattice': 6, 'system': 8})
    for _ in range(history(rng, 4, 18)):
        k = choose(rng, mix)
        if k == 'edit':
            ops.append(['edit', draw_edit(rng, t['objs'], t['atts'], .1)])
        elif k == 'ask':
            ops.append(['ask', draw_query(rng, CONCEPTS)])
        elif k == 'open':
            ops.append(['open', rng.randrange(3)])
        elif k == 'next':
            ops.append(['next', rng.randrange(8), rng.randint(1, 3)])
        elif k == 'drop':
            ops.append(['drop', rng.randrange(8)])
        elif k == 'lattice':
            ops.append(['lattice', rng.randrange(3)])
        else:
            ops.append(['system', rng.getrandbits(30),
                        [[rng.choice(['append', 'append', 'remove', 'parents',
                                      'children', 'filter', 'ideal', 'top',
                                      'bottom', 'contains', 'index',
                                      'notconcept', 'foreign']), rng.randrange(40)]
                         for _ in range(rng.randint(3, 14))]])
    if rng.random() < .04:
        t = dict(t, scale=True)
    return {'table': t, 'other': o, 'ops': ops, 'wide': wide}


def key(c):
    return frozenset(c.extent), frozenset(c.intent)


def order_of(cs):
    """parents, children, up, down per concept key by inclusion of intents."""
    out = {}
    for c in cs:
        up = {d for d in cs if d[1] < c[1]}
        down = {d for d in cs if d[1] > c[1]}
        out[c] = ({d for d in up if not any(d[1] < e[1] for e in up)},
                  {d for d in down if not any(d[1] > e[1] for e in down)},
                  up, down)
    return out


def concept_system(env, fca, cxt, t, op):
    pool = env.call('concepts', lambda: cxt.concepts)
    keys = [key(c) for c in pool]
    start = [c for i, c in enumerate(pool) if op[1] >> (i % 30) & 1]
    handed = list(start)
    cs = env.call('ConceptSystem', fca.ConceptSystem, handed)
    model = [key(c) for c in start]
    for what, i in op[2]:
        c = pool[i % len(pool)]
        k = keys[i % len(pool)]
        if what == 'append':
            if k in model:
                continue
            env.call('append', cs.append, c)
            model.append(k)
        elif what == 'notconcept':
            env.refused('append', cs.append, (c.extent, c.intent))
            env.fault('refused append')
        elif what == 'remove':
            # an equal concept will do
            twin = fca.Concept(c.extent, c.intent)
            if k in model:
                env.call('remove', cs.remove, twin)
                model.remove(k)
            else:
                env.refused('remove', cs.remove, twin)
        elif what in ('parents', 'children', 'filter', 'ideal'):
            if k not in model:
                continue
            got = env.call(what, getattr(cs, what), c)
            got = [key(x) for x in got]
            pos = ['parents', 'children', 'filter', 'ideal'].index(what)
            env.check(len(set(got)) == len(got), 'repeated in ' + what)
            env.eq(what + ' in a concept system', set(got),
                   order_of(model)[k][pos], concept=k, system=model)
        elif what in ('top', 'bottom') and model:
            got = key(env.call(what, getattr, cs, what + '_concept'))
            side = 2 if what == 'top' else 3
            env.check(got in model and not order_of(model)[got][side],
                      'wrong %s of a concept system' % what, got=got,
                      system=model)
        elif what == 'contains':
            env.eq('membership', fca.Concept(c.extent, c.intent) in cs,
                   k in model, concept=k)
        elif what == 'foreign':
            # a concept of another context: the same intent or extent only
            other = [fca.Concept(c.extent ^ set(t.objs[:1]), c.intent),
                     fca.Concept(c.extent, c.intent ^ set(t.atts[-1:]))][i % 2]
            if key(other) in keys:
                continue
            env.eq('membership of a foreign concept', other in cs, False,
                   concept=key(other), system=model)
            env.refused('index', cs.index, other)
            env.refused('remove', cs.remove, other)
        elif what == 'index' and k in model:
            env.eq('index', cs.index(c), model.index(k))
        env.eq('concepts of a system', [key(x) for x in cs], model)
        env.eq('size of a system', len(cs), len(model))
        env.probe('system: ' + what)
    env.eq('the caller\'s list', handed, start)


def execute(plan, env):
    fca = core.load_fca()
    t, o = Table.of(plan['table']), Table.of(plan['other'])
    cxt = env.call('Context', make_context, fca, plan['table'])
    most = len(t.objs) + 2
    second = env.call('Context', make_context, fca, plan['other'])
    running = []        # [iterator, concepts, keys at hand-out, model, done]
    lattices = []       # [lattice, model]
    judged = biggest = 0
    order = []

    def step(run):
        try:
            c = next(run[0])
        except StopIteration:
            run[4] = True
            return
        run[1].append(c)
        run[2].append(key(c))

    def finish(run):
        while not run[4]:
            step(run)
        judge_concepts(env, run[3], run[2], 'step by step')
        env.eq('concepts after hand-out', [key(c) for c in run[1]], run[2],
               table=run[3].as_plan())
        env.probe('suspended enumeration judged')

    def drop(run):
        close_ = getattr(run[0], 'close', None)
        if close_ and not run[4]:
            close_()
            env.fault('abandoned enumeration')
        running.remove(run)

    for op in plan['ops']:
        if op[0] == 'edit':
            for run in list(running):
                if run[3] is not o:
                    drop(run)
            apply_edit(env, cxt, t, op[1], max(8, most),
                       66 if plan['wide'] else 8)
            env.state(t.rows)
        elif op[0] == 'ask':
            args = prepare(t, op[1])
            got = env.call(args[0], ask, fca, cxt, args)
            judge(env, t, args, got)
            judged += 1
            biggest = max(biggest, len(got))
            env.probe(args[0])
        elif op[0] == 'lattice':
            # taken now, looked at later, when the context may have changed
            c, m = (second, o) if op[1] == 2 else (cxt, t)
            lattices.append([env.call('lattice', fca.ConceptLattice, c),
                             m.copy()])
        elif op[0] == 'system':
            concept_system(env, fca, cxt, t, op)
        elif op[0] == 'open':
            c, model = (second, o) if op[1] == 2 else (cxt, t.copy())
            running.append([env.call('iter', c.iterate_concepts), [], [],
                            model, False])
        elif running:
            run = running[op[1] % len(running)]
            if op[0] == 'drop':
                drop(run)
                continue
            for _ in range(op[2]):
                if not run[4]:
                    env.call('next', step, run)
                    order.append(running.index(run))
            if run[4]:
                finish(run)
                judged += 1
                biggest = max(biggest, len(run[1]))
                running.remove(run)
    for run in list(running):
        env.call('next', finish, run)
        judged += 1
        biggest = max(biggest, len(run[1]))
    for cl, m in lattices:
        judge_lattice(env, m, env.call('lattice queries', show_lattice, cl))
        judged += 1
        biggest = max(biggest, len(cl))
    if len(set(order)) > 1:
        env.schedules.add(core.digest(order))
    env.nontrivial = judged >= 3 and biggest > 4
