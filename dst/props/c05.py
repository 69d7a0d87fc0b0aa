"""C05: concurrent queries on one shared context."""
from .. import core
from ..edits import apply_edit, draw_edit
from ..queries import (ALL, BASES, CONCEPTS, DERIV, DERIVED, HEAVY, ask,
                       draw_query, index_function, index_values, judge,
                       judge_lattice, prepare, show_lattice)
from ..sched import Scheduler, draw_preemptions
from ..world import Table, check_same_table, draw_table, make_context, \
    shrink_key

RUNS = {'quick': 8928, 'thorough': 90000}
RULE = ('a run is one context (sometimes with a lattice taken from it before), '
        '2 to 4 threads with 1 to 4 queries each, and a drawn list of '
        'pre-emptions at line or byte code events of library code (in 30 % '
        'only of its outer 1 to 3 calls); all answers '
        'are compared with the model, then a sequential epilogue of queries, '
        'edits and queries is. Non-trivial: at least 2 threads ran and the '
        'baton moved at least 3 times before the last of them ended')
REAL = ['every query of fca.Context, ConceptLattice, factors, indices, on real '
        'threads']
STUB = ['the thread scheduler (baton; one thread runs at a time)',
        'threading.Lock/RLock if the library creates any']
LISTS = ['preempt', 'epilogue', 'threads']
shrink_table_ = shrink_key('table')


def shrink(plan):
    import json
    for i in range(len(plan['threads'])):
        for j in range(len(plan['threads'][i])):
            p = json.loads(json.dumps(plan))
            del p['threads'][i][j]
            yield p
    yield from shrink_table_(plan)


def generate(rng, tier):
    t = draw_table(rng, 6, 5, min_n=1, min_m=1, sortable=False, tall=.03,
                   most=14, wide=.03)
    k = rng.random()
    kinds = ALL if k < .5 else BASES if k < .8 else DERIV + CONCEPTS \
        if k < .9 else DERIVED + HEAVY
    threads = []
    for _ in range(rng.choice([2, 2, 2, 3, 4])):
        qs = []
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .12:
                qs.append(['shared', 0, rng.randrange(64)])
            else:
                qs.append(draw_query(rng, kinds))
        threads.append(qs)
    mean = int(2 ** rng.uniform(1, 9))
    alike = rng.random()
    if alike < .15:                 # everybody asks for one kind of answer
        kind = [rng.choice(DERIV if alike < .08 else kinds)]
        threads = [[draw_query(rng, kind) for _ in range(rng.randint(1, 4))]
                   for _ in threads]
        mean = rng.randint(2, 16)
    elif alike < .4:                # everybody asks the same
        threads = [list(threads[0]) for _ in threads]
    depth = 0
    if rng.random() < .3:           # only near the calls of the threads
        depth = rng.randint(1, 3)
        mean = rng.choice([rng.randint(2, 12), 0])
    elif rng.random() < .2:         # only after writes
        depth, mean = rng.choice([-1, -2]), rng.randint(1, 4)
    epilogue = []
    for _ in range(rng.randint(2, 6)):
        if rng.random() < .4:
            epilogue.append(['edit', draw_edit(rng, t['objs'], t['atts'],
                                               .1)])
        else:
            epilogue.append(['ask', draw_query(rng, kinds)])
    if rng.random() < .04:
        t = dict(t, scale=True)
    return {'table': t, 'threads': threads, 'epilogue': epilogue,
            'preempt': draw_preemptions(rng, 4, rng.randint(
                2, rng.choice([60, 60, 400])), mean),
            'opcodes': rng.random() < .3, 'depth': depth, 'first': rng.randrange(4)}


def ask_shared(fca, cl, k):
    if k % 7 == 6:
        return 'lattice', show_lattice(cl)
    name = ['istability', 'estability', 'separation', 'probability',
            'extent_size', 'intent_size'][k % 7]
    return name, {(frozenset(c.extent), frozenset(c.intent)): v
                  for c, v in index_function(fca, name)(cl).items()}


def judge_shared(env, t, got):
    name, value = got
    if name == 'lattice':
        judge_lattice(env, t, value)
        return
    want = index_values(t, name)
    env.eq('concepts of an index', set(value), set(want))
    for c, v in want.items():
        env.check(abs(value[c] - v) < 1e-9, 'wrong index', name=name,
                  got=value[c], want=v, concept=c)


def execute(plan, env):
    fca = core.load_fca()
    t = Table.of(plan['table'])
    if not t.objs or not t.atts:
        return
    cxt = env.call('Context', make_context, fca, plan['table'])
    cl = env.call('lattice', fca.ConceptLattice, cxt)
    s = Scheduler(env, plan['preempt'], plan['opcodes'], depth=plan['depth'])
    prepared = []
    for qs in plan['threads']:
        args = [q if q[0] == 'shared' else prepare(t, q) for q in qs]
        prepared.append(args)

        def body(args=args):
            out = []
            for a in args:
                if a[0] == 'shared':
                    out.append(ask_shared(fca, cl, a[2]))
                else:
                    out.append(ask(fca, cxt, a))
            return out
        if args:
            s.spawn(body)
    prepared = [a for a in prepared if a]
    if not prepared:
        return
    env.steps += sum(map(len, prepared))
    results = s.run(plan['first'])
    for i, (status, value) in enumerate(results):
        if status != 'ok':
            raise value if isinstance(value, core.Violation) else \
                core.Violation('unexpected %s in a thread' %
                               type(value).__name__,
                               {'error': core.show(value),
                                'queries': core.show(prepared[i]),
                                'where': core.where(value),
                                'table': core.show(t.as_plan())})
        for a, got in zip(prepared[i], value):
            if a[0] == 'shared':
                judge_shared(env, t, got)
                env.probe('shared lattice')
            else:
                judge(env, t, a, got)
                env.probe(a[0])
    # nothing is left behind
    check_same_table(env, cxt, t, 'context after threads:')
    for kind, op in plan['epilogue']:
        if kind == 'edit':
            apply_edit(env, cxt, t, op, max(7, len(t.objs) + 1),
                       max(6, len(t.atts)))
            check_same_table(env, cxt, t, 'context after threads and edit:')
        else:
            a = prepare(t, op)
            judge(env, t, a, env.call(a[0], ask, fca, cxt, a))
    env.state(t.rows)
    env.nontrivial = len(prepared) >= 2 and len(s.switches) >= 3
