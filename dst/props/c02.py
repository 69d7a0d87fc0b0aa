"""C02: derivation and closure queries answer for the current table."""
from .. import core
from ..edits import apply_edit, draw_edit, unknown
from ..queries import BASES, CONCEPTS, DERIV, ask, draw_query, judge, prepare
from ..world import draw_names, draw_rows, draw_table, history, make_context, \
    shrink_key, Table

RUNS = {'quick': 39936, 'thorough': 319488}
RULE = ('a run is a start table (0..7 x 0..7, a tenth up to 40 wide, a '
        'fiftieth with 257..300 objects or attributes, one in a thousand with '
        '600..66000) and a history mixing edits (some refused) with '
        'derivation and closure queries through every entry point, concept '
        'and basis computations in between; every answer is compared with the '
        'definition on the model of the current table; questions about names '
        'that are not or no longer there are refused. Non-trivial: at least '
        '6 judged queries and 2 edits that took effect')
REAL = ['fca.Context derivation operators, edits', 'closure_operators']
STUB = ['the caller']
shrink = shrink_key('table')


LIGHT = [k for k in DERIV if k not in ('intents',)]


def draw_long(rng):
    """More objects (or attributes) than a byte counts."""
    n, m = rng.choice([255, 256, 257, 300]), rng.randint(1, 4)
    rows = draw_rows(rng, n, m)
    if rng.random() < .6:           # nearly full
        rows = [[1] * m for _ in range(n)]
        for _ in range(rng.randint(0, 3)):
            rows[rng.randrange(n)][rng.randrange(m)] = 0
    t = {'objs': draw_names(rng, n, 'word'), 'atts': draw_names(rng, m, 'word'),
         'rows': rows}
    return Table.of(t).transposed().as_plan() if rng.random() < .5 else t


def enlarged(plan):
    """Many objects with the rows of a small table."""
    t, n, seed = plan['table'], *plan['enormous']
    rng = core.rng_for('enormous', seed)
    rows = [rng.choice(t['rows']) for _ in range(n)]
    names = list(range(n)) if seed % 2 else ['g%d' % i for i in range(n)]
    rng.shuffle(names)
    t = {'objs': names, 'atts': t['atts'], 'rows': rows}
    return t if seed % 4 < 3 else Table.of(t).transposed().as_plan()


def generate(rng, tier):
    if rng.random() < .0008:
        t = draw_table(rng, 6, 3, min_n=1, min_m=1, sortable=False)
        n = rng.choice([rng.randint(600, 5000), rng.randint(32700, 33100),
                        rng.randint(65500, 66000)])
        return {'table': t, 'enormous': [n, rng.getrandbits(20)],
                'ops': [['ask', draw_query(rng, LIGHT)]
                        for _ in range(7)], 'wide': 'enormous'}
    if rng.random() < .02:
        t = draw_long(rng)
        ops = [['ask', draw_query(rng, DERIV, 310)] if rng.random() < .8 else
               ['edit', draw_edit(rng, t['objs'], t['atts'], .15)]
               for _ in range(rng.randint(6, 12))]
        return {'table': t, 'ops': ops, 'wide': 'long'}
    wide = rng.random() < .1
    t = draw_table(rng, 7, 40 if wide else 7, sortable=False)
    ops = []
    for _ in range(history(rng, 8, 30)):
        k = rng.random()
        if k < .25:
            ops.append(['edit', draw_edit(rng, t['objs'], t['atts'], .15)])
        elif k < .3:
            ops.append(['gone', rng.randrange(64)])
        elif k < .9:
            ops.append(['ask', draw_query(rng, DERIV)])
        elif not wide:
            ops.append(['ask', draw_query(rng, CONCEPTS + BASES)])
    if rng.random() < .04:
        t = dict(t, scale=True)
    return {'table': t, 'ops': ops, 'wide': wide}


def unknown_names(env, fca, cxt, t, k):
    """There is no answer for a name that is not (or no longer) there."""
    o, a = unknown(t.gone_objs, t.objs, k), unknown(t.gone_atts, t.atts, k)
    os_, as_ = t.objs[:k // 8 % 3], t.atts[:k // 8 % 3]
    if k & 4:
        os_, as_ = [*os_, o], [*as_, a]
    else:
        os_, as_ = [o, *os_], [a, *as_]
    if k & 2:
        os_, as_ = set(os_), set(as_)
    co = fca.algorithms.closure_operators
    for what, given in (('get_object_intent', (o,)),
                        ('get_attribute_extent', (a,)), ('oprime', (os_,)),
                        ('aprime', (as_,)), ('oclosure', (os_,)),
                        ('aclosure', (as_,)), ('associative_aclosure', (as_,)),
                        ('associative_aprime', (as_,)),
                        ('get_value', (o, t.atts[0] if t.atts else a))):
        env.refused('query about an unknown name: ' + what,
                    getattr(cxt, what), *given)
    env.refused('oprime of an unknown name', co.oprime, set(os_), cxt)
    env.refused('aprime of an unknown name', co.aprime, set(as_), cxt)
    env.fault('query about an unknown name')


def execute(plan, env):
    fca = core.load_fca()
    start = enlarged(plan) if plan.get('enormous') else plan['table']
    t = Table.of(start)
    cxt = env.call('Context', make_context, fca, start)
    edits = asked = 0
    most = (310, 310) if plan['wide'] == 'long' else \
        (9, 42 if plan['wide'] else 8)
    for kind, op in plan['ops']:
        if kind == 'gone':
            unknown_names(env, fca, cxt, t, op)
        elif kind == 'edit':
            if apply_edit(env, cxt, t, op, *most) == 'done':
                edits += 1
            env.state(t.rows)
        else:
            args = prepare(t, op)
            got = env.call(args[0], ask, fca, cxt, args)
            judge(env, t, args, got)
            asked += 1
            env.probe(args[0])
    env.nontrivial = asked >= 6 and (edits >= 2 or
                                        plan['wide'] == 'enormous')
