"""C04: implication bases."""
from .. import core
from ..edits import apply_edit, draw_edit
from ..queries import (BASES, ask, background, draw_query, judge, judge_basis,
                       make_imps, prepare, show_imps)
from ..world import choose, draw_table, history, make_context, shrink_key, \
    swarm, Table

RUNS = {'quick': 38400, 'thorough': 307200}
RULE = ('a run is a start table and a history of edits and basis computations '
        '(all entry points, background implications with repetitions and in '
        'any order), with step-by-step computations on the same and on a '
        'second context advanced in between and abandoned; every basis is '
        'compared with the pseudo-intents by definition (relative to the '
        'background). Non-trivial: at least 3 judged bases, one of them with '
        'at least 2 implications')
REAL = ['fca.Context basis methods', 'dg_basis', 'aibasis',
        'closure_operators', 'Implication']
STUB = ['the caller']
SCHEDULE = 'digest of the order in which suspended computations advance'
shrink = shrink_key('table', 'other')


def generate(rng, tier):
    wide = rng.random() < .12
    big = 12 if wide else 6
    t = draw_table(rng, 8, big, sortable=False, tall=.04,
                   most=rng.choice([16, 16, 24, 66]))
    o = draw_table(rng, 6, 5, sortable=False)
    ops = []
    if rng.random() < .5:
        ops = [['open', rng.randrange(5), rng.getrandbits(72), rng.randrange(64)]
               for _ in range(rng.randint(2, 3))]
    mix = swarm(rng, {'edit': 28, 'ask': 35, 'open': 14, 'next': 50,
                      'drop': 4})
    for _ in range(history(rng, 4, 16)):
        k = choose(rng, mix)
        if k == 'edit':
            ops.append(['edit', draw_edit(rng, t['objs'], t['atts'], .1)])
        elif k == 'ask':
            ops.append(['ask', draw_query(rng, BASES)])
        elif k == 'open':
            ops.append(['open', rng.randrange(5), rng.getrandbits(72),
                        rng.randrange(64)])
        elif k == 'next':
            ops.append(['next', rng.randrange(8), rng.randint(1, 3)])
        else:
            ops.append(['drop', rng.randrange(8)])
    if rng.random() < .04:
        t = dict(t, scale=True)
    return {'table': t, 'other': o, 'ops': ops, 'wide': wide}


def execute(plan, env):
    fca = core.load_fca()
    t = Table.of(plan['table'])
    o = Table.of(plan['other'])
    cxt = env.call('Context', make_context, fca, plan['table'])
    most = len(t.objs) + 2
    second = env.call('Context', make_context, fca, plan['other'])
    # [iterator, got so far, model, finished, as handed out, background]
    running = []
    judged = biggest = 0
    order = []

    def finish(run):
        """Drain and judge."""
        while not run[3]:
            step(run)
        judge_basis(env, run[2], run[4], run[5], 'step by step')
        env.eq('implications after hand-out', show_imps(run[1]), run[4],
               table=run[2].as_plan())
        env.probe('suspended computation judged')

    def step(run):
        try:
            imp = next(run[0])
        except StopIteration:
            run[3] = True
            return
        run[1].append(imp)
        run[4] += show_imps([imp])

    def drop(run):
        close_ = getattr(run[0], 'close', None)
        if close_ and not run[3]:
            close_()
            env.fault('abandoned computation')
        running.remove(run)

    for op in plan['ops']:
        if op[0] == 'edit':
            # what happens to a computation when its context is edited is
            # not promised: let go of them first
            for run in list(running):
                if run[2] is not o:
                    drop(run)
            apply_edit(env, cxt, t, op[1], max(8, most),
                       13 if plan['wide'] else 7)
            env.state(t.rows)
        elif op[0] == 'ask':
            args = prepare(t, op[1])
            got = env.call(args[0], ask, fca, cxt, args)
            judge(env, t, args, got)
            judged += 1
            imps = got[0] if isinstance(got, tuple) else got
            biggest = max(biggest, len(imps))
            env.probe(args[0])
        elif op[0] == 'open':
            c, model = (second, o) if op[1] == 2 else (cxt, t.copy())
            bg = []
            if op[1] == 3:
                bg = background(model, op[2], op[3])
                it = env.call('iter',
                              fca.algorithms.dg_basis.dg_basis_iter_simple, c,
                              imp_basis=make_imps(fca, bg))
            elif op[1] == 4:
                it = env.call('iter', fca.algorithms.dg_basis_iter_simple, c)
            else:
                it = env.call('iter', c.attribute_implications_iter)
            running.append([it, [], model, False, [], bg])
        elif running:
            run = running[op[1] % len(running)]
            if op[0] == 'drop':
                drop(run)
            else:
                for _ in range(op[2]):
                    if not run[3]:
                        env.call('next', step, run)
                        order.append(running.index(run))
                if run[3]:
                    finish(run)
                    judged += 1
                    biggest = max(biggest, len(run[1]))
                    running.remove(run)
    for run in list(running):
        env.call('next', finish, run)
        judged += 1
        biggest = max(biggest, len(run[1]))
    if len(set(order)) > 1:
        env.schedules.add(core.digest(order))
    env.nontrivial = judged >= 3 and biggest >= 2
