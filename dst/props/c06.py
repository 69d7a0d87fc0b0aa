"""C06: a failed or interrupted query leaves no trace."""
from .. import core
from ..edits import apply_edit, draw_edit
from ..interrupts import Interrupt
from ..queries import (ALL, BASES, CONCEPTS, DERIV, DERIVED, HEAVY, ask,
                       background, draw_query, index_function, index_values,
                       judge, judge_basis, judge_concepts, judge_lattice,
                       make_imps, prepare, show_imps, show_lattice)
from ..world import check_same_table, draw_table, history, make_context, \
    shrink_key, Table

RUNS = {'quick': 15552, 'thorough': 156000}
RULE = ('a run is a start table and a history in which queries are cut short: '
        'an interrupt or memory error at a drawn line of library code (of all '
        'or of the outer 1 to 3 calls), a '
        'caller-supplied cond / basis / builder / index function that fails '
        'at its n-th call (after using the context itself), an iterator '
        'dropped half way; the failure must reach the caller, the context must '
        'be as before, and later queries and edits are judged. Non-trivial: '
        'at least 2 queries were really cut short and 2 judged afterwards')
REAL = ['every query of fca.Context and ConceptLattice']
STUB = ['the source of interrupts (trace function)',
        'callbacks supplied by the caller']
shrink = shrink_key('table')
DEPTHS = [0, 0, 0, 0, 1, 2, 3, -1, -2]
EXCS = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}


def generate(rng, tier):
    t = draw_table(rng, 6, 5, min_n=1, min_m=1, sortable=False, tall=.02,
                   most=14, wide=.02)
    k = rng.random()
    kinds = ALL if k < .5 else BASES if k < .75 else \
        CONCEPTS + HEAVY if k < .9 else DERIV + DERIVED
    ops = []
    for _ in range(history(rng, 3, 10)):
        k = rng.random()
        if k < .4:
            ops.append(['cut', draw_query(rng, kinds),
                        rng.choice([rng.random(), rng.random() ** 3,
                                    1 - rng.random() ** 3]),
                        rng.choice(['interrupt', 'interrupt', 'memory']),
                        rng.random() < .3, rng.choice(DEPTHS)])
        elif k < .58:
            ops.append(['callback',
                        rng.choice(['cond', 'cond_iter', 'basis', 'get_basis',
                                    'object_basis', 'builder', 'index',
                                    'filter', 'background_cond']),
                        rng.randint(1, 6), rng.getrandbits(72),
                        rng.randrange(64)])
        elif k < .7:
            ops.append(['drop', rng.choice(['concepts', 'imps', 'factors']),
                        rng.randint(0, 6), rng.randrange(3)])
        elif k < .8:
            ops.append(['lattice', rng.random(), rng.randrange(16),
                        rng.choice(['interrupt', 'memory']),
                        rng.choice(DEPTHS)])
        elif k < .88:
            ops.append(['edit', draw_edit(rng, t['objs'], t['atts'], .1)])
        else:
            ops.append(['ask', draw_query(rng, kinds)])
    ops.append(['ask', draw_query(rng, kinds)])
    ops.append(['edit', draw_edit(rng, t['objs'], t['atts'], 0)])
    ops.append(['ask', draw_query(rng, kinds)])
    if rng.random() < .04:
        t = dict(t, scale=True)
    return {'table': t, 'ops': ops}


def decoy(fca, t):
    """A context of the same size with other crosses."""
    p = t.as_plan()
    return make_context(fca, dict(p, rows=[[1 - x for x in r]
                                           for r in p['rows']][::-1]))


def interrupted(env, label, fn, judge_it, frac, exc, opcodes, dry, other=None,
                depth=0):
    """Run fn() with an exception at the drawn event.  True if cut short.
    dry() does the same elsewhere; other() is what the library did last."""
    with Interrupt(None, opcodes=opcodes, depth=depth) as counter:
        dry()
    if other is not None:
        try:
            other()
        except Exception:
            pass
    env.ticks += counter.n
    if not counter.n:
        return False
    at = 1 + min(counter.n - 1, int(frac * counter.n))
    err = EXCS[exc]
    i = Interrupt(at, err, opcodes, depth=depth)
    try:
        with i:
            got = fn()
    except err:
        if i.fired:
            env.fault('%s in %s' % (exc, label))
            env.schedules.add(core.digest([label, i.where]))
            return True
        raise
    except Exception as e:
        if not i.fired:
            raise core.Violation('unexpected %s in %s' % (type(e).__name__,
                                                          label),
                                 {'error': core.show(e),
                                  'where': core.where(e)})
        if exc == 'interrupt':
            env.fail('interrupt turned into another error', label=label,
                     at=i.where, error=e)
        return True
    if i.fired and exc == 'interrupt':
        env.fail('interrupt swallowed', label=label, at=i.where)
    judge_it(got)           # it claims to have worked
    return False


def callback(env, fca, cxt, t, op):
    """A caller-supplied function fails at its n-th call."""
    kind, n, b, k = op[1], op[2], op[3], op[4]
    calls = [0]
    dg = fca.algorithms.dg_basis
    error = core.FAULTS[(b >> 40) % len(core.FAULTS)]('callback')

    def fail_at(*args, **kwargs):
        calls[0] += 1
        if calls[0] >= n:
            raise error
        return True

    def use_then_fail(c, *args, **kwargs):
        """Works with what it is given (and with the context), then fails."""
        calls[0] += 1
        for i in range(min(n, len(c.objects))):
            c.get_object_intent_by_index(i)
        for i in range(min(n, len(t.objs))):
            cxt.get_object_intent_by_index(i)
        if n > 3:
            list(cxt.attribute_implications)
        raise error

    bg = []
    given = make_imps(fca, bg)
    try:
        if kind == 'cond':
            cxt.get_attribute_implications(cond=fail_at)
        elif kind == 'cond_iter':
            list(dg.dg_basis_iter_simple(cxt, cond=fail_at))
        elif kind == 'background_cond':
            bg = background(t, b, k)
            given = make_imps(fca, bg)
            cxt.get_attribute_implications(cond=fail_at, confirmed=given)
        elif kind == 'basis':
            cxt.get_attribute_implications(basis=use_then_fail)
        elif kind == 'get_basis':
            cxt.get_attribute_canonical_basis(get_basis=use_then_fail)
        elif kind == 'object_basis':
            cxt.get_object_implications(basis=use_then_fail)
        elif kind == 'builder':
            def builder(c):
                out = fca.norris(c)
                fail_at()
                calls[0] = n
                use_then_fail(c)
                return out
            fca.ConceptLattice(cxt, builder=builder)
        else:
            cl = fca.ConceptLattice(cxt)

            def function(lattice):
                list(lattice.filter(lattice.bottom_concept))
                raise error
            try:
                if kind == 'index':
                    fca.compute_index(cl, function, 'x')
                else:
                    fca.filter_concepts(cl, function,
                                        ['part', 'abs', 'value'][k % 3], .5)
            finally:
                env.eq('annotations after a failed index',
                       [c.meta for c in cl], [{} for c in cl])
                judge_lattice(env, t, show_lattice(cl))
    except core.SimulatedFault as e:
        env.check(e is error, 'callback error replaced', got=e)
        env.fault('failing callback: ' + kind)
        failed = True
    except core.Violation:
        raise
    except Exception as e:
        raise core.Violation('callback error became %s' % type(e).__name__,
                             {'kind': kind, 'error': core.show(e),
                              'where': core.where(e)})
    else:
        failed = False
        if kind not in ('cond', 'cond_iter', 'background_cond'):
            env.fail('callback error swallowed', callback=kind)
        if calls[0] >= n:
            env.fail('callback error swallowed', callback=kind)
    env.eq('background list after a failed query', show_imps(given),
           [(frozenset(p), frozenset(c - p)) for p, c in bg])
    return failed


def drop(env, fca, cxt, t, op):
    what, n, how = op[1], op[2], op[3]
    it = {'concepts': cxt.iterate_concepts,
          'imps': cxt.attribute_implications_iter,
          'factors': lambda: fca.algorithms.factors.algorithm2(cxt)}[what]()
    got = []
    for _ in range(n):
        try:
            got.append(next(it))
        except StopIteration:
            break
    if how == 0:
        close = getattr(it, 'close', None)
        if close:
            close()
    elif how == 1 and hasattr(it, 'throw'):
        try:
            it.throw(KeyboardInterrupt('simulated'))
            env.fail('interrupt swallowed', label='suspended ' + what)
        except (KeyboardInterrupt, StopIteration):
            pass
    del it
    env.fault('dropped iterator: ' + what)


def system(env, fca, cxt, t, op):
    """Interrupt queries on a concept system, which may be any part of the
    lattice; asked again, it must answer by the definition."""
    frac, k, exc = op[1], op[2], op[3]

    def make():
        cs = list(fca.ConceptLattice(cxt))
        if k >= 12:
            cs = [c for i, c in enumerate(cs) if i % 3 or k % 2]
        if k in (9, 13):
            cs.reverse()
        return fca.ConceptSystem(cs)

    def key(c):
        return frozenset(c.extent), frozenset(c.intent)

    def run(s):
        return [(key(c), {key(x) for x in s.parents(c)},
                 {key(x) for x in s.children(c)},
                 {key(x) for x in s.filter(c)},
                 {key(x) for x in s.ideal(c)}) for c in s]

    def judge_it(got):
        cs = [g[0] for g in got]
        for c, parents, children, up, down in got:
            above = {d for d in cs if d[1] < c[1]}
            below = {d for d in cs if d[1] > c[1]}
            env.eq('filter in a system', up, above, concept=c)
            env.eq('ideal in a system', down, below, concept=c)
            env.eq('parents in a system', parents,
                   {d for d in above if not any(d[1] < e[1] for e in above)},
                   concept=c)
            env.eq('children in a system', children,
                   {d for d in below if not any(d[1] > e[1] for e in below)},
                   concept=c)

    s, twin = make(), make()
    cut = interrupted(env, 'concept system', lambda: run(s), judge_it, frac,
                      exc, False, lambda: run(twin), None, op[4])
    judge_it(env.call('concept system', run, s))
    return cut


def lattice(env, fca, cxt, t, op):
    """Interrupt queries on a lattice; the lattice must keep working."""
    frac, k, exc = op[1], op[2], op[3]
    if k >= 8:
        return system(env, fca, cxt, t, op)
    cl = fca.ConceptLattice(cxt)
    twin = fca.ConceptLattice(cxt)
    names = ['istability', 'estability', 'separation', 'probability',
             'extent_size', 'intent_size']
    if k >= 6:
        label = 'lattice queries'

        def run(x):
            return show_lattice(x)

        def judge_it(got):
            judge_lattice(env, t, got)
    else:
        label = names[k]

        def run(x):
            return index_function(fca, label)(x)

        def judge_it(got):
            want = index_values(t, label)
            for c, v in got.items():
                w = want[(frozenset(c.extent), frozenset(c.intent))]
                env.check(abs(v - w) < 1e-9, 'wrong index', name=label, got=v,
                          want=w)
            env.eq('number of values', len(got), len(want))
    cut = interrupted(env, label, lambda: run(cl), judge_it, frac, exc, False,
                      lambda: run(twin), (lambda: run(
                          fca.ConceptLattice(decoy(fca, t)))) if k % 2 else
                      None, op[4])
    judge_lattice(env, t, show_lattice(cl))
    if k < 6:
        judge_it(env.call(label, run, cl))
    env.eq('annotations', [c.meta for c in cl], [{} for c in cl])
    return cut


def execute(plan, env):
    fca = core.load_fca()
    t = Table.of(plan['table'])
    cxt = env.call('Context', make_context, fca, plan['table'])
    cut = after = 0
    for op in plan['ops']:
        if op[0] == 'edit':
            apply_edit(env, cxt, t, op[1], 8, 6)
            check_same_table(env, cxt, t)
            env.state(t.rows)
            continue
        if op[0] == 'ask':
            a = prepare(t, op[1])
            judge(env, t, a, env.call(a[0], ask, fca, cxt, a))
            env.probe('judged')
            after += cut > 0
            continue
        env.steps += 1
        if op[0] == 'cut':
            a = prepare(t, op[1])
            dry = make_context(fca, t.as_plan())
            other = None
            if op[2] * 1000 % 1 < .5 and not (len(a) > 2 and a[1]):
                def other():
                    return ask(fca, decoy(fca, t), a)
            if interrupted(env, a[0], lambda: ask(fca, cxt, a),
                           lambda got: judge(env, t, a, got), op[2], op[3],
                           op[4], lambda: ask(fca, dry, a),
                           other, op[5]):
                cut += 1
        elif not t.objs or not t.atts:
            continue
        elif op[0] == 'callback':
            cut += bool(callback(env, fca, cxt, t, op))
        elif op[0] == 'drop':
            drop(env, fca, cxt, t, op)
            cut += 1
        elif op[0] == 'lattice':
            cut += bool(lattice(env, fca, cxt, t, op))
        check_same_table(env, cxt, t, 'context after failed query:')
    env.nontrivial = cut >= 2 and after >= 2
