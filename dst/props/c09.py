"""C09: a refused exploration step changes nothing."""
from .. import core
from .. import explore as ex_
from .. import partial as pa
from ..explore import subset
from ..world import choose, draw_table, history, shrink_key, swarm, ALPHA
from . import c08, c11, c12, c14

RUNS = {'quick': 20736, 'thorough': 240000}
RULE = ('a run is one exploration (database with examples, database with '
        'partial examples, partial context, two-sided, session, patterns) and '
        'a history in which most steps deserve refusal: answers that are not '
        'counterexamples, contradict confirmed knowledge, use names in use or '
        'unknown names, several answers of which a later one is bad, malformed '
        'answers, experts raising any exception at any answer. Around every '
        'refused step everything observable (examples, names, confirmed '
        'implications, open questions) is compared before and '
        'after, all of it with the model, and later valid steps must work. '
        'Non-trivial: 3 refusals, and a valid step after one')
REAL = ['AttributeExploration, ExplorationDB', 'PartialContext',
        'BasicExploration', 'ExplorationSession', 'BasicPatternExploration']
STUB = ['the experts', 'the order and fate of their answers']
STATE = 'digest of examples and confirmed knowledge'
shrink = shrink_key('table', 'positive')
WORLDS = ['db', 'db', 'db', 'partial-db', 'partial-raw', 'basic', 'session',
          'patterns']
DB_BAD = {'confirm_stale': 8, 'confirm_bogus': 10, 'confirm_many': 8,
          'unconfirm_unknown': 3, 'add_example': 8, 'delete_example': 3,
          'edit_example': 10, 'add_attribute': 4, 'delete_attribute': 4,
          'edit_attribute': 12, 'reject': 12, 'reject_stale': 8,
          'confirm_open': 8, 'garbage': 4, 'raises': 4}


def generate(rng, tier):
    world = rng.choice(WORLDS)
    plan = {'world': world}
    if world == 'patterns':
        plan['positive'], plan['negative'] = c14.draw_pair(rng)
        steps, draw = c14.STEPS, c14.draw_step
    else:
        t = draw_table(rng, 5, 5, min_m=1, sortable=world == 'basic',
                       tall=.03, most=12 if world == 'basic' else 70,
                       wide=0 if world.startswith('partial') else .03)
        plan['table'] = t
        if world.startswith('partial'):
            plan['partial'] = pa.draw_partial(rng, t)
            del plan['table']
            steps = pa.DB if world == 'partial-db' else pa.RAW
            draw = pa.draw_step
        elif world == 'db':
            plan['base'] = c08.draw_world(rng)[1][:0]
            steps, draw = DB_BAD, ex_.draw_step
        elif world == 'basic':
            steps = {k: v for k, v in c11.STEPS.items() if k != 'initial'}
            draw = c11.draw_step
        else:
            steps = {k: v for k, v in c12.STEPS.items()
                     if k not in ('create', 'set_context', 'caller')}
            draw = c12.draw_step
    if world == 'patterns':
        steps = {k: v for k, v in steps.items() if k != 'initial'}
    mix = swarm(rng, steps)
    plan['ops'] = [draw(rng, mix)[:5] for _ in range(history(rng, 5, 22))]
    return plan


def execute(plan, env):
    fca = core.load_fca()
    world = plan['world']
    if world == 'db':
        w = ex_.DbWorld(env, fca, plan['table'], plan['base'])

        def apply(op):
            if op[0] in ('garbage', 'raises'):
                bad_answer(w, op)
            elif len(w.t.objs) <= 11:
                ex_.apply_step(w, op)

        def snap():
            return ([repr(o) for o in w.db.objects], list(w.db.attributes),
                    rows(w.db._cxt),
                    show(w.db.base), show(w.db.open_implications))
    elif world.startswith('partial'):
        w = pa.PartialWorld(env, fca, plan['partial'], world == 'partial-db')
        apply = w.apply

        def snap():
            return (list(w.cxt.objects), list(w.cxt.attributes),
                    list(w.cxt.intents()),
                    w.db and (show(w.db.base), show(w.db.open_implications)))
    elif world == 'basic':
        w = c11.BasicWorld(env, fca, plan['table'])
        apply = w.apply

        def snap():
            e = w.ex
            return (list(e.context.objects), list(e.context.attributes),
                    rows(e.context),
                    [show(x) for x in (e.attribute_implications,
                                       e.object_implications,
                                       e.confirmed_attribute_implications,
                                       e.confirmed_object_implications)])
    elif world == 'session':
        from fca.algorithms.exploration2.exploration import (
            Exploration, ExplorationContext)
        cxt = c12.make_context(fca, plan['table'])
        session = Exploration(ExplorationContext(cxt)).create_session()
        w = c12.SessionWorld(env, fca, session, c12.Table.of(plan['table']))
        apply = w.apply

        def snap():
            c = session.context
            return (list(c.objects), list(c.attributes),
                    [c.get_intent(o) for o in c.objects],
                    show(session.get_accepted_implications()),
                    show(session.get_candidates()))
    else:
        pos, neg = plan['positive'], plan['negative']
        keep = [j for j, a in enumerate(neg['atts']) if a in pos['atts']]
        neg = {'objs': neg['objs'], 'atts': [neg['atts'][j] for j in keep],
               'rows': [[r[j] for j in keep] for r in neg['rows']]}
        w = c14.PatternWorld(env, fca, pos, neg)
        apply = w.apply

        def snap():
            e = w.ex
            return ([list(c.objects) for c in (e.positive_cxt, e.negative_cxt)],
                    [list(c.attributes) for c in (e.positive_cxt,
                                                  e.negative_cxt)],
                    [rows(c) for c in (e.positive_cxt, e.negative_cxt)],
                    list(e.confirmed_patterns))
    w.check('start')
    recovered = False
    for op in plan['ops']:
        before, done, refused = snap(), w.done, w.refused
        apply(op)
        if w.refused > refused and w.done == done:
            env.eq('state after a refused step (%s, %s)' % (world, op[0]),
                   snap(), before)
        if w.done > done and w.refused > 0:
            recovered = True
        w.check(op[0])
    env.probe('world: ' + world)
    env.nontrivial = w.refused >= 3 and recovered


def rows(cxt):
    return [[bool(x) for x in cxt[i]] for i in range(len(cxt))]


def show(imps):
    return ex_.sorted_pairs(map(ex_.imp_pair, imps))


def bad_answer(w, op):
    kind, i, b, name, k = op
    env, db = w.env, w.db
    pool = db.open_implications + w.stale
    if not pool:
        return
    imp = pool[i % len(pool)]
    while name in w.t.objs:
        name += 'x'
    if kind == 'garbage':
        x, y = set(imp.premise), subset(w.t.atts, b)
        w.expert.answer = [
            None, (name,), (name, None), ([], []), ([name], []),
            ([name, name + 'y'], [x]), ([name], [x, y]), (name, x, y),
            ([name, name], [x, x]), 7][k % 10]
        e = env.refused('malformed answer', w.ex.reject_implication, imp)
        env.fault('expert: malformed answer')
    else:
        exc = [core.SimulatedFault('lost'), ValueError('v'), KeyError('k'), StopIteration(),
               RuntimeError('r'), MemoryError(), OSError(5, 'io'),
               AttributeError('a'), TypeError('t'),
               KeyboardInterrupt()][k % 10]
        w.expert.answer = exc
        try:
            w.ex.reject_implication(imp)
        except BaseException as e:
            if isinstance(e, (core.Violation, core.Hang)):
                raise
            env.check(e is exc, 'expert failure replaced by another error',
                      raised=e, wanted=exc)
        else:
            env.fail('expert failure swallowed', exception=exc)
        env.fault('expert: ' + type(exc).__name__)
    w.refused += 1
