"""C13: partial examples and their completion."""
from .. import core
from ..partial import DB, RAW, PartialWorld, draw_partial, draw_step
from ..world import draw_table, history, swarm
from . import c10

RUNS = {'quick': 20736, 'thorough': 240000}
RULE = ('a run is a partially known start table and either up to 25 direct '
        'operations on the partial context (examples, completion under '
        'random implications, closures, questions, derived copies), or an '
        'exploration with partial examples and an unreliable expert, or an '
        'exploration whose expert is truthful but withholds parts of his '
        'counterexamples, after which faults stop and convergence within the '
        'bound is required; after every step both parts of the context are '
        'compared with the model. Non-trivial: 4 steps worked')
REAL = ['PartialContext', 'ExplorationDB, AttributeExploration',
        'compute_partial_dg_basis', 'simple_closure', 'fca.Context']
STUB = ['the expert', 'what he withholds', 'the order and fate of answers']
STATE = 'digest of certain and possible parts and confirmed implications'


def shrink(plan):
    import json
    for key in ('partial', 'theory'):
        t = plan.get(key)
        if not t:
            continue
        for i in range(len(t['objs'])):
            p = json.loads(json.dumps(plan))
            for k in ('objs', 'rows', 'q'):
                if k in p[key]:
                    del p[key][k][i]
            yield p
        for j in range(len(t['atts'])):
            p = json.loads(json.dumps(plan))
            del p[key]['atts'][j]
            for k in ('rows', 'q'):
                for r in p[key].get(k, []):
                    del r[j]
            yield p


def generate(rng, tier):
    if rng.random() < .25:
        plan = c10.generate(rng, tier, engine='partial')
        plan['mode'] = 'converge'
        return plan
    t = draw_table(rng, 4, 5, min_m=1, tall=.03)
    mode = rng.choice(['raw', 'db', 'db'])
    mix = swarm(rng, RAW if mode == 'raw' else DB)
    p = draw_partial(rng, t)
    return {'mode': mode, 'partial': p,
            'ops': [draw_step(rng, mix) for _ in range(history(rng, 4, 25))]}


def execute(plan, env):
    if plan['mode'] == 'converge':
        return c10.execute(plan, env)
    fca = core.load_fca()
    w = PartialWorld(env, fca, plan['partial'], plan['mode'] == 'db')
    w.check('start')
    for op in plan['ops']:
        w.apply(op)
        w.check(op[0])
    env.nontrivial = w.done >= 4
