"""C08: examples and confirmed knowledge never contradict."""
from .. import core
from ..explore import STEPS, DbWorld, apply_step, draw_step
from ..world import draw_table, history, shrink_key, swarm
from . import c11

RUNS = {'quick': 21600, 'thorough': 180000}
RULE = ('a run is a start table, some initially confirmed implications and a '
        'history of up to 25 exploration steps from a mix drawn per run: '
        'confirmations of open, stale and bogus implications, withdrawals, '
        'examples and attributes added, edited, deleted and renamed, expert '
        'answers that are right, stale, repeated, conflicting, not '
        'counterexamples, several at once, lost or failing; after every step '
        'examples, base and open questions are compared with the model (open '
        'questions with the relative pseudo-intents by definition). '
        'An eighth of the runs takes the two-sided exploration instead, with the '
        'steps and the model of C11. '
        'Non-trivial: at least 4 steps worked and 1 was refused')
REAL = ['ExplorationDB, AttributeExploration', 'BasicExploration',
        'fca.Context', 'dg_basis',
        'closure_operators', 'Implication']
STUB = ['the expert', 'the order and fate of its answers']
STATE = 'digest of table and confirmed implications'
shrink = shrink_key('table')


def draw_world(rng, max_n=5, max_m=5):
    t = draw_table(rng, max_n, max_m, min_m=1, sortable=False, tall=.03,
                   wide=.04)
    base = []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        base.append([[a for a in t['atts'] if rng.random() < .3],
                     [a for a in t['atts'] if rng.random() < .5]])
    return t, base


def generate(rng, tier):
    if rng.random() < .12:
        return {**c11.generate(rng, tier), 'two sided': True}
    t, base = draw_world(rng)
    mix = swarm(rng, STEPS)
    return {'table': t, 'base': base,
            'cond': rng.choice([None] * 5 + [0, 1, 2, 3]),
            'ops': [draw_step(rng, mix) for _ in range(history(rng, 4, 25))]}


def execute(plan, env):
    if plan.get('two sided'):
        return c11.execute(plan, env)
    fca = core.load_fca()
    atts = set(plan['table']['atts'])
    base = [(p, c) for p, c in plan['base'] if set(p) | set(c) <= atts]
    w = DbWorld(env, fca, plan['table'], base, plan.get('cond'))
    most = len(w.t.objs) + 12
    w.check('start')
    for op in plan['ops']:
        if len(w.t.objs) > most:
            break
        apply_step(w, op)
        w.check(op[0])
    env.nontrivial = w.done >= 4 and w.refused >= 1
