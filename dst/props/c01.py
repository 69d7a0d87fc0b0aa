"""C01: edits behave as edits of one named binary table."""
import numpy as np

from .. import core
from ..edits import apply_edit, draw_edit
from ..world import bools, check_same_table, draw_table, history, \
    make_context, settle_names, shrink_key, Table

RUNS = {'quick': 20736, 'thorough': 165888}
RULE = ('a run is a start table (0..9 x 0..9, sometimes up to 70 wide, with '
        'random, clashing, unicode or mixed names) and a history of up to 25 '
        'edits, a fifth of them edits that must be refused; after every edit '
        'everything the context shows is compared with a plain named table. '
        'Non-trivial: at least 4 edits took effect or were refused')
REAL = ['fca.Context: constructor, every edit method, __eq__, accessors']
STUB = ['the caller']
shrink = shrink_key('table')


def generate(rng, tier):
    wide = rng.random() < .06
    style = rng.choice(['short', 'word', 'unicode', 'int', 'mixed', 'clash',
                        'alike', 'odd'])
    t = draw_table(rng, 5, 70 if wide else 6, style=style, sortable=False,
                   tall=.03)
    if rng.random() < .35:          # clashing names from the start
        for key in ('objs', 'atts'):
            names = t[key]
            for _ in range(rng.randint(0, 3)):
                if names:
                    names[rng.randrange(len(names))] = rng.choice(
                        names + ['%s_%d' % (rng.choice(names),
                                            rng.randint(0, 3))])
    ops = []
    for _ in range(history(rng, 3, 25)):
        if rng.random() < .15:
            ops.append(['compare', rng.randrange(64), rng.getrandbits(72),
                        rng.choice(['same', 'flip', 'name', 'comma', 'drop',
                                    'rows', 'columns', 'permute',
                                    'permute']), 0])
        elif rng.random() < .06:
            ops.append(['misfit', rng.randrange(64), rng.getrandbits(72),
                        rng.choice(['row less', 'row more', 'column less',
                                    'column more', 'short row', 'long row',
                                    'object more', 'attribute more']),
                        rng.randrange(4)])
        else:
            ops.append(draw_edit(rng, t['objs'], t['atts']))
    return {'table': t, 'ops': ops, 'wide': wide,
            'scale': rng.random() < .06}


def permuted(rng, t):
    oi, ai = list(range(len(t.objs))), list(range(len(t.atts)))
    rng.shuffle(oi)
    rng.shuffle(ai)
    return Table([t.objs[i] for i in oi], [t.atts[j] for j in ai],
                 [[t.rows[i][j] for j in ai] for i in oi])


def compare(env, fca, cxt, t, op):
    _, ix, seed, how, _ = op
    rng = core.rng_for('compare', seed)
    p = permuted(rng, t)
    n, m = len(p.objs), len(p.atts)
    want = True
    if how == 'flip' and n and m:
        p.rows[ix % n][seed % m] ^= 1
        want = False
    elif how == 'name' and m:
        p.atts[ix % m] = 'another name'
        want = False
    elif how == 'rows' and n > 1:
        # the same rows, of other objects
        p.rows[ix % n], p.rows[seed % n] = p.rows[seed % n], p.rows[ix % n]
        want = p.rows[ix % n] == p.rows[seed % n]
    elif how == 'columns' and m > 1:
        for r in p.rows:
            r[ix % m], r[seed % m] = r[seed % m], r[ix % m]
        want = all(r[ix % m] == r[seed % m] for r in p.rows)
    elif how == 'drop' and n:
        del p.objs[ix % n], p.rows[ix % n]
        want = False
    elif how == 'same':
        p = t.copy()
    elif how == 'comma' and m >= 2 and \
            all(isinstance(a, str) for a in t.atts):
        # prints like t but is not t
        p = t.copy()
        p.atts = [p.atts[0] + ', ' + p.atts[1]] + p.atts[2:]
        p.rows = [r[1:] for r in p.rows]
        want = False
    other = make_context(fca, p.as_plan())
    env.eq('equality', bool(env.call('==', cxt.__eq__, other)), want, how=how,
           context=t.as_plan(), other=p.as_plan())
    if type(cxt) is fca.Context:
        env.eq('equality', bool(env.call('==', other.__eq__, cxt)), want,
               how=how)
    env.eq('inequality', bool(cxt != other), not want, how=how)
    env.probe('compared: ' + how)


def misfit(env, fca, t, op):
    """A table that does not fit its names is refused."""
    _, ix, b, how, box = op
    rows, objs, atts = bools(t.rows), list(t.objs), list(t.atts)
    n, m = len(rows), len(atts)
    if how == 'row less' and n:
        del rows[ix % n]
    elif how == 'row more' and n:
        rows.insert(ix % n, list(rows[0]))
    elif how == 'column less' and n and m > 1:
        for r in rows:
            del r[ix % m]
    elif how == 'column more' and n:
        for r in rows:
            r.insert(ix % (m + 1), bool(b & 1))
    elif how == 'short row' and n > 1 and m:
        del rows[ix % n][b % m]
    elif how == 'long row' and n > 1:
        rows[ix % n].append(bool(b & 1))
    elif how == 'object more':
        objs.insert(ix % (n + 1), 'one more')
    elif how == 'attribute more' and n:
        atts.insert(ix % (m + 1), 'one more')
    else:
        return
    if box == 1 and how not in ('short row', 'long row'):
        rows = np.array(rows, dtype=bool)
    elif box == 2:
        rows = tuple(map(tuple, rows))
    env.refused('Context', fca.Context, rows, objs, atts)
    env.fault('misfit: ' + how)


def show_everything(env, cxt, t):
    check_same_table(env, cxt, t)
    pairs = list(cxt.object_attribute_pairs)
    env.eq('pairs', set(pairs), t.pairs())
    env.eq('number of pairs', len(pairs), len(t.pairs()))
    env.eq('pairs (method)', set(cxt.get_object_attribute_pairs()), t.pairs())
    for i, o in enumerate(t.objs):
        env.eq('intent', cxt.get_object_intent(o), t.intent_of(o))
        if t.atts:
            a = t.atts[i % len(t.atts)]
            env.eq('value', bool(cxt.get_value(o, a)),
                   bool(t.rows[i][i % len(t.atts)]))
    for a in t.atts:
        env.eq('extent', cxt.get_attribute_extent(a), t.extent_of(a))
    # names no longer in use
    for o in t.gone_objs[-3:]:
        if o not in t.objs:
            env.refused('intent of a former object', cxt.get_object_intent, o)
            if t.atts:
                env.refused('value of a former object', cxt.get_value, o,
                            t.atts[0])
    for a in t.gone_atts[-3:]:
        if a not in t.atts:
            env.refused('extent of a former attribute',
                        cxt.get_attribute_extent, a)
    env.eq('examples', [set(x) for x in cxt.examples()],
           [t.intent_of(o) for o in t.objs])
    env.eq('intents', [set(x) for x in cxt.intents()],
           [t.intent_of(o) for o in t.objs])
    env.eq('cross table', [[int(x) for x in r] for r in cxt.cross_table],
           t.rows)
    env.eq('table', [[int(x) for x in r] for r in cxt.table], t.rows)
    env.eq('iteration', [[int(x) for x in r] for r in cxt], t.rows)


def execute(plan, env):
    fca = core.load_fca()
    t = Table.of(plan['table'])
    most = len(t.objs) + 3
    raw_objs, raw_atts, raw_rows = list(t.objs), list(t.atts), bools(t.rows)
    cxt = env.call('Context', fca.Context, raw_rows, raw_objs, raw_atts)
    if plan['scale']:
        cxt = env.call('Scale', fca.Scale, cxt)
        env.probe('a scale')
    t.objs = settle_names(env, 'objects', t.objs, cxt.objects)
    t.atts = settle_names(env, 'attributes', t.atts, cxt.attributes)
    # the constructor's arguments belong to the caller
    env.eq('caller\'s list of objects', raw_objs, plan['table']['objs'])
    env.eq('caller\'s list of attributes', raw_atts, plan['table']['atts'])
    show_everything(env, cxt, t)
    effective = 0
    for op in plan['ops']:
        if op[0] == 'compare':
            compare(env, fca, cxt, t, op)
            continue
        if op[0] == 'misfit':
            misfit(env, fca, t, op)
            continue
        out = apply_edit(env, cxt, t, op, max(9, most),
                         72 if plan['wide'] else 9)
        if out != 'skipped':
            effective += 1
            env.note(op[0], out)
        show_everything(env, cxt, t)
        env.state(t.rows)
    env.eq('caller\'s list of objects', raw_objs, plan['table']['objs'])
    env.eq('caller\'s list of attributes', raw_atts, plan['table']['atts'])
    env.nontrivial = effective >= 4
