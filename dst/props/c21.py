"""C21: derived contexts are right and independent of their source."""
import copy

from .. import core
from ..edits import apply_edit, draw_edit
from ..queries import DERIVED, ask, draw_query, judge, judge_derived, prepare
from ..world import check_same_table, draw_table, history, make_context, \
    shrink_key, Table

RUNS = {'quick': 43200, 'thorough': 345600}
RULE = ('a run is a start table (a seventh of them 60..70 wide) and a history '
        'of derivations of every kind from any context of the family so far, '
        'edits of any member and refused edits; after every step every member '
        'is compared with its own model, so an edit that shows on a relative '
        'is seen. Non-trivial: at least 2 derivations and 2 edits')
REAL = ['fca.Context derived contexts, edits, reduce, clarify']
STUB = ['the caller']
shrink = shrink_key('table')
KINDS = [k for k in DERIVED if k != 'equal']


def generate(rng, tier):
    wide = rng.random() < .14
    names = rng.choice(['word', 'short', 'unicode', 'int', 'mixed', 'alike', 'odd'])
    t = draw_table(rng, 7, 7, style=names, sortable=False, tall=.02, wide=.03)
    if wide:
        t = draw_table(rng, 6, 70, min_n=2, min_m=58, style='word')
        if rng.random() < .5:       # something to reduce: rows that meet
            rows = t['rows']
            for i in range(len(rows)):
                if rng.random() < .4:
                    k, l = rng.randrange(len(rows)), rng.randrange(len(rows))
                    rows[i] = [x & y for x, y in zip(rows[k], rows[l])]
                elif rng.random() < .5:
                    rows[i] = [int(rng.random() < .9) for _ in rows[i]]
            if rng.random() < .5:
                rows.append([1] * len(rows[0]))
                t['objs'].append('everything')
        elif rng.random() < .3:
            from ..world import draw_names, draw_rows
            n = rng.randint(58, 70)
            t = {'objs': draw_names(rng, n, 'word'),
                 'atts': draw_names(rng, 4, 'word'),
                 'rows': draw_rows(rng, n, 4)}
    ops = []
    for _ in range(history(rng, 4, 14)):
        who = rng.randrange(8)
        if rng.random() < .08:
            ops.append(['refuse', who, rng.choice([
                'product', 'product', 'subcontext', 'filter and',
                'filter or']), rng.getrandbits(16)])
        elif rng.random() < .5:
            q = draw_query(rng, KINDS)
            if wide and q[0] == 'product':
                continue
            ops.append(['derive', who, q])
        else:
            ops.append(['edit', who, draw_edit(rng, t['objs'], t['atts'],
                                               .15)])
    return {'table': t, 'ops': ops, 'wide': wide}


def derive(fca, cxt, args):
    kind, a = args[0], args[1]
    if kind == 'transpose':
        return cxt.transpose()
    if kind in ('complementary', 'compound'):
        if not all(isinstance(x, str) for x in cxt.attributes):
            return None
        return getattr(cxt, kind)()
    if kind == 'product':
        right = fca.Context([[bool(x) for x in r] for r in a],
                            list(cxt.attributes), list(args[2]))
        return cxt * right
    if kind == 'subcontext':
        return cxt.extract_subcontext(list(a))
    if kind == 'filtered_and':
        return cxt.extract_subcontext_filtered_by_attributes(list(a))
    if kind == 'filtered_or':
        return cxt.extract_subcontext_filtered_by_attributes(list(a), 'or')
    if kind == 'clarify':
        return cxt.clarify_objects()
    if kind == 'reduce_objects':
        return cxt.reduce_objects()
    if kind == 'reduce_attributes':
        return cxt.reduce_attributes()
    if kind == 'deepcopy':
        return copy.deepcopy(cxt)
    if kind == 'again':
        return fca.Context(cxt.table, cxt.objects, cxt.attributes)
    if kind == 'scale':
        return fca.Scale(cxt)
    raise ValueError(kind)


def refused(env, fca, cxt, m, how, b):
    """Derivations that do not make sense."""
    some = [a for j, a in enumerate(m.atts) if b >> j % 16 & 1]
    if how == 'product':
        names = list(m.atts)
        k = b % 4
        if k == 0 or not names:
            names.append('another')
        elif k == 1:
            names.pop(b // 4 % len(names))
        elif k == 2:
            names[b // 4 % len(names)] = 'another'
        else:
            names.reverse()
        if names == m.atts:
            return
        right = fca.Context([[bool(b >> i % 16 & 1)] for i in
                             range(len(names))], names, ['z'])
        env.refused('product', cxt.__mul__, right)
    else:
        some.insert(b % (len(some) + 1), 'no such name')
        if how == 'subcontext':
            env.refused(how, cxt.extract_subcontext, some)
        else:
            env.refused(how, cxt.extract_subcontext_filtered_by_attributes,
                        some, how[7:])
    env.fault('refused derivation')


def execute(plan, env):
    fca = core.load_fca()
    t = Table.of(plan['table'])
    family = [[env.call('Context', make_context, fca, plan['table']), t]]
    big = 76 if plan['wide'] else 10
    derived = edits = 0

    def check_all(step):
        for i, (c, m) in enumerate(family):
            check_same_table(env, c, m, 'context %d after %s:' % (i, step))

    for op in plan['ops']:
        cxt, m = family[op[1] % len(family)]
        if op[0] == 'edit':
            if apply_edit(env, cxt, m, op[2], big, big) == 'done':
                edits += 1
            check_all(op[2][0])
            env.state(m.rows)
            continue
        if op[0] == 'refuse':
            refused(env, fca, cxt, m, op[2], op[3])
            check_all('a refused ' + op[2])
            continue
        q = op[2]
        if q[0] == 'compound' and len(m.atts) > 12 and not plan['wide']:
            continue
        if max(len(m.atts), len(m.objs)) > big:
            continue
        if plan['wide'] and min(len(m.atts), len(m.objs)) > 12 and \
                q[0].startswith('reduce'):
            continue        # too many intents for the model
        args = prepare(m, q)
        new = env.call(q[0], derive, fca, cxt, args)
        if new is None:
            continue
        env.check(new is not cxt, 'derived context is its source', how=q[0])
        got = {'objs': list(new.objects), 'atts': list(new.attributes),
               'rows': [[int(x) for x in r] for r in new]}
        judge_derived(env, m, args, got)
        derived += 1
        env.probe(q[0])
        if len(family) < 7:
            family.append([new, Table(got['objs'], got['atts'],
                                      got['rows'])])
        check_all(q[0])
    env.nontrivial = derived >= 2 and edits >= 2
