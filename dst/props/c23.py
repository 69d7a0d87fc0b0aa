"""C23: many-valued contexts: editing, selection, scaling."""
import copy

import numpy as np

from .. import core
from ..edits import UNKNOWN, draw_name
from ..world import check_same_table, draw_many, draw_names, history, pick, \
    settle_names, simple_clash, Table

RUNS = {'quick': 55968, 'thorough': 447744}
RULE = ('a run has up to 3 many-valued contexts (numbers, text, numbers as '
        'text, truth values, missing values) and a history of edits (valid '
        'and refused), extractions by attributes, condition and values '
        '(conditions may fail), copies and scalings by hand-made, nominal '
        'and ordinal scales (some with failing expressions); every extracted '
        'or copied context lives on and is edited too. After every step all '
        'tables and scales are compared with their models, every scaled '
        'context with the crosses the scale expressions define. Non-trivial: '
        'a scaling with a cross after an edit, or an extraction edited later')
REAL = ['fca.ManyValuedContext, Scale, NominalScale, OrdinalScale',
        'fca.algorithms.scaling']
STUB = ['conditions', 'scale expressions']
STATE = 'digest of all value tables'

WORDS = ['red', 'blue', 'x', '', 'it\'s', 'a"b', 'null', 'ä', 'a b', 'value',
         'True', '\\', "'"]

# values that differ late
FINE = [1234567, 1234567.5, 1234568, 2.00000001, 1.9999999999, .1 + .2, .3,
        2 ** 53 - 1, 1e-9, 1e-300, -1e-9]


def draw_value(rng, style):
    if style == 'mixed':
        style = rng.choice(['int', 'float', 'text', 'numeral', 'bool', 'none'])
    if style == 'int':
        return rng.randint(-2, 6)
    if style == 'float':
        return rng.choice([.5, 1.0, 2.0, -1.25, 1e20, .1, 3.0] + FINE)
    if style == 'text':
        # a few words are numbers to Python
        return rng.choice(WORDS) if rng.random() < .96 else \
            rng.choice(['nan', 'Nan', 'inf', 'Infinity', '-inf', 'infinite'])
    if style == 'numeral':
        return rng.choice(['1', '2', ' 3', '2.0', '007', '-1', '1e1', '0',
                           '1234567', '2.00000001', '0.1'])
    if style == 'bool':
        return rng.random() < .5
    return None


def draw_expr(rng):
    """Scale expression as JSON: [kind, ...]; text and meaning derived."""
    k = rng.random()
    if k < .25:
        return ['cmp', rng.choice(['<', '<=', '>', '>=', '==', '!=']),
                rng.choice([0, 1, 2, 3, 1.5, -1] if rng.random() < .8
                           else FINE)]
    if k < .45:
        return ['cmp', rng.choice(['==', '!=']), rng.choice(WORDS)]
    if k < .6:
        return ['in', [rng.choice([1, 2, 3, 'red', 'x', '']) for _ in
                       range(rng.randint(0, 3))]]
    if k < .7:
        return ['between', rng.randint(-1, 2), rng.randint(1, 5)]
    if k < .8:
        return ['not', draw_expr(rng)]
    if k < .9:
        return [rng.choice(['and', 'or']), draw_expr(rng), draw_expr(rng)]
    return ['const', rng.random() < .7]


def text_of(e):
    if e[0] == 'cmp':
        return 'value %s %r' % (e[1], e[2])
    if e[0] == 'in':
        return 'value in %r' % (tuple(e[1]),)
    if e[0] == 'between':
        return '%r <= value < %r' % (e[1], e[2])
    if e[0] == 'not':
        return 'not (%s)' % text_of(e[1])
    if e[0] in ('and', 'or'):
        return '(%s) %s (%s)' % (text_of(e[1]), e[0], text_of(e[2]))
    return repr(e[1])


class Fails(Exception):
    pass


def meaning(e, v):
    if e[0] == 'cmp':
        if e[1] == '==':
            return v == e[2]
        if e[1] == '!=':
            return v != e[2]
        if isinstance(v, str):
            raise Fails()
        return {'<': v < e[2], '<=': v <= e[2], '>': v > e[2],
                '>=': v >= e[2]}[e[1]]
    if e[0] == 'in':
        return v in e[1]
    if e[0] == 'between':
        if isinstance(v, str):
            raise Fails()
        return e[1] <= v < e[2]
    if e[0] == 'not':
        return not meaning(e[1], v)
    if e[0] == 'and':
        return meaning(e[1], v) and meaning(e[2], v)
    if e[0] == 'or':
        return meaning(e[1], v) or meaning(e[2], v)
    return e[1]


def seen(v):
    """The value a scale sees."""
    try:
        return float(v)
    except (TypeError, ValueError):
        return str(v)


def draw_scale(rng, large):
    k = rng.random()
    if k < .35:
        return ['nominal', rng.random() < .5]
    if k < .55:
        lo = rng.randint(-1, 2)
        return ['ordinal', lo, lo + (rng.randint(0, 5)
                                    if large or rng.random() < .98
                                    else rng.randint(6, 20)),
                rng.choice(['leq', 'geq'])]
    n, m = rng.randint(0, 4), rng.randint(0, 3)
    if not large and rng.random() < .02:
        n, m = rng.randint(5, 12), rng.randint(4, 12)
    return ['own', [draw_expr(rng) for _ in range(n)],
            [[int(rng.random() < .5) for _ in range(m)] for _ in range(n)], m]


def generate(rng, tier):
    n, m = rng.randint(0, 5), rng.randint(0, 4)
    if rng.random() < .01:
        n = draw_many(rng)
    elif rng.random() < .01:
        m = rng.randint(8, 20)
    styles = [rng.choice(['int', 'int', 'float', 'text', 'numeral', 'mixed',
                          'bool', 'none']) for _ in range(m)]
    plan = {'objs': draw_names(rng, n, 'word'),
            'atts': draw_names(rng, m, 'word'),
            'rows': [[draw_value(rng, s) for s in styles] for _ in range(n)]}
    known = plan['objs'] + plan['atts']
    ops = []
    for _ in range(history(rng, 4, 18)):
        kind = rng.choice(['add_object', 'add_attribute', 'delete_object',
                           'delete_attribute', 'delete_attributes',
                           'rename_object', 'rename_attribute', 'refuse',
                           'by_attributes', 'by_condition', 'by_values', 'copy',
                           'scale', 'scale', 'scale'])
        name = draw_name(rng, known)
        op = {'do': kind, 'w': rng.randrange(3), 'ix': rng.randrange(64),
              'bits': rng.getrandbits(24), 'name': str(name)}
        style = rng.choice(['int', 'text', 'mixed', 'numeral', 'float'])
        if kind.startswith('add'):
            op['values'] = [draw_value(rng, style)
                            for _ in range(max(n, m, 7) + 5)]
        elif kind == 'scale':
            op['scales'] = [draw_scale(rng, max(n, m) > 7)
                            for _ in range(rng.randint(1, 5))]
        elif kind == 'refuse':
            op['how'] = rng.randrange(11)
        ops.append(op)
    plan['ops'] = ops
    return plan


class Values(Table):
    """The model: a named table of values."""

    def __init__(self, objs, atts, rows):
        self.objs, self.atts = list(objs), list(atts)
        self.rows = [list(r) for r in rows]


def typed(x):
    if isinstance(x, list):
        return [typed(y) for y in x]
    return type(x).__name__, x


def check_values(env, cxt, t):
    env.eq('objects', list(cxt.objects), t.objs)
    env.eq('attributes', list(cxt.attributes), t.atts)
    env.eq('length', len(cxt), len(t.objs))
    env.eq('values', typed([list(cxt[i]) for i in range(len(cxt))]),
           typed(t.rows))
    env.eq('values of table', typed([list(r) for r in cxt.table]),
           typed(t.rows))
    env.eq('values one by one',
           typed([[cxt.get_value(o, a) for a in t.atts] for o in t.objs]),
           typed(t.rows))


def make_scale(env, fca, spec, cxt, t, j, edits):
    """(library scale, [(scale attribute, function value -> bool or Fails)])"""
    if spec[0] == 'nominal':
        which = t.atts[j] if spec[1] else j
        scale = env.call('NominalScale', fca.scale.NominalScale, which, cxt)
        vals = {seen(r[j]) for r in t.rows}
        cols = {(str(v) if isinstance(v, float) else repr(v)):
                (lambda x, v=v: x == v or x != x and v != v) for v in vals}
    elif spec[0] == 'ordinal':
        lo, hi, mode = spec[1:]
        scale = env.call('OrdinalScale', fca.scale.OrdinalScale, lo, hi, mode)
        inside = range(lo, hi + 1)
        if mode == 'leq':
            cols = {'<= %d' % c: (lambda x, c=c: x in inside and x <= c)
                    for c in range(lo, hi)}
        else:
            cols = {'>= %d' % c: (lambda x, c=c: x in inside and x >= c)
                    for c in range(lo + 1, hi + 1)}
    else:
        exprs, table, m = spec[1:]
        atts = ['c%d' % c for c in range(m)]
        base = env.call('Context', fca.Context,
                        [[bool(x) for x in r] for r in table],
                        simple_clash_free(exprs), atts)
        scale = env.call('Scale', fca.Scale, base)

        def column(x, c):
            # every expression may be asked, in any order
            out = False
            for e, r in zip(exprs, table):
                if meaning(e, x) and r[c]:
                    out = True
            return out
        cols = {a: (lambda x, c=c: column(x, c)) for c, a in enumerate(atts)}
        for c in range(m):
            if c % 2 and base.objects:
                base.delete_attribute('c%d' % c)    # the scale is its own
    if edits & 1:
        a = pick(list(scale.attributes) or [''], edits >> 3)
        if edits & 2 and a:
            env.call('rename_attribute', scale.rename_attribute, a, a + '*')
            cols = {x + '*' if x == a else x: f for x, f in cols.items()}
        elif a:
            env.call('delete_attribute', scale.delete_attribute, a)
            del cols[a]
        if edits & 4:
            env.call('add_attribute_with_extent',
                     scale.add_attribute_with_extent, set(), 'never')
            exprs = spec[1] if spec[0] not in ('nominal', 'ordinal') else []
            cols['never'] = lambda x: bool([meaning(e, x) for e in exprs] and
                                           False)
        env.probe('scale edited')
    return scale, cols


def simple_clash_free(exprs):
    """Expressions as object names: equal ones are written differently."""
    out = []
    for e in exprs:
        s = text_of(e)
        while s in out:
            s = '(%s)' % s
        out.append(s)
    return out


def show_scale(s):
    return (list(s.objects), list(s.attributes),
            [list(s[i]) for i in range(len(s))])


def execute(plan, env):
    fca = core.load_fca()
    from fca.algorithms.scaling import scale_mvcontext
    M = fca.ManyValuedContext
    cxts = [env.call('ManyValuedContext', M, copy.deepcopy(plan['rows']),
                     list(plan['objs']), list(plan['atts']))]
    ts = [Values(plan['objs'], plan['atts'], plan['rows'])]
    scaled = []                 # (scaled context, model table)
    edited, useful = set(), False
    derived = set()

    def put(cxt, t):
        env.check(type(cxt) is M, 'not a many-valued context', got=type(cxt))
        if len(cxts) < 3:
            cxts.append(cxt)
            ts.append(t)
            derived.add(len(ts) - 1)
        else:
            check_values(env, cxt, t)

    for op in plan['ops']:
        w = op['w'] % len(ts)
        cxt, t = cxts[w], ts[w]
        n, m = len(t.objs), len(t.atts)
        do, ix, bits, name = op['do'], op['ix'], op['bits'], op['name']
        some = [a for j, a in enumerate(t.atts) if bits >> j & 1]
        if ix & 1:
            some.reverse()
        if do == 'add_object' and n < max(7, len(plan['objs']) + 2):
            row = op['values'][:m]
            box = [list, tuple, list, lambda v: np.array(v, dtype=object)]
            env.call(do, cxt.add_object, box[ix % 4](row), name)
            t.rows.append(row)
            t.objs = settle_names(env, 'objects', t.objs + [name], cxt.objects)
        elif do == 'add_attribute' and m < max(6, len(plan['atts']) + 2):
            col = op['values'][:n]
            box = [list, tuple, list, lambda v: np.array(v, dtype=object)]
            env.call(do, cxt.add_attribute, box[ix % 4](col), name)
            for r, v in zip(t.rows, col):
                r.append(v)
            t.atts = settle_names(env, 'attributes', t.atts + [name],
                                  cxt.attributes)
        elif do == 'delete_object' and n:
            env.call(do, cxt.delete_object, pick(t.objs, ix))
            del t.objs[ix % n], t.rows[ix % n]
        elif do in ('delete_attribute', 'delete_attributes') and m:
            js = [ix % m] if do == 'delete_attribute' else \
                [t.atts.index(a) for a in some]
            if do == 'delete_attribute':
                env.call(do, cxt.delete_attribute, t.atts[js[0]])
            else:
                env.call(do, cxt.delete_attributes, some)
            for j in sorted(js, reverse=True):
                del t.atts[j]
                for r in t.rows:
                    del r[j]
        elif do == 'rename_object' and n:
            env.call(do, cxt.rename_object, pick(t.objs, ix), name)
            want = list(t.objs)
            want[ix % n] = name
            t.objs = settle_names(env, 'objects', want, cxt.objects)
        elif do == 'rename_attribute' and m:
            env.call(do, cxt.rename_attribute, pick(t.atts, ix), name)
            want = list(t.atts)
            want[ix % m] = name
            t.atts = settle_names(env, 'attributes', want, cxt.attributes)
        elif do == 'refuse':
            how = op['how']
            calls = [('delete_object', (UNKNOWN,)),
                     ('delete_attribute', (UNKNOWN,)),
                     ('delete_attributes', (some + [UNKNOWN],)),
                     ('rename_object', (UNKNOWN, name)),
                     ('rename_attribute', (UNKNOWN, name)),
                     ('extract_subcontext', (some + [UNKNOWN],)),
                     ('extract_subcontext_by_attribute_values',
                      ({UNKNOWN: 1},)),
                     ('get_value', (UNKNOWN, UNKNOWN)),
                     ('add_object', ([1] * (m + 1), name)),
                     ('add_attribute', ([1] * (n + 1), name)),
                     ('add_object', ([1] * (m - 1), name))]
            method, args = calls[how]
            if how == 8 and n == 0 or how == 9 and not n or \
                    how == 10 and (m == 0 or n == 0):
                continue
            env.refused(method, getattr(cxt, method), *args)
            env.fault('refused edit')
        elif do == 'by_attributes':
            js = [t.atts.index(a) for a in some]
            put(env.call(do, cxt.extract_subcontext, some),
                Values(t.objs, some, [[r[j] for j in js] for r in t.rows]))
        elif do == 'by_condition':
            if ix % 5 == 0 and n:
                def bad(i):
                    if i == bits % n:
                        raise core.fault(bits, 'condition fails')
                    return True
                e = env.refused('condition',
                                cxt.extract_subcontext_by_condition, bad)
                env.check(isinstance(e, core.SimulatedFault), 'failure replaced', error=e)
                env.fault('condition fails')
            else:
                keep = [i for i in range(n) if bits >> i & 1]
                put(env.call(do, cxt.extract_subcontext_by_condition,
                             lambda i: bool(bits >> i & 1)),
                    Values([t.objs[i] for i in keep], t.atts,
                           [t.rows[i] for i in keep]))
        elif do == 'by_values':
            want = {}
            for j, a in enumerate(t.atts):
                if bits >> j & 1 and bits >> (j + 8) & 1 and n:
                    want[a] = t.rows[(ix + (bits >> 16) * j) % n][j]
            if ix % 7 == 0 and m:
                want[t.atts[ix % m]] = 'nothing has this'
            keep = [i for i in range(n)
                    if all(t.rows[i][t.atts.index(a)] == v
                           for a, v in want.items())]
            put(env.call(do, cxt.extract_subcontext_by_attribute_values, want),
                Values([t.objs[i] for i in keep], t.atts,
                       [t.rows[i] for i in keep]))
        elif do == 'copy':
            put(env.call(do, copy.deepcopy, cxt),
                Values(t.objs, t.atts, t.rows))
        elif do == 'scale':
            specs = [pick(op['scales'], j) for j in range(m)]
            pairs = [make_scale(env, fca, s, cxt, t, j,
                                bits >> 5 * j & 31 if ix % 3 == 0 else 0)
                     for j, s in enumerate(specs)]
            scales = [s for s, _ in pairs]
            if ix % 4 == 0 and m > 1 and specs[0] == specs[1] and \
                    specs[0][0] != 'nominal':
                scales[1] = scales[0]       # one scale for both
                pairs[1] = pairs[0]
            before = [show_scale(s) for s in scales]
            if ix % 9 == 0 and m and len(pairs[-1][1]):
                env.refused('too few scales', scale_mvcontext, cxt,
                            scales[:-1])
                env.fault('scale missing')
            names, columns, fails = [], [], False
            for j, (scale, cols) in enumerate(pairs):
                got = list(scale.attributes)
                env.eq('scale attributes', sorted(got), sorted(cols))
                if specs[j][0] != 'nominal':
                    env.eq('order of scale attributes', got, list(cols))
                for a in got:
                    names.append(t.atts[j] + ':' + a)
                    try:
                        columns.append([bool(cols[a](seen(r[j])))
                                        for r in t.rows])
                    except Fails:
                        fails = True
            if fails:
                # an expression that cannot be evaluated: refused, or not
                # needed; if there is an answer it must still be defined
                ok, got = env.attempt(scale_mvcontext, cxt, list(scales))
                env.fault('scale expression fails')
                env.probe('undefined scaling ' + ('answered' if ok else
                                                  'refused'))
            else:
                got = env.call(do, scale_mvcontext, cxt, list(scales))
                st = Table(t.objs, names,
                           [[int(c[i]) for c in columns] for i in range(n)])
                if len(set(names)) == len(names):
                    check_same_table(env, got, st, 'scaled context')
                    scaled.append((got, st))
                    if any(any(r) for r in st.rows) and edited:
                        useful = True
                    env.probe('scaled')
            for s, b in zip(scales, before):
                env.eq('scale afterwards', show_scale(s), b)
        else:
            continue
        if do in ('add_object', 'add_attribute', 'delete_object',
                  'delete_attribute', 'delete_attributes', 'rename_object',
                  'rename_attribute'):
            edited.add(w)
            if derived:
                useful = True
            env.probe(do)
        for c, x in zip(cxts, ts):
            check_values(env, c, x)
        for c, st in scaled[-2:]:
            check_same_table(env, c, st, 'scaled context')
        env.state([x.rows for x in ts])
    env.nontrivial = useful
