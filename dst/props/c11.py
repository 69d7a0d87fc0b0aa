"""C11: two-sided exploration."""
from .. import core
from ..explore import UNKNOWN, name_for, subset
from ..model import close, covering_of
from ..world import check_same_table, choose, draw_table, history, \
    make_context, shrink_key, swarm, ALPHA, Table

RUNS = {'quick': 19584, 'thorough': 210000}
RULE = ('a run starts one or two explorations from one initial context and '
        'interleaves up to 25 steps of them, from a mix drawn per run: '
        'confirmations by index on both sides, right and wrong '
        'counterexamples (premise missing, conclusion present, conflicting, '
        'name in use), additions and edits of both objects and attributes, '
        'the caller editing his initial context; after every step both '
        'exploration contexts, confirmed implications and listed questions '
        'are compared with the model (pseudo-intents by definition, both '
        'sides). Non-trivial: 3 steps worked, 1 was refused, something was '
        'confirmed')
REAL = ['BasicExploration', 'fca.Context', 'aibasis', 'Implication']
STUB = ['the expert', 'the order of his answers']
STATE = 'digest of table and confirmed implications of both sides'
shrink = shrink_key('table')

STEPS = {'confirm_att': 12, 'confirm_obj': 10, 'bad_index': 1,
         'reject_att': 14, 'reject_obj': 12, 'add_object': 6,
         'add_attribute': 6, 'edit_object': 8, 'edit_attribute': 8,
         'initial': 2, 'recompute': 1}
ANSWERS = ['good', 'good', 'good', 'good', 'respects', 'no premise',
           'conflict', 'name in use', 'any']


def pair_of(imp):
    return frozenset(imp.premise), frozenset(imp.conclusion)


def respects(s, imps):
    return all(not p <= s or c <= s for p, c in imps)


def canonical(t):
    """The canonical basis as {(premise, reduced conclusion)} in names."""
    return {(frozenset(t.aset(p)), frozenset(t.aset(c & ~p)))
            for p, c in (t.rel.pseudo_intents() if len(t.atts) < 9 else
                         t.rel.pseudo_intents_by_order())}


class BasicWorld:
    def __init__(self, env, fca, table, cxt=None):
        self.env, self.fca = env, fca
        from fca.algorithms.exploration import BasicExploration
        self.t = Table.of(table)
        self.ca, self.co = [], []
        self.done = self.refused = 0
        self.ex = env.call('BasicExploration', BasicExploration,
                           make_context(fca, table) if cxt is None else cxt)

    def check(self, label, light=False):
        env, ex, t = self.env, self.ex, self.t
        check_same_table(env, ex.context, t, 'exploration context after ' +
                         label)
        ca = [pair_of(i) for i in ex.confirmed_attribute_implications]
        co = [pair_of(i) for i in ex.confirmed_object_implications]
        env.eq('confirmed attribute implications after ' + label, set(ca),
               set(self.ca))
        env.eq('confirmed object implications after ' + label, set(co),
               set(self.co))
        intents = [t.intent_of(o) for o in t.objs]
        extents = [t.extent_of(a) for a in t.atts]
        for imps, sets, side in ((self.ca, intents, 'attribute'),
                                 (self.co, extents, 'object')):
            for p, c in imps:
                env.check(all(not p <= s or c <= s for s in sets),
                          'confirmed %s implication violated after %s' %
                          (side, label), premise=p, conclusion=c,
                          table=t.as_plan())
        la = [pair_of(i) for i in ex.attribute_implications]
        lo = [pair_of(i) for i in ex.object_implications]
        for got, tab, conf, side in (
                (la, t, self.ca, 'attribute'),
                (lo, t.transposed(), self.co, 'object')):
            env.check(len(set(got)) == len(got),
                      'repeated %s question after %s' % (side, label), got=got)
            want = canonical(tab) - set(conf)
            env.eq('listed %s questions after %s' % (side, label), set(got),
                   want, table=t.as_plan(), confirmed=conf)
        env.state(t.rows, sorted(map(repr, self.ca)), sorted(map(repr, self.co)))

    def step(self, label, valid, call, *args):
        env = self.env
        if valid:
            env.call(label, call, *args)
            self.done += 1
        else:
            env.refused(label, call, *args)
            env.fault('refused: ' + label)
            self.refused += 1
        env.probe(label + (' ok' if valid else ' refused'))
        return valid

    def closed(self, names, imps, s):
        index = {a: j for j, a in enumerate(names)}

        def m(xs):
            return sum(1 << index[x] for x in xs if x in index)
        out = close(m(s), [(m(p), m(c)) for p, c in imps])
        return {a for a, j in index.items() if out >> j & 1}

    def apply(self, op):
        kind, i, b, name, k = op
        env, t, ex = self.env, self.t, self.ex

        def add_row(name, intent):
            t.objs.append(name)
            t.rows.append([int(a in intent) for a in t.atts])

        def add_col(name, extent):
            t.atts.append(name)
            for o, r in zip(t.objs, t.rows):
                r.append(int(o in extent))

        if kind in ('confirm_att', 'confirm_obj'):
            att = kind == 'confirm_att'
            lst = ex.attribute_implications if att else ex.object_implications
            if not lst:
                return
            i %= len(lst)
            pair = pair_of(lst[i])
            self.step(kind, True, ex.confirm_attribute_implication if att else
                      ex.confirm_object_implication, i)
            (self.ca if att else self.co).append(pair)
            env.probe('confirmed')
        elif kind == 'bad_index':
            n = len(ex.attribute_implications)
            self.step(kind, False, ex.confirm_attribute_implication, n + i % 3)
            n = len(ex.object_implications)
            self.step(kind, False, ex.confirm_object_implication, n + i % 3)
        elif kind in ('reject_att', 'reject_obj'):
            att = kind == 'reject_att'
            lst = ex.attribute_implications if att else ex.object_implications
            if not lst:
                return
            i %= len(lst)
            p, c = pair_of(lst[i])
            names, used, conf = (t.atts, t.objs, self.ca) if att else \
                (t.objs, t.atts, self.co)
            if len(used) >= 7:
                return
            how = ANSWERS[k % len(ANSWERS)]
            s = self.closed(names, conf, p | subset(names, b & b >> 9))
            if how in ('good', 'name in use') and c <= s:
                s = self.closed(names, conf, p)
            if how == 'respects':
                s = self.closed(names, conf, p | c)
            elif how == 'no premise':
                s = s - set(sorted(p, key=repr)[:1])
            elif how == 'conflict':
                s = set(p)
            elif how == 'any':
                s = subset(names, b)
            while name in used:
                name += 'x'
            if how == 'name in use' and used:
                name = used[b % len(used)]
            ok = p <= s and not c <= s and respects(s, conf) and \
                name not in used
            call = ex.counter_example_for_attr_implication if att else \
                ex.counter_example_for_obj_implication
            if self.step(kind + ': ' + how, ok, call, name, set(s), i):
                (add_row if att else add_col)(name, s)
        elif kind in ('add_object', 'add_attribute'):
            obj = kind == 'add_object'
            names, used, conf = (t.atts, t.objs, self.ca) if obj else \
                (t.objs, t.atts, self.co)
            if len(used) >= 7:
                return
            s = subset(names, b)
            if k % 3:
                s = self.closed(names, conf, s)
            name = name_for(self, used, name, i)
            ok = respects(s, conf) and name not in used
            if self.step(kind, ok, ex.add_object if obj else ex.add_attribute,
                         set(s), name):
                (add_row if obj else add_col)(name, s)
        elif kind in ('edit_object', 'edit_attribute'):
            obj = kind == 'edit_object'
            used = t.objs if obj else t.atts
            names, conf, other = (t.atts, self.ca, self.co) if obj else \
                (t.objs, self.co, self.ca)
            call = ex.edit_object if obj else ex.edit_attribute
            if not used or k % 11 == 0:
                self.step(kind, False, call, set(), UNKNOWN)
                return
            x = i % len(used)
            old = t.intent_of(used[x]) if obj else t.extent_of(used[x])
            flip = b & b >> 5 & b >> 11 if k % 3 else b
            s = old ^ subset(names, flip)
            if k % 2:
                s = self.closed(names, conf, s)
            bad = k % 8 == 0
            new = t.copy()
            for y, nm in enumerate(names):
                if obj:
                    new.rows[x][y] = int(nm in s)
                else:
                    new.rows[y][x] = int(nm in s)
            ok = not bad and respects(s, conf) and all(
                respects(z, other) for z in
                ([new.extent_of(a) for a in t.atts] if obj else
                 [new.intent_of(o) for o in t.objs]))
            if self.step(kind, ok, call, set(s) | ({UNKNOWN} if bad else set()),
                         used[x]):
                t.rows = new.rows
        elif kind == 'recompute':
            self.step(kind, True, ex.recompute_basis)
        else:
            raise ValueError(kind)


def draw_step(rng, mix):
    return [choose(rng, mix), rng.randrange(6400), rng.getrandbits(60),
            ''.join(rng.choice(ALPHA) for _ in range(rng.randint(1, 3))),
            rng.randrange(720)]


def generate(rng, tier):
    mix = swarm(rng, STEPS)
    t = draw_table(rng, 5, 5, sortable=True, tall=.04, most=14, wide=.04)
    return {'table': t, 'two': rng.random() < .3,
            'ops': [draw_step(rng, mix) + [rng.randrange(2)]
                    for _ in range(history(rng, 4, 25))]}


def execute(plan, env):
    fca = core.load_fca()
    initial = make_context(fca, plan['table'])
    model = Table.of(plan['table'])
    ws = [BasicWorld(env, fca, plan['table'], initial)
          for _ in range(1 + plan['two'])]
    for w in ws:
        w.check('start')
    for op in plan['ops']:
        if op[0] == 'initial':
            # the caller goes on with his own context
            if model.objs and model.atts:
                i, j = op[1] % len(model.objs), op[4] % len(model.atts)
                model.rows[i][j] ^= 1
                initial.set_object_intent(model.intent_of(model.objs[i]),
                                          model.objs[i])
                env.probe('initial context edited')
        else:
            ws[op[5] % len(ws)].apply(op[:5])
        for w in ws:
            w.check(op[0])
    check_same_table(env, initial, model, 'initial context')
    env.nontrivial = sum(w.done for w in ws) >= 3 and \
        sum(w.refused for w in ws) >= 1 and env.probes['confirmed'] > 0
