"""C19: factors are concepts and reproduce the table."""
from .. import core
from ..world import (Table, check_same_table, draw_rich, draw_table, make_context,
                     shrink_table)

RUNS = {'quick': 72000, 'thorough': 576000}
RULE = ('a run has 1-3 contexts and up to 5 factorisations of them (plain, '
        'weighted, with size conditions; drawn fidelity), advanced in a drawn '
        'order, some suspended for long and some abandoned, factor contexts '
        'being made of what is there at any time. Every factor is checked '
        'against the concepts of the table, its reported share against the '
        'crosses it newly covers, the moment production stops against the '
        'fidelity, sizes against the conditions, and the product of the '
        'factor contexts against what is covered. Names, hence set order and '
        'tie breaking, are random. Non-trivial: two factorisations gave '
        'factors in turns')
REAL = ['factors.algorithm2, algorithm2_weighted, algorithm2_w_condition',
        'make_factor_cxts', 'fca.Context']
STUB = ['the order in which factorisations are advanced']
STATE = 'digest of table and factor sequence'
SCHEDULE = 'digest of the order of advances'


def generate(rng, tier):
    k = rng.randint(1, 3)
    # mixed names: nothing may need sorting
    tables = [draw_table(rng, 6, 6, sortable=False, tall=.02, wide=.04)
              for _ in range(k)]
    if rng.random() < .006:
        tables[0] = draw_rich(rng)
    if rng.random() < .1:
        tables[0]['rows'] = [[0] * len(r) for r in tables[0]['rows']]
    gens = []
    for _ in range(rng.randint(1, 5)):
        kind = rng.choice(['plain', 'plain', 'weighted', 'condition',
                           'condition'])
        fid = rng.choice([1, 1, 1, 0, rng.random(), rng.random(), .5, .9])
        gens.append([kind, rng.randrange(k), fid,
                     {'allow_repeatitions': rng.random() < .5,
                      'min_atts_and_objs': rng.randint(1, 3),
                      'objs_ge_atts': rng.random() < .5},
                     rng.random() < .8])
    return {'tables': tables, 'gens': gens,
            'ops': [[rng.choice(['next'] * 8 + ['product', 'product',
                                                 'abandon']),
                     rng.randrange(60)] for _ in range(rng.randint(3, 40))],
            'drain': rng.random() < .8}


def shrink(plan):
    import json
    for x, t in enumerate(plan['tables']):
        for s in shrink_table(t):
            p = json.loads(json.dumps(plan))
            p['tables'][x] = s
            yield p


LISTS = ['ops', 'gens']


class Run:
    def __init__(self, env, fca, cxt, t, spec):
        f = fca.algorithms.factors
        self.env, self.t, self.cxt, self.f = env, t, cxt, f
        self.kind, _, self.fid, self.cond, self.given = spec
        if self.kind == 'condition':
            if self.given:
                self.it = f.algorithm2_w_condition(cxt, fidelity=self.fid,
                                                   **self.cond)
            else:               # with the conditions of the signature
                self.cond = {'allow_repeatitions': True,
                             'min_atts_and_objs': 3, 'objs_ge_atts': False}
                self.it = f.algorithm2_w_condition(cxt, self.fid) \
                    if self.fid != 1 else f.algorithm2_w_condition(cxt)
            # every concept with a cross in it will do
            self.free = self.cond['min_atts_and_objs'] <= 1 and \
                not self.cond['objs_ge_atts']
        else:
            fn = f.algorithm2 if self.kind == 'plain' else \
                f.algorithm2_weighted
            # full coverage is the default
            self.it = fn(cxt) if self.fid == 1 and not self.given else \
                fn(cxt, self.fid)
        self.pairs = t.pairs()
        self.left = set(self.pairs)
        self.concepts = t.concepts()
        self.factors = []
        self.objects = []
        self.third = 0
        self.over = self.dropped = False

    def reached(self):
        total = len(self.pairs)
        c = (total - len(self.left)) / total if total else 1
        return c

    def uncovered(self, a):
        """New crosses of the concept of one attribute."""
        rel = self.t.rel
        e = rel.extent(1 << self.t.atts.index(a))
        return {(o, x) for o in self.t.oset(e)
                for x in self.t.aset(rel.intent(e))} & self.left

    def area(self, pairs):
        return len({o for o, _ in pairs}) * len({a for _, a in pairs}) / (
            len(self.t.objs) * len(self.t.atts))

    def advance(self):
        env, t = self.env, self.t
        if self.over:
            return False
        try:
            out = env.call('next factor (%s)' % self.kind, next, self.it, None)
        except core.Violation:
            raise
        near = abs(self.reached() - self.fid) < 1e-9 and self.fid not in (0, 1)
        if out is None:
            self.over = True
            if self.kind != 'condition' and not near:
                env.check(not self.pairs or self.reached() >= self.fid,
                          'production stopped early', covered=self.reached(),
                          wanted=self.fid, table=t.as_plan(), kind_=self.kind)
            if self.kind == 'condition' and self.free and not near:
                env.check(not self.pairs or self.third >= self.fid - 1e-9,
                          'production stopped early', covered=self.third,
                          wanted=self.fid, table=t.as_plan(),
                          condition=self.cond)
            env.probe('finished: ' + self.kind)
            return False
        env.check(self.pairs, 'factor of an empty relation', factor=out)
        if self.kind != 'condition' and not near:
            env.check(self.reached() < self.fid, 'production went on',
                      covered=self.reached(), wanted=self.fid,
                      table=t.as_plan(), kind_=self.kind)
        c = out[0]
        key = (frozenset(c.extent), frozenset(c.intent))
        env.check(key in self.concepts, 'factor is not a concept', factor=key,
                  kind_=self.kind, table=t.as_plan())
        new = {(o, a) for o in key[0] for a in key[1]} & self.left
        total = len(self.pairs)
        if self.kind == 'plain':
            env.check(abs(out[1] - len(new) / total) < 1e-9,
                      'wrong coverage', got=out[1], want=(len(new), total),
                      factor=key, table=t.as_plan())
            env.check(new, 'factor covers nothing new', factor=key)
            best = max(len(self.uncovered(a)) for a in t.atts)
            env.check(len(new) >= best, 'the concept of a single attribute '
                      'covers more', factor=key, covers=len(new), more=best,
                      table=t.as_plan())
        elif self.kind == 'weighted':
            area = self.area(new)
            env.check(abs(out[1] - area) < 1e-9, 'wrong weighted coverage',
                      got=out[1], want=area, factor=key, table=t.as_plan())
            best = max(self.area(self.uncovered(a)) for a in t.atts)
            env.check(area >= best - 1e-9, 'the concept of a single attribute '
                      'weighs more', factor=key, weight=area, more=best,
                      table=t.as_plan())
            env.check(new, 'factor covers nothing new', factor=key)
        else:
            e, i = len(key[0]), len(key[1])
            low = self.cond['min_atts_and_objs']
            env.check(e >= low and i >= low, 'factor too small', factor=key,
                      least=low, table=t.as_plan())
            if self.cond['objs_ge_atts']:
                env.check(e >= i, 'fewer objects than attributes', factor=key,
                          table=t.as_plan())
            env.check(self.third < self.fid, 'production went on',
                      covered=self.third, wanted=self.fid,
                      table=t.as_plan())
            env.check(self.third - 1e-9 <= out[2] <= 1 + 1e-9,
                      'total coverage shrank', got=out[2], before=self.third)
            env.check(0 < out[1] <= out[2] - self.third + 1e-9,
                      'share exceeds the growth of the total', got=out[1],
                      total=out[2], before=self.third)
            if self.cond['allow_repeatitions']:
                env.check(out[1] <= len(new) / total + 1e-9,
                          'wrong coverage', got=out[1],
                          most=(len(new), total), factor=key,
                          table=t.as_plan())
            self.third = out[2]
        self.left -= new
        self.factors.append(key)
        self.objects.append(c)
        env.probe('factor: ' + self.kind)
        return True

    def product(self):
        env, t = self.env, self.t
        if not self.factors:
            left, right = env.call('make_factor_cxts', self.f.make_factor_cxts)
            env.eq('contexts of no factors', [
                len(x) for x in (left.objects, left.attributes, right.objects,
                                 right.attributes)], [0] * 4)
        before = [(frozenset(c.extent), frozenset(c.intent))
                  for c in self.objects]
        env.eq('earlier factors', before, self.factors)
        left, right = env.call('make_factor_cxts', self.f.make_factor_cxts,
                               list(self.objects))
        names = list(left.attributes)
        env.eq('factor names', list(right.objects), names)
        env.check(len(set(names)) == len(names) == len(self.factors),
                  'wrong factor names', got=names)
        for k, (e, i) in enumerate(self.factors):
            env.eq('extent of a factor', {o for o in left.objects if names[k]
                                          in left.get_object_intent(o)},
                   set(e), factor=k)
            env.eq('intent of a factor', set(right.get_object_intent(names[k])),
                   set(i), factor=k)
        env.eq('objects of the factor context', sorted(map(repr, left.objects)),
               sorted(map(repr, set().union(*[e for e, _ in self.factors]))))
        env.eq('attributes of the factor context',
               sorted(map(repr, right.attributes)),
               sorted(map(repr, set().union(*[i for _, i in self.factors]))))
        if not self.factors:
            return
        p = env.call('product', lambda: left * right)
        got = {(o, a) for o in p.objects for a in p.get_object_intent(o)}
        want = {(o, a) for e, i in self.factors for o in e for a in i}
        env.eq('product of the factor contexts', got, want, table=t.as_plan())
        if not self.left:
            env.eq('product at full coverage', got, self.pairs,
                   table=t.as_plan())
            env.eq('objects of the product', sorted(map(repr, p.objects)),
                   sorted({repr(o) for o, _ in self.pairs}))
            env.eq('attributes of the product', sorted(map(repr, p.attributes)),
                   sorted({repr(a) for _, a in self.pairs}))
            env.probe('full product')


def execute(plan, env):
    fca = core.load_fca()
    tables = [Table.of(t) for t in plan['tables']]
    cxts = [make_context(fca, t) for t in plan['tables']]
    runs = []
    for spec in plan['gens']:
        k = spec[1] % len(cxts)
        runs.append(env.call('start', Run, env, fca, cxts[k], tables[k], spec))
    if not runs:
        return
    order, turns, last = [], 0, None
    for kind, i in plan['ops']:
        r = runs[i % len(runs)]
        if kind == 'next':
            if r.advance():
                order.append(i % len(runs))
                turns += last not in (None, i % len(runs))
                last = i % len(runs)
            env.ticks += 1
        elif kind == 'product':
            r.product()
        elif not r.over:
            r.it.close()
            r.over = r.dropped = True
            env.fault('factorisation abandoned')
    if plan['drain']:
        for r in runs:
            for _ in range(60):
                if not r.advance():
                    break
            else:
                env.check(r.over, 'factorisation does not end',
                          factors=r.factors, table=r.t.as_plan())
            r.product()
    for r in runs:
        if r.over and not r.dropped and r.kind != 'condition' and r.fid == 1:
            env.check(not r.left, 'crosses not covered', missing=r.left)
    for c, t in zip(cxts, tables):
        check_same_table(env, c, t)
    for r in runs:
        env.state(r.t.rows, r.kind, [sorted(map(repr, i)) for _, i in
                                     r.factors])
    env.schedules.add(core.digest(order))
    env.nontrivial = turns > 0
