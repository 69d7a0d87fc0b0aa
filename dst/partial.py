"""Partial contexts: model, and steps applied to both."""
from . import core
from .explore import Expert, imp_pair, sorted_pairs, subset
from .model import close
from .world import ALPHA, Table, bools, check_same_table, choose, settle_names


def draw_partial(rng, table):
    """Question marks sprinkled over a table: (x rows, q rows)."""
    d = rng.choice([0, .15, .3, .6])
    x = [[int(v and rng.random() >= d) for v in r] for r in table['rows']]
    q = [[int(v or rng.random() < d) for v in r] for r in table['rows']]
    return {'objs': table['objs'], 'atts': table['atts'], 'rows': x, 'q': q}


class PartialWorld:
    def __init__(self, env, fca, plan, db=False):
        from fca.partial_context import PartialContext
        self.env, self.fca, self.cls = env, fca, PartialContext
        self.x = Table(plan['objs'], plan['atts'], plan['rows'])
        self.q = Table(plan['objs'], plan['atts'], plan['q'])
        self.cxt = env.call('PartialContext', PartialContext,
                            bools(plan['rows']), bools(plan['q']),
                            list(plan['objs']), list(plan['atts']))
        self.base, self.stale = [], []
        self.done = self.refused = 0
        self.db = None
        if db:
            from importlib import import_module
            mod = import_module('fca.algorithms.exploration_.exploration')
            self.db = env.call('ExplorationDB', mod.ExplorationDB, self.cxt, [])
            self.expert = Expert()
            self.ex = mod.AttributeExploration(self.db, self.expert)

    # -- model
    @property
    def atts(self):
        return self.x.atts

    @property
    def objs(self):
        return self.x.objs

    def masks(self, imps):
        return [(self.x.amask(p), self.x.amask(c)) for p, c in imps]

    def closed(self, s, imps):
        return self.x.aset(close(self.x.amask(s), self.masks(imps)))

    def fits(self, x, q, imps):
        return self.closed(x, imps) <= q

    def pairs(self):
        return [(self.x.intent_of(o), self.q.intent_of(o)) for o in self.objs]

    def completed(self, imps):
        out = []
        for x, q in self.pairs():
            nx = self.closed(x, imps)
            out.append((nx, {a for a in q if a in nx or
                             self.closed(nx | {a}, imps) <= q}))
        return out

    def set_pairs(self, pairs):
        for k, (x, q) in enumerate(pairs):
            self.x.rows[k] = [int(a in x) for a in self.atts]
            self.q.rows[k] = [int(a in q) for a in self.atts]

    def add(self, name, x, q, rename=False):
        objs = self.objs + [name]
        if rename:
            objs = settle_names(self.env, 'objects', objs, self.cxt.objects)
        self.x.objs, self.q.objs = list(objs), list(objs)
        self.x.rows.append([int(a in x) for a in self.atts])
        self.q.rows.append([int(a in q) for a in self.atts])

    def xq_closure(self, s):
        out = set(self.atts)
        for x, q in self.pairs():
            if s <= x:
                out &= q
        return out

    # -- comparing
    def check(self, label):
        env, c = self.env, self.cxt
        check_same_table(env, c.x_context, self.x, 'certain part after ' +
                         label)
        check_same_table(env, c.q_context, self.q, 'possible part after ' +
                         label)
        env.eq('objects after ' + label, list(c.objects), self.objs)
        env.eq('attributes after ' + label, list(c.attributes), self.atts)
        env.eq('intents after ' + label, [(set(x), set(q)) for x, q in
                                          c.intents()], self.pairs())
        for x, q in c.intents():
            env.check(x <= q, 'certain but not possible after ' + label,
                      certain=x, possible=q)
        if self.db is not None:
            db = self.db
            env.eq('db objects', list(db.objects), self.objs)
            env.eq('db attributes', list(db.attributes), self.atts)
            env.eq('confirmed implications after ' + label,
                   sorted_pairs(map(imp_pair, db.base)),
                   sorted_pairs(self.base))
            for x, q in self.pairs():
                env.check(self.fits(x, q, self.base), 'example contradicts '
                          'confirmed implications after ' + label,
                          example=(x, q), base=self.base)
            opened = db.open_implications
            self.judge_open(opened, self.base, label)
            for i in opened:
                if len(self.stale) < 50:
                    self.stale.append(i)
        env.state(self.x.rows, self.q.rows, sorted_pairs(self.base))

    def judge_open(self, imps, base, label, bound=None):
        """Questions are not refuted, not settled, and there are none exactly
        when every set closed under the confirmed implications is witnessed."""
        env = self.env
        for imp in imps:
            p, c = set(imp.premise), set(imp.conclusion)
            env.check(p | c <= set(self.atts), 'question over unknown names')
            env.check(c and c <= self.xq_closure(p), 'refuted question after '
                      + label, premise=p, conclusion=c, examples=self.pairs())
            env.check(self.closed(p, base) == p, 'question already settled '
                      'after ' + label, premise=p, conclusion=c, base=base)
            env.check(bound is None or len(p) <= bound, 'question beyond the '
                      'condition', premise=p, bound=bound)
        pairs = list(map(imp_pair, imps))
        env.check(len(set(pairs)) == len(pairs), 'repeated question')
        masks = self.masks(base)
        complete = all(self.xq_closure(self.x.aset(s)) == self.x.aset(s)
                       for s in range(1 << len(self.atts))
                       if close(s, masks) == s and
                       (bound is None or s.bit_count() <= bound))
        env.eq('absence of questions after ' + label, not imps, complete,
               examples=self.pairs(), base=base)

    def step(self, label, valid, call, *args):
        env = self.env
        if valid:
            env.call(label, call, *args)
            self.done += 1
        else:
            env.refused(label, call, *args)
            env.fault('refused: ' + label)
            self.refused += 1
        env.probe(label + (' ok' if valid else ' refused'))
        return valid

    # -- steps
    def draw_example(self, b, k, imps):
        """(certain, possible): mostly consistent with imps."""
        x = subset(self.atts, b & b >> 13)
        q = x | subset(self.atts, b >> 23)
        if k % 3 == 0:
            q |= self.closed(x, imps)
        elif k % 3 == 1:
            x = self.closed(x, imps)
            q |= x
        elif k % 5 == 0:
            q -= subset(self.atts, b >> 37)         # perhaps inconsistent
        return x, q

    def draw_imps(self, b):
        out = []
        for j in range(b % 4):
            p = subset(self.atts, b >> 7 * j + 3 & b >> 5 * j + 11)
            c = subset(self.atts, b >> 9 * j + 17 & b >> 3 * j + 5)
            out.append((frozenset(p), frozenset(c - p)))
        return out

    def imps(self, pairs):
        return [self.fca.Implication(set(p), set(c)) for p, c in pairs]

    def apply(self, op):
        kind, i, b, name, k = op
        (self.apply_db if self.db is not None else self.apply_raw)(
            kind, i, b, name, k)

    def apply_raw(self, kind, i, b, name, k):
        env, c = self.env, self.cxt
        if kind == 'add':
            if len(self.objs) > 8:
                return
            x, q = self.draw_example(b, k, [])
            if i % 6 == 0 and self.objs and isinstance(self.objs[0], str):
                name = self.objs[i % len(self.objs)]
            while i % 6 and name in self.objs:
                name += 'x'
            given = (set(x), set(q))
            if self.step(kind, x <= q, c.add_object_with_intent, given, name):
                self.add(name, x, q, rename=True)
            given[0].add('changed later')
        elif kind == 'complete':
            imps = self.draw_imps(b)
            ok = all(self.fits(x, q, imps) for x, q in self.pairs())
            lib = self.imps(imps)
            if not ok:
                env.probe('completion impossible')
            if self.step(kind, ok, c.complete, lib):
                want = self.completed(imps)
                if want != self.pairs():
                    env.probe('completion changed something')
                self.set_pairs(want)
                if k % 2:
                    self.check('complete')
                    env.call('complete again', c.complete, lib)
        elif kind == 'closure':
            s = subset(self.atts, b & b >> 9)
            given = set(s)
            env.eq('xq closure', set(env.call(kind, c.xq_aclosure, given)),
                   self.xq_closure(s), set=s, examples=self.pairs())
            env.eq('set passed in', given, s)
        elif kind == 'implications':
            imps = self.draw_imps(b) if k % 2 else []
            lib = self.imps(imps)
            if k % 4 == 2:
                bound = b % 5
                got = env.call(kind, c.get_attribute_implications,
                               confirmed=lib, cond=lambda p: len(p) <= bound)
                self.judge_open(got, imps, kind, bound)
                env.probe('partial questions with a condition')
                return
            got = env.call(kind, c.get_attribute_implications, confirmed=lib)
            self.judge_open(got, imps, kind)
        elif kind == 'derive':
            if k % 2:
                d = env.call('transpose', c.transpose)
                xt, qt = self.x.transposed(), self.q.transposed()
            else:
                from copy import deepcopy
                d = env.call('deepcopy', deepcopy, c)
                xt, qt = self.x.copy(), self.q.copy()
            check_same_table(env, d.x_context, xt, 'derived certain part')
            check_same_table(env, d.q_context, qt, 'derived possible part')
            env.eq('derived objects', list(d.objects), xt.objs)
            env.eq('derived attributes', list(d.attributes), xt.atts)
            if k % 4 > 1:
                d.add_object_with_intent((set(), set(xt.atts)), 'added')
            elif b % 3 == 0 and len(xt.atts) <= 10:
                # go on with the copy, spoil the original
                old, self.cxt = c, d
                self.x, self.q = xt, qt
                old.add_object_with_intent((set(), set()), 'spoilt')
                env.probe('went on with a derived partial context')
        elif kind == 'inconsistent':
            x = [list(r) for r in self.x.rows]
            q = [list(r) for r in self.q.rows]
            if not self.objs or not self.atts:
                return
            if b % 3 == 0:
                # parts of different size
                part = q if b % 2 else x
                if b % 5 < 3:
                    del part[i % len(part)]
                else:
                    for r in part:
                        del r[k % len(r)]
                self.step('misfit', False, self.cls, bools(x), bools(q),
                          list(self.objs), list(self.atts))
                return
            r, a = i % len(self.objs), k % len(self.atts)
            x[r][a], q[r][a] = 1, 0
            self.step(kind, False, self.cls, bools(x), bools(q),
                      list(self.objs), list(self.atts))

    def apply_db(self, kind, i, b, name, k):
        env, db, ex = self.env, self.db, self.ex
        while name in self.objs:
            name += 'x'
        if kind in ('confirm', 'confirm_bogus', 'confirm_many'):
            if kind == 'confirm_bogus':
                imps = self.imps([(subset(self.atts, b & b >> 7),
                                   subset(self.atts, b >> 20 & b >> 29))])
            else:
                pool = db.open_implications
                if kind == 'confirm_many' or k % 5 == 0:
                    pool = pool + self.stale
                if not pool:
                    return
                imps = [pool[(i + 5 * n) % len(pool)]
                        for n in range(1 + (k % 3 if kind == 'confirm_many'
                                            else 0))]
            pairs = [imp_pair(x) for x in imps]
            base = self.base + pairs
            ok = all(self.fits(x, q, base) for x, q in self.pairs())
            if k % 2 and len(imps) == 1:
                if self.step(kind + ' without completing', ok,
                             db.confirm_implication, imps[0]):
                    self.base = base
            elif self.step(kind, ok, ex.confirm_implications, imps):
                self.base = base
                self.set_pairs(self.completed(base))
        elif kind == 'unconfirm':
            if self.base:
                p, c = self.base[i % len(self.base)]
                self.step(kind, True, ex.unconfirm_implication,
                          self.imps([(p, c)])[0])
                self.base.remove((p, c))
        elif kind == 'add':
            if len(self.objs) > 8:
                return
            x, q = self.draw_example(b, k, self.base)
            if i % 8 == 0 and self.objs:
                name = self.objs[i % len(self.objs)]
            ok = name not in self.objs and self.fits(x, q, self.base)
            if self.step(kind, ok, db.add_example, name, (set(x), set(q))):
                self.add(name, x, q)
        elif kind == 'complete':
            self.step(kind, True, db.complete)
            self.set_pairs(self.completed(self.base))
        elif kind == 'reject':
            pool = db.open_implications + (self.stale if k % 6 == 0 else [])
            if not pool or len(self.objs) > 9:
                return
            imp = pool[i % len(pool)]
            if k % 13 == 0:
                self.expert.answer = core.fault(i + b, 'answer lost')
                try:
                    ex.reject_implication(imp)
                    env.fail('expert failure swallowed')
                except core.SimulatedFault:
                    env.fault('expert: lost')
                self.refused += 1
                return
            p, c = imp_pair(imp)
            # what is really the case, and what is withheld
            real = self.closed(p | subset(self.atts, b & b >> 9), self.base)
            if c <= real and k % 4:
                real = self.closed(p, self.base)
            x = set(p) | (real & subset(self.atts, b >> 15))
            q = set(real) | (subset(self.atts, b >> 21) &
                             (set(self.atts) - c if k % 7 else
                              set(self.atts)))
            if k % 11 == 0:
                x -= set(sorted(p, key=repr)[:1])
            names, exs = [name], [(x, q)]
            if k % 5 == 0:
                names.append(name + '2')
                exs.append(self.draw_example(b >> 5, k, self.base))
            if k % 17 == 0 and self.objs:
                names[-1] = self.objs[0]
            ok = p <= x and not c <= q and not set(names) & set(self.objs) \
                and all(self.fits(u, v, self.base) for u, v in exs)
            self.expert.answer = (list(names),
                                  [(set(u), set(v)) for u, v in exs])
            if self.step(kind, ok, ex.reject_implication, imp):
                for n, (u, v) in zip(names, exs):
                    self.add(n, u, v)
                self.set_pairs(self.completed(self.base))


RAW = {'add': 10, 'complete': 14, 'closure': 6, 'implications': 5, 'derive': 4,
       'inconsistent': 1}
DB = {'confirm': 14, 'confirm_bogus': 8, 'confirm_many': 6, 'unconfirm': 4,
      'add': 10, 'complete': 5, 'reject': 16}


def draw_step(rng, mix):
    return [choose(rng, mix), rng.randrange(6400), rng.getrandbits(60),
            ''.join(rng.choice(ALPHA) for _ in range(rng.randint(1, 3))),
            rng.randrange(60060)]
