"""The exploration database: its model, and steps applied to both."""
from . import core
from .model import close
from .queries import fulfils, judge_basis, show_imps
from .world import ALPHA, Table, make_context

UNKNOWN = 'no such name'


class Expert:
    """Answers exactly what the plan says."""

    def __init__(self):
        self.answer = None

    def provide_counterexample(self, imp):
        if isinstance(self.answer, BaseException):
            raise self.answer
        return self.answer


def imp_pair(imp):
    return frozenset(imp.premise), frozenset(imp.conclusion)


class DbWorld:
    """ExplorationDB + AttributeExploration beside the model.

    Model: a Table and a list of (premise, reduced conclusion) pairs."""

    def __init__(self, env, fca, table, base, cond=None):
        from importlib import import_module
        self.mod = import_module('fca.algorithms.exploration_.exploration')
        self.env, self.fca = env, fca
        self.t = Table.of(table)
        self.base = []
        start = []
        for p, c in base:
            p, c = frozenset(p), frozenset(c)
            if self.holds(p, c):
                start.append(fca.Implication(set(p), set(c)))
                self.base.append((p, c - p))
        self.cxt = make_context(fca, table)
        self.db = env.call('ExplorationDB', self.mod.ExplorationDB, self.cxt,
                           start, *([] if cond is None else
                                    [lambda p: fulfils(p, cond)]))
        self.cond = cond
        self.expert = Expert()
        self.ex = env.call('AttributeExploration',
                           self.mod.AttributeExploration, self.db, self.expert)
        self.stale = []         # implications handed out earlier
        self.refused = 0
        self.done = 0

    # -- model questions
    def holds(self, p, c):
        return all(not p <= x or c <= x for x in self.intents())

    def intents(self):
        return [self.t.intent_of(o) for o in self.t.objs]

    def respects(self, intent):
        return all(not p <= intent or c <= intent for p, c in self.base)

    def used(self, a):
        return any(a in p | c for p, c in self.base)

    # -- comparing
    def check(self, label):
        env, db, t = self.env, self.db, self.t
        env.eq('objects after ' + label, list(db.objects), t.objs)
        env.eq('attributes after ' + label, list(db.attributes), t.atts)
        cxt = db._cxt
        env.eq('examples after ' + label,
               [cxt.get_object_intent(o) for o in cxt.objects],
               self.intents())
        base = [imp_pair(i) for i in db.base]
        env.eq('confirmed implications after ' + label, sorted_pairs(base),
               sorted_pairs(self.base))
        for p, c in self.base:
            env.check(self.holds(p, c),
                      'example contradicts confirmed implication after ' +
                      label, premise=p, conclusion=c, table=t.as_plan())
        env.check(len(set(t.objs)) == len(t.objs) and
                  len(set(t.atts)) == len(t.atts), 'names not distinct after '
                  + label)
        imps = db.open_implications
        judge_basis(env, t, show_imps(imps), self.base,
                    'open questions after ' + label, cond=self.cond)
        for i in imps:
            if len(self.stale) < 60 and not any(
                    imp_pair(i) == imp_pair(s) for s in self.stale[-12:]):
                self.stale.append(i)
        env.state(t.rows, sorted_pairs(self.base))

    def step(self, label, valid, call, *args):
        """Valid steps must work, others must be refused; then compare."""
        env = self.env
        if valid:
            env.call(label, call, *args)
            self.done += 1
        else:
            env.refused(label, call, *args)
            env.fault('refused: ' + label)
            self.refused += 1
        env.probe(label + (' ok' if valid else ' refused'))
        return valid


def sorted_pairs(pairs):
    return sorted((sorted(map(repr, p)), sorted(map(repr, c)))
                  for p, c in pairs)


# ------------------------------------------------------------- drawing steps

STEPS = {'confirm_open': 14, 'confirm_stale': 8, 'confirm_bogus': 6,
         'confirm_many': 5, 'unconfirm': 4, 'unconfirm_unknown': 1,
         'add_example': 12, 'delete_example': 4, 'edit_example': 8,
         'add_attribute': 4, 'delete_attribute': 3, 'edit_attribute': 8,
         'touch': 1, 'complete': 1, 'reject': 14, 'reject_stale': 5,
         'tamper': 2}


def draw_step(rng, mix):
    from .world import choose
    return [choose(rng, mix), rng.randrange(6400), rng.getrandbits(60),
            ''.join(rng.choice(ALPHA) for _ in range(rng.randint(1, 3))),
            rng.randrange(64)]


def name_for(w, names, name, k):
    """Mostly a new name, sometimes one in use."""
    if names and k % 5 == 0:
        return names[k % len(names)]
    while name in names and k % 5:
        name += 'x'
    return name


def subset(names, b):
    if len(names) > 60 and b:
        b = core.rng_for('bits', b).getrandbits(len(names))
    return {n for i, n in enumerate(names) if b >> i & 1}


def closed_subset(w, b):
    """A set that respects everything confirmed (as an attentive expert would
    give)."""
    s = w.t.amask(subset(w.t.atts, b))
    bg = [(w.t.amask(p), w.t.amask(c)) for p, c in w.base]
    return w.t.aset(close(s, bg))


def apply_step(w, op):
    kind, i, b, name, k = op
    env, t, db, ex, fca = w.env, w.t, w.db, w.ex, w.fca
    Imp = fca.Implication

    def add_row(name, intent):
        t.objs.append(name)
        t.rows.append([int(a in intent) for a in t.atts])

    if kind in ('confirm_open', 'confirm_stale', 'confirm_bogus'):
        if kind == 'confirm_bogus':
            p = subset(t.atts, b & b >> 7)
            c = subset(t.atts, b >> 20 & b >> 29)
            if k % 9 == 0:
                (p if k % 2 else c).add(UNKNOWN)
            imp = Imp(p, c)
        elif kind == 'confirm_stale':
            if not w.stale:
                return
            imp = w.stale[i % len(w.stale)]
        else:
            op_ = db.open_implications
            if not op_:
                return
            imp = op_[i % len(op_)]
        p, c = imp_pair(imp)
        ok = p | c <= set(t.atts) and w.holds(p, c)
        fn = [db.confirm_implication, ex.confirm_implication][k % 2]
        if w.step(kind, ok, fn, imp):
            w.base.append((p, c))
    elif kind == 'confirm_many':
        pool = db.open_implications + w.stale
        imps = [pool[(i + 5 * x) % len(pool)] for x in range(1 + k % 4)] \
            if pool else []
        if k % 3 == 0:
            p = subset(t.atts, b & b >> 7)
            imps.insert(b % (len(imps) + 1), Imp(p, set(t.atts)))
        pairs = [imp_pair(x) for x in imps]
        ok = all(p | c <= set(t.atts) and w.holds(p, c) for p, c in pairs)
        if w.step(kind, ok, ex.confirm_implications, imps):
            w.base += pairs
    elif kind == 'unconfirm':
        if not w.base:
            return
        p, c = w.base[i % len(w.base)]
        fn = [db.unconfirm_implication, ex.unconfirm_implication][k % 2]
        w.step(kind, True, fn, Imp(set(p), set(c)))
        w.base.remove((p, c))
    elif kind == 'unconfirm_unknown':
        p, c = subset(t.atts, b), subset(t.atts, b >> 9)
        pair = (frozenset(p), frozenset(c - p))
        if pair in w.base:
            return
        w.step(kind, False, db.unconfirm_implication, Imp(p, c))
    elif kind == 'add_example':
        intent = closed_subset(w, b) if k % 3 else subset(t.atts, b)
        name = name_for(w, t.objs, name, i)
        ok = name not in t.objs and w.respects(intent)
        given = set(intent)
        if w.step(kind, ok, db.add_example, name, given):
            add_row(name, intent)
    elif kind == 'delete_example':
        if not t.objs or k % 9 == 0:
            w.step(kind, False, db.delete_example, UNKNOWN)
            return
        x = i % len(t.objs)
        w.step(kind, True, db.delete_example, t.objs[x])
        del t.objs[x], t.rows[x]
    elif kind == 'edit_example':
        if not t.objs or k % 11 == 0:
            w.step(kind, False, db.edit_example, name, UNKNOWN, set())
            return
        x = i % len(t.objs)
        old = t.objs[x]
        new = old if k % 2 else name_for(w, t.objs, name, b % 60)
        intent = t.intent_of(old) if k % 4 == 1 else \
            closed_subset(w, b) if k % 4 else subset(t.atts, b)
        bad = k % 7 == 0 and k % 4 != 1
        given = set(intent) | ({UNKNOWN} if bad else set())
        ok = not bad and (new == old or new not in t.objs) and \
            w.respects(intent)
        if w.step(kind, ok, db.edit_example, new, old, given):
            t.objs[x] = new
            t.rows[x] = [int(a in intent) for a in t.atts]
    elif kind == 'add_attribute':
        if len(t.atts) >= 7:
            return
        name = name_for(w, t.atts, name, i)
        ok = name not in t.atts
        extent = subset(t.objs, b)
        if w.step(kind, ok, db.add_attribute, name, extent):
            t.atts.append(name)
            for o, r in zip(t.objs, t.rows):
                r.append(int(o in extent))
    elif kind == 'delete_attribute':
        if not t.atts or k % 9 == 0:
            w.step(kind, False, db.delete_attribute, UNKNOWN)
            return
        x = i % len(t.atts)
        ok = not w.used(t.atts[x])
        if w.step(kind, ok, db.delete_attribute, t.atts[x]):
            del t.atts[x]
            for r in t.rows:
                del r[x]
    elif kind == 'edit_attribute':
        if not t.atts or k % 11 == 0:
            w.step(kind, False, db.edit_attribute, name, UNKNOWN, set())
            return
        x = i % len(t.atts)
        old = t.atts[x]
        new = old if k % 2 else name_for(w, t.atts, name, b % 60)
        flip = b & b >> 5 & b >> 11 if k % 3 else b
        extent = t.extent_of(old) ^ subset(t.objs, flip)
        bad = k % 8 == 0
        given = set(extent) | ({UNKNOWN} if bad else set())
        intents = [(t.intent_of(o) - {old}) | ({old} if o in extent else set())
                   for o in t.objs]
        ok = not bad and all(map(w.respects, intents)) and (
            new == old or (new not in t.atts and not w.used(old)))
        if w.step(kind, ok, db.edit_attribute, new, old, given):
            t.atts[x] = new
            for o, r in zip(t.objs, t.rows):
                r[x] = int(o in extent)
    elif kind == 'touch':
        w.step(kind, True, db.touch)
    elif kind == 'complete':
        w.step(kind, True, db.complete)
    elif kind in ('reject', 'reject_stale'):
        pool = db.open_implications if kind == 'reject' else w.stale
        if not pool:
            return
        imp = pool[i % len(pool)]
        reject(w, imp, b, name, k)
    elif kind == 'tamper':
        # what is handed out belongs to the caller
        for xs in (db.open_implications, db.base):
            del xs[:]
        env.probe('tampered with handed out lists')
    else:
        raise ValueError(kind)


ANSWERS = ['good', 'good', 'good', 'good', 'respects', 'no premise',
           'conflict', 'name in use', 'lost', 'interrupt', 'several',
           'several bad', 'several repeated', 'any', 'any']


def reject(w, imp, b, name, k):
    env, t, ex = w.env, w.t, w.ex
    p, c = imp_pair(imp)
    how = ANSWERS[k % len(ANSWERS)]
    bg = [(t.amask(x & set(t.atts)), t.amask(y & set(t.atts)))
          for x, y in w.base]

    def closed(s):
        return t.aset(close(t.amask(set(s) & set(t.atts)), bg))

    new = name
    while new in t.objs:
        new += 'x'
    known = set(t.atts)
    if how in ('lost', 'interrupt'):
        w.expert.answer = core.fault(b, 'answer lost') if how == 'lost' else \
            KeyboardInterrupt('simulated')
        try:
            ex.reject_implication(imp)
            env.fail('expert failure swallowed', how=how)
        except (core.SimulatedFault, KeyboardInterrupt):
            env.fault('expert: ' + how)
        w.refused += 1
        return
    intent = closed(p | (subset(t.atts, b & b >> 9)))
    if how in ('good', 'name in use') and c <= intent:
        intent = closed(p)
    if how == 'respects':
        intent = closed(p | c)
    elif how == 'no premise':
        intent = closed(subset(t.atts, b)) - set(list(sorted(p, key=repr))[:1])
    elif how == 'conflict':
        intent = set(p & known)
    elif how == 'any':
        intent = subset(t.atts, b)
    names, intents = [new], [set(intent)]
    if how == 'name in use' and t.objs:
        names = [t.objs[b % len(t.objs)]]
    elif how.startswith('several'):
        for x in range(1 + b % 3):
            names.append('%s%d' % (new, x))
            intents.append(set(closed(subset(t.atts, b >> (6 * x + 3)))))
        if how == 'several bad' and t.atts:
            # one of the later ones contradicts what is confirmed, perhaps
            intents[-1] = subset(t.atts, b >> 31)
            if b & 1 and t.objs:
                names[-1] = t.objs[0]
        if how == 'several repeated':
            names[-1] = names[0]
    single = len(names) == 1 and b & 2
    w.expert.answer = (names[0], set(intents[0])) if single else \
        (list(names), [set(x) for x in intents])
    first = intents[0]
    ok = p <= first and not c <= first and len(set(names)) == len(names) and \
        not set(names) & set(t.objs) and all(map(w.respects, intents))
    if w.step('reject: ' + how, ok, ex.reject_implication, imp):
        for n, x in zip(names, intents):
            t.objs.append(n)
            t.rows.append([int(a in x) for a in t.atts])
