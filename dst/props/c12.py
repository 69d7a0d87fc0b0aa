"""C12: exploration sessions, isolated from each other."""
import random

from .. import core
from ..explore import name_for, sorted_pairs, subset
from ..model import close
from ..queries import judge_basis, show_imps
from ..world import (ALPHA, Table, check_same_table, choose, draw_names,
                     draw_rows, draw_table, history, make_context, settle_names,
                     shrink_key, swarm)

RUNS = {'quick': 13920, 'thorough': 210000}
RULE = ('a run creates up to 4 sessions of one exploration (replacing the '
        'exploration context in between) and interleaves up to 30 steps of '
        'them: acceptances of candidates, stale candidates and other valid '
        'implications, right and wrong counterexamples, objects added under '
        'new and used names, and tampering with every list and set handed '
        'out; after every step every session is compared with its own model. '
        'Non-trivial: two sessions made steps, something was accepted and '
        'something refused')
REAL = ['Exploration, ExplorationSession, ExplorationContext, Basis',
        'fca.Context', 'dg_basis', 'closure_operators']
STUB = ['the experts', 'the order and fate of their answers']
STATE = 'digest of table and accepted implications'
shrink = shrink_key('table')

STEPS = {'create': 3, 'set_context': 2, 'caller': 2, 'accept': 12,
         'accept_stale': 6, 'accept_other': 5, 'accept_repeat': 3,
         'reject': 16, 'add_object': 8, 'tamper': 8}
ANSWERS = ['good', 'good', 'good', 'good', 'respects', 'no premise',
           'conflict', 'any', 'name in use']


class SessionWorld:
    def __init__(self, env, fca, session, t):
        self.env, self.fca, self.s = env, fca, session
        self.t = t
        self.base, self.stale = [], []
        self.done = self.refused = 0

    def holds(self, p, c):
        return all(not p <= x or c <= x for x in map(self.t.intent_of,
                                                     self.t.objs))

    def respects(self, intent):
        return all(not p <= intent or c <= intent for p, c in self.base)

    def check(self, label):
        env, s, t = self.env, self.s, self.t
        cx = s.context
        env.eq('objects after ' + label, list(cx.objects), t.objs)
        env.eq('attributes after ' + label, list(cx.attributes), t.atts)
        env.eq('intents after ' + label, [cx.get_intent(o) for o in t.objs],
               [t.intent_of(o) for o in t.objs])
        env.eq('extents after ' + label, [cx.get_extent(a) for a in t.atts],
               [t.extent_of(a) for a in t.atts])
        acc = [(frozenset(i.premise), frozenset(i.conclusion))
               for i in s.get_accepted_implications()]
        env.eq('accepted implications after ' + label, sorted_pairs(acc),
               sorted_pairs(self.base))
        for p, c in self.base:
            env.check(self.holds(p, c), 'object violates an accepted '
                      'implication after ' + label, premise=p, conclusion=c)
        cand = s.get_candidates()
        judge_basis(env, t, show_imps(cand), self.base,
                    'candidates after ' + label)
        for i in cand:
            if len(self.stale) < 40 and i not in self.stale[-8:]:
                self.stale.append(i)
        env.state(t.rows, sorted_pairs(self.base))

    def step(self, label, valid, call, *args):
        env = self.env
        if valid:
            env.call(label, call, *args)
            self.done += 1
        else:
            env.refused(label, call, *args)
            env.fault('refused: ' + label)
            self.refused += 1
        env.probe(label + (' ok' if valid else ' refused'))
        return valid

    def closed(self, s):
        t = self.t
        return t.aset(close(t.amask(s), [(t.amask(p), t.amask(c))
                                         for p, c in self.base]))

    def add(self, name, intent):
        t = self.t
        wanted = t.objs + [name]
        t.objs = settle_names(self.env, 'objects', wanted,
                              self.s.context.objects)
        t.rows.append([int(a in intent) for a in t.atts])

    def apply(self, op):
        kind, i, b, name, k = op
        env, t, s = self.env, self.t, self.s
        if kind.startswith('accept'):
            if kind == 'accept':
                pool = s.get_candidates()
            elif kind == 'accept_stale':
                pool = self.stale
            elif kind == 'accept_repeat':
                pool = s.get_accepted_implications()
            else:
                p, c = subset(t.atts, b & b >> 7), subset(t.atts, b >> 20)
                for o in t.objs:
                    if p <= t.intent_of(o):
                        c &= t.intent_of(o)
                pool = [self.fca.Implication(p, c)]
            if not pool:
                return
            imp = pool[i % len(pool)]
            p, c = frozenset(imp.premise), frozenset(imp.conclusion)
            if not self.holds(p, c):
                return          # only valid implications are accepted
            self.step(kind, True, s.accept_implication, imp)
            self.base.append((p, c))
        elif kind == 'reject':
            pool = s.get_candidates() + (self.stale if k & 64 else [])
            if not pool or len(t.objs) > 9:
                return
            imp = pool[i % len(pool)]
            p, c = set(imp.premise), set(imp.conclusion)
            how = ANSWERS[k % len(ANSWERS)]
            x = self.closed(p | subset(t.atts, b & b >> 9))
            if how in ('good', 'name in use') and c <= x:
                x = self.closed(p)
            if how == 'respects':
                x = self.closed(p | c)
            elif how == 'no premise':
                x = x - set(sorted(p, key=repr)[:1])
            elif how == 'conflict':
                x = set(p)
            elif how == 'any':
                x = subset(t.atts, b)
            while name in t.objs:
                name += 'x'
            if how == 'name in use' and t.objs and all(
                    isinstance(o, str) for o in t.objs):
                name = t.objs[b % len(t.objs)]
            ok = p <= x and not c <= x and self.respects(x)
            given = set(x)
            if self.step('reject: ' + how, ok, s.reject_implication, imp, name,
                         given):
                self.add(name, x)
            env.eq('intent passed in', given, x)
            given.clear()
        elif kind == 'add_object':
            if len(t.objs) > 9:
                return
            x = subset(t.atts, b)
            if k % 3:
                x = self.closed(x)
            name = name_for(self, [o for o in t.objs if isinstance(o, str)],
                            name, i)
            given = set(x)
            if self.step(kind, self.respects(x), s.context.add_object, name,
                         given):
                self.add(name, x)
            given.add('changed later')
        elif kind == 'tamper':
            cx = s.context
            for xs in (cx.objects, cx.attributes, cx.get_objects(),
                       cx.get_attributes(), s.get_accepted_implications(),
                       s.get_candidates()):
                del xs[:]
                xs.append('tampered')
            for o in t.objs:
                cx.get_intent(o).clear()
            for a in t.atts:
                cx.get_extent(a).add('tampered')
            env.probe('tampered with values handed out')
        else:
            raise ValueError(kind)


def draw_step(rng, mix):
    return [choose(rng, mix), rng.randrange(6400), rng.getrandbits(60),
            ''.join(rng.choice(ALPHA) for _ in range(rng.randint(1, 3))),
            rng.randrange(720), rng.randrange(8)]


def generate(rng, tier):
    mix = swarm(rng, STEPS)
    return {'table': draw_table(rng, 5, 5, min_m=1, sortable=False, tall=.03,
                                wide=.04),
            'ops': [['create', 0, 0, 'x', 0, 0]] * rng.randint(1, 2) +
            [draw_step(rng, mix) for _ in range(history(rng, 4, 30))]}


def execute(plan, env):
    fca = core.load_fca()
    from fca.algorithms.exploration2.exploration import (Exploration,
                                                        ExplorationContext)
    t = Table.of(plan['table'])
    own = make_context(fca, plan['table'])      # the caller's
    own_t = t.copy()
    ex = env.call('Exploration', Exploration, ExplorationContext(own))
    ws = []
    for op in plan['ops']:
        kind, i, b, name, k, who = op
        if kind == 'create':
            if len(ws) < 4:
                ws.append(SessionWorld(env, fca, env.call(
                    'create_session', ex.create_session), t.copy()))
        elif kind == 'set_context':
            rng = random.Random(b)
            n, m = rng.randint(0, 4), rng.randint(1, 5)
            t = Table(draw_names(rng, n, 'word'), draw_names(rng, m, 'word'),
                      draw_rows(rng, n, m))
            own, own_t = make_context(fca, t.as_plan()), t.copy()
            env.call('set_context', ex.set_context,
                     ExplorationContext(own))
        elif kind == 'caller':
            # sessions already created must not see this
            if own_t.objs and ws:
                x = i % len(own_t.objs)
                new = {a for j, a in enumerate(own_t.atts) if b >> j & 1}
                own_t.rows[x] = [int(a in new) for a in own_t.atts]
                own.set_object_intent(set(new), own_t.objs[x])
                # start the next sessions from a defined context
                t = own_t.copy()
                ex.set_context(ExplorationContext(own))
                env.probe('caller edited his context')
        elif ws:
            ws[who % len(ws)].apply(op[:5])
        for w in ws:
            w.check(kind)
        check_same_table(env, own, own_t, "caller's context")
    env.nontrivial = sum(w.done > 0 for w in ws) >= 2 and \
        sum(w.refused for w in ws) >= 1 and any(w.base for w in ws)
