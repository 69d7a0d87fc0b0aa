"""C14: pattern exploration."""
from .. import core
from ..explore import UNKNOWN, subset
from ..world import check_same_table, choose, draw_names, draw_rows, \
    draw_table, history, make_context, settle_names, shrink_key, swarm, \
    ALPHA, Table

RUNS = {'quick': 29952, 'thorough': 239616}
RULE = ('a run is a positive and a negative start table over the same '
        'attributes (in different orders) and a history of up to 25 steps '
        'from a mix drawn per run: patterns confirmed (proposed, stale, '
        'arbitrary, unknown), positive and negative examples added (right, '
        'not containing the pattern, contradicting confirmed patterns, names '
        'in use), expert answers consumed one by one, abandoned or failing, '
        'failing pattern generators, every listing; after each step both '
        'contexts, the confirmed patterns and the unexplained examples are '
        'compared with the model. Non-trivial: a pattern was confirmed, an '
        'example added, something refused, proposals judged')
REAL = ['BasicPatternExploration', 'iterate_positive_concepts', 'fca.Context']
STUB = ['the expert', 'custom pattern generators', 'order and fate of answers']
STATE = 'digest of both tables and the confirmed patterns'
shrink = shrink_key('positive')

STEPS = {'confirm_proposed': 12, 'confirm_stale': 5, 'confirm_any': 8,
         'confirm_unknown': 1, 'negative': 12, 'negative_for': 8,
         'positive': 8, 'proposals': 8, 'custom': 3, 'examples': 4,
         'expert': 6, 'unexplained': 3, 'initial': 2}


class PatternWorld:
    def __init__(self, env, fca, pos, neg, cxts=None):
        from fca.algorithms.patterns import BasicPatternExploration
        self.env, self.fca = env, fca
        self.p, self.n = Table.of(pos), Table.of(neg)
        self.confirmed = []
        self.stale = []
        self.answers = []
        self.done = self.refused = 0
        self.custom = None

        def expert(pattern):
            for a in self.answers:
                if isinstance(a, BaseException):
                    raise a
                yield a

        def generator(pos_cxt, neg_cxt):
            for a in self.custom:
                if isinstance(a, BaseException):
                    raise a
                yield a
        cxts = cxts or (make_context(fca, pos), make_context(fca, neg))
        self.ex = env.call('BasicPatternExploration', BasicPatternExploration,
                           *cxts, expert)
        self.default = self.ex.pattern_generator
        self.generator = generator

    def intents(self, t):
        return [t.intent_of(o) for o in t.objs]

    def occurs(self, t, pattern):
        return any(pattern <= x for x in self.intents(t))

    def explained(self, intent):
        return any(c <= intent for c in self.confirmed)

    def unexplained(self):
        return [(o, self.p.intent_of(o)) for o in self.p.objs
                if not self.explained(self.p.intent_of(o))]

    def check(self, label):
        env, ex = self.env, self.ex
        check_same_table(env, ex.positive_cxt, self.p, 'positive context after '
                         + label)
        check_same_table(env, ex.negative_cxt, self.n, 'negative context after '
                         + label)
        env.eq('confirmed patterns after ' + label,
               sorted(map(sorted_repr, ex.confirmed_patterns)),
               sorted(map(sorted_repr, self.confirmed)))
        for c in ex.confirmed_patterns:
            env.check(self.occurs(self.p, c), 'confirmed pattern in no positive '
                      'example after ' + label, pattern=c)
            env.check(not self.occurs(self.n, c), 'confirmed pattern in a '
                      'negative example after ' + label, pattern=c)
        env.eq('unexplained examples after ' + label,
               [(o, set(x)) for o, x in env.call(
                   'unexplained', lambda: list(
                       ex.iterate_unexplained_examples()))],
               self.unexplained(), confirmed=self.confirmed)
        env.state(self.p.rows, self.n.rows,
                  sorted(map(sorted_repr, self.confirmed)))

    def step(self, label, valid, call, *args):
        env = self.env
        if valid:
            out = env.call(label, call, *args)
            self.done += 1
            env.check(out is self.ex or out is None, 'odd result of ' + label,
                      returned=out)
        else:
            env.refused(label, call, *args)
            env.fault('refused: ' + label)
            self.refused += 1
        env.probe(label + (' ok' if valid else ' refused'))
        return valid

    def judge_proposals(self):
        env, ex = self.env, self.ex
        got = [(frozenset(p), k) for p, k in env.call(
            'proposals', ex.get_unconfirmed_patterns_with_examples)]
        self.judge_ranked(got)
        env.check(len({p for p, _ in got}) == len(got), 'repeated proposal',
                  got=got)
        # which sets of attributes: the intents of the reduced positive context
        red = ex.positive_cxt.reduce_attributes().reduce_objects()
        rt = Table(red.objects, red.attributes,
                   [[int(x) for x in red[i]] for i in range(len(red.objects))])
        want = {i for e, i in rt.concepts() if e and not
                self.occurs(self.n, i) and not self.explained(i)}
        env.eq('set of proposals', {p for p, _ in got}, want,
               positive=self.p.as_plan(), negative=self.n.as_plan())
        for p, _ in got:
            if p not in self.stale and len(self.stale) < 40:
                self.stale.append(p)
        env.probe('proposals judged')
        return got

    def judge_ranked(self, got):
        env = self.env
        open_ = [x for _, x in self.unexplained()]
        for p, k in got:
            env.check(self.occurs(self.p, p), 'proposal in no positive example',
                      pattern=p)
            env.check(not self.occurs(self.n, p), 'proposal in a negative '
                      'example', pattern=p)
            env.check(not self.explained(p), 'proposal already explained',
                      pattern=p)
            env.eq('number of covered examples', k,
                   sum(p <= x for x in open_), pattern=p)
        env.check(all(a[1] >= b[1] for a, b in zip(got, got[1:])),
                  'proposals not ranked', got=got)

    def add(self, t, cxt, what, name, intent):
        t.objs = settle_names(self.env, what, t.objs + [name], cxt.objects)
        t.rows.append([int(a in intent) for a in t.atts])

    def apply(self, op):
        kind, i, b, name, k = op
        env, ex, p, n = self.env, self.ex, self.p, self.n
        if kind.startswith('confirm'):
            if kind == 'confirm_proposed':
                pool = [x for x, _ in self.judge_proposals()]
            elif kind == 'confirm_stale':
                pool = self.stale
            elif kind == 'confirm_any':
                pool = [subset(p.atts, b & b >> 11), subset(p.atts, b & b >> 7 &
                                                            b >> 20)]
            else:
                pool = [{UNKNOWN}]
            if not pool:
                return
            pat = frozenset(pool[i % len(pool)])
            given = [set, frozenset, set, list][k % 4](pat)
            ok = pat <= set(p.atts) and self.occurs(p, pat) and \
                not self.occurs(n, pat)
            if self.step(kind, ok, ex.confirm_pattern, given):
                self.confirmed.append(pat)
            if isinstance(given, set):
                given.add('changed later')
        elif kind in ('negative', 'negative_for', 'positive'):
            t, cxt = (p, ex.positive_cxt) if kind == 'positive' else \
                (n, ex.negative_cxt)
            if len(t.objs) > 8:
                return
            x = subset(p.atts, b & b >> 9) if k & 1 else subset(p.atts, b)
            pat = None
            if kind == 'negative_for':
                pool = self.stale + self.confirmed
                if not pool:
                    return
                pat = pool[i % len(pool)]
                if k % 5:
                    x |= pat
            if i % 6 == 0 and t.objs and isinstance(t.objs[0], str):
                name = t.objs[i % len(t.objs)]
            else:
                while name in t.objs:
                    name += 'x'
            given = set(x)
            if kind == 'positive':
                self.step(kind, True, ex.add_positive_example, name, given)
                self.add(p, cxt, 'positive examples', name, x)
            else:
                ok = (pat is None or pat <= x) and not self.explained(x)
                args = (name, given) if pat is None else (name, given, pat)
                if self.step(kind, ok, ex.add_negative_example, *args):
                    self.add(n, cxt, 'negative examples', name, x)
            given.add('changed later')
        elif kind == 'proposals':
            self.judge_proposals()
        elif kind == 'custom':
            # caller's own generator of (pattern, examples) pairs
            pats = [frozenset(subset(p.atts, b >> 5 * j & b >> 3 * j))
                    for j in range(k % 4)]
            pats = [q for q in pats if self.occurs(p, q) and
                    not self.occurs(n, q)]
            self.custom = [(set(q), 'whatever') for q in pats]
            if k % 3 == 0:
                self.custom.insert(i % (len(self.custom) + 1),
                                   core.fault(b, 'generator fails'))
            ex.pattern_generator = self.generator
            try:
                if k % 3 == 0:
                    e = env.refused(kind, ex.
                                    get_unconfirmed_patterns_with_examples)
                    env.check(isinstance(e, core.SimulatedFault), 'generator failure replaced',
                              error=e)
                    env.fault('pattern generator fails')
                else:
                    got = [(frozenset(q), c) for q, c in env.call(
                        kind, ex.get_unconfirmed_patterns_with_examples)]
                    self.judge_ranked(got)
                    env.eq('custom proposals', sorted(
                        sorted_repr(q) for q, _ in got), sorted(
                        sorted_repr(q) for q in pats if not self.explained(q)))
            finally:
                ex.pattern_generator = self.default
        elif kind == 'examples':
            q = subset(p.atts, b & b >> 9 & b >> 17)
            got = {o: set(x) for o, x in env.call(
                kind, lambda: list(ex.iterate_examples(q)))}
            env.eq('examples of a pattern', got,
                   {o: p.intent_of(o) for o in p.objs if q <= p.intent_of(o)})
        elif kind == 'expert':
            # answers arrive one by one; the rest is abandoned or fails
            q = subset(p.atts, b & b >> 9)
            self.answers = []
            for j in range(k % 4):
                x = q | subset(p.atts, b >> 5 * j + 3)
                self.answers.append(('%s%d' % (name, j), x))
            if i % 4 == 0:
                self.answers.append(core.fault(b, 'expert fails'))
            stop = i % 7
            it = env.call(kind, ex.iterate_new_objects, q)
            for j, a in enumerate(list(self.answers)):
                if j >= stop:
                    it.close()
                    env.fault('expert answers abandoned')
                    break
                if isinstance(a, core.SimulatedFault):
                    e = env.refused('failing expert', next, it)
                    env.check(e is a, 'expert failure replaced', error=e)
                    env.fault('expert fails')
                    break
                env.eq("expert's example", next(it), a)
                if len(n.objs) > 8 or a[0] in n.objs:
                    continue
                ok = not self.explained(a[1])
                if self.step('negative from expert', ok,
                             ex.add_negative_example, a[0], set(a[1]), q):
                    self.add(n, ex.negative_cxt, 'negative examples', *a)
        elif kind == 'unexplained':
            x = subset(p.atts, b)
            env.eq('is_explained', bool(env.call(kind, ex.is_explained, x)),
                   self.explained(x), intent=x, confirmed=self.confirmed)
        elif kind == 'tamper':
            pass
        else:
            raise ValueError(kind)


def sorted_repr(s):
    return sorted(map(repr, s))


def draw_step(rng, mix):
    return [choose(rng, mix), rng.randrange(6400), rng.getrandbits(60),
            ''.join(rng.choice(ALPHA) for _ in range(rng.randint(1, 3))),
            rng.randrange(840)]


def draw_pair(rng):
    p = draw_table(rng, 5, 5, min_m=1, tall=.03, wide=.04)
    k = rng.randint(0, 4)
    m = len(p['atts'])
    rows = draw_rows(rng, k, m)
    if rng.random() < .5:
        rows = [[int(x and rng.random() < .6) for x in r] for r in rows]
    atts = rng.sample(p['atts'], m)
    return p, {'objs': draw_names(rng, k, 'word'), 'atts': atts, 'rows': rows}


def generate(rng, tier):
    mix = swarm(rng, STEPS)
    p, n = draw_pair(rng)
    return {'positive': p, 'negative': n,
            'ops': [draw_step(rng, mix) for _ in range(history(rng, 4, 25))]}


def execute(plan, env):
    fca = core.load_fca()
    pos, neg = plan['positive'], plan['negative']
    keep = [j for j, a in enumerate(neg['atts']) if a in pos['atts']]
    neg = {'objs': neg['objs'], 'atts': [neg['atts'][j] for j in keep],
           'rows': [[r[j] for j in keep] for r in neg['rows']]}
    cp, cn = make_context(fca, pos), make_context(fca, neg)
    tp, tn = Table.of(pos), Table.of(neg)
    w = PatternWorld(env, fca, pos, neg, (cp, cn))
    other = make_context(fca, dict(neg, atts=neg['atts'][:-1] + ['another'])
                         if neg['atts'] else dict(neg, atts=['another'], rows=[
                             [0] for _ in neg['rows']]))
    env.refused('different attributes', type(w.ex), cp, other)
    w.check('start')
    for op in plan['ops']:
        if op[0] == 'initial':
            for t, c in ((tp, cp), (tn, cn)):
                if t.objs and t.atts:
                    r, a = op[1] % len(t.objs), op[4] % len(t.atts)
                    t.rows[r][a] ^= 1
                    c.set_object_intent(t.intent_of(t.objs[r]), t.objs[r])
            env.probe('initial contexts edited')
        else:
            w.apply(op)
        w.check(op[0])
    check_same_table(env, cp, tp, 'initial positive context')
    check_same_table(env, cn, tn, 'initial negative context')
    env.nontrivial = bool(w.confirmed) and w.done >= 2 and w.refused >= 1 and \
        env.probes['proposals judged'] > 0
