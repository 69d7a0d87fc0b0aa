"""C10: exploration with a truthful expert converges."""
import threading
from importlib import import_module

from .. import core
from ..explore import Expert, sorted_pairs
from ..model import close, lattice_of_closures
from ..world import Table, bools, draw_table, make_context, shrink_key

RUNS = {'quick': 29952, 'thorough': 239616}
RULE = ('a run is a theory (a table of up to 6 attributes the expert has in '
        'mind), a start context of some of its closed sets, one of six '
        'exploration engines, and a schedule: which open question is taken '
        'up and what happens to the answer (lost with the expert failing, '
        'repeated, late - i.e. meant for an earlier question -, under a name '
        'in use, false and refused, confirmed knowledge withdrawn, examples '
        'deleted; at the terminal of the example program: end of input, '
        'garbage, interruption). After up to 30 such events faults stop; '
        'then every answer is truthful (which valid counterexample is given stays random) and '
        'exploration must end within the bound, with confirmed implications '
        'and examples equal to the theory on every attribute set. '
        'Non-trivial: at least 3 truthful answers were taken')
REAL = ['AttributeExploration, ExplorationDB', 'BasicExploration',
        'CommandLineExploration (the numbers example)',
        'ExplorationSession', 'PartialContext', 'dg_basis, aibasis']
STUB = ['the expert', 'the order and fate of his answers',
        'the terminal (input and print of the example program)']
STATE = 'digest of the examples and confirmed implications'
shrink = shrink_key('theory')
ENGINES = ['db', 'db', 'session', 'basic', 'two-sided', 'partial'] * 4 + \
    ['terminal']
TYPING = ['truth', 'truth', 'truth', 'truth', 'end', 'garbage', 'false',
          'leave']
FAULTS = ['lost', 'repeated', 'late', 'name in use', 'false', 'withdraw',
          'delete', 'truth', 'truth', 'truth']


def generate(rng, tier, engine=None):
    engine = engine or rng.choice(ENGINES)
    if engine == 'terminal':
        # the numbers the user has in mind
        top = rng.choice([9, 13, 31, 130])
        return {'theory': {'objs': [], 'atts': [], 'rows': []},
                'engine': engine,
                'numbers': sorted(rng.sample(range(2, top),
                                             rng.randint(0, min(top - 2, 12)))),
                'ops': [[rng.choice(TYPING), rng.randrange(64), 0]
                        for _ in range(rng.randint(1, 40))],
                'tail': [rng.randrange(1 << 30) for _ in range(40)]}
    big = 5 if engine in ('partial', 'two-sided') else 6
    t = draw_table(rng, 6, big, min_m=1, min_n=0,
                   tall=0 if engine == 'two-sided' else .03, most=70,
                   wide=0 if big == 5 else .03)
    return {'theory': t, 'engine': engine,
            'start': rng.getrandbits(8) & rng.getrandbits(8),
            'startatts': rng.getrandbits(8),
            'ops': [[rng.choice(FAULTS), rng.randrange(64),
                     rng.getrandbits(40)]
                    for _ in range(rng.choice([0, 3, 8, 15, 30]))],
            # scheduling once faults have stopped
            'tail': [rng.randrange(1 << 30) for _ in range(40)]}


class Engine:
    """One exploration procedure with the expert's theory beside it."""

    def __init__(self, env, fca, plan):
        self.env, self.fca = env, fca
        self.t = Table.of(plan['theory'])
        self.rel = self.t.rel
        self.closed = sorted(lattice_of_closures_of(self.rel))
        self.names = 0
        self.taken = 0
        self.given = []         # earlier counterexamples (name, mask)
        self.start(plan)

    def fresh(self):
        self.names += 1
        return 'x%d' % self.names

    def masks(self, imp):
        return self.t.amask(imp.premise), self.t.amask(imp.conclusion)

    def true(self, p, c):
        return self.rel.aclosure(p) & c == c

    def counterexample(self, p, c, r):
        pool = [x for x in self.closed if x & p == p and x & c != c]
        return pool[r % len(pool)]


def lattice_of_closures_of(rel):
    return {x for x in range(rel.M + 1) if rel.aclosure(x) == x}


def start_rows(eng, plan):
    return [x for j, x in enumerate(eng.closed) if plan['start'] >> j % 8 & 1
            and j < 5]


def names_of(t, mask):
    return [t.atts[j] for j in range(len(t.atts)) if mask >> j & 1]


def start_context(eng, plan):
    rows = start_rows(eng, plan)
    t = eng.t
    return eng.fca.Context([[bool(x >> j & 1) for j in range(len(t.atts))]
                            for x in rows],
                           ['s%d' % i for i in range(len(rows))],
                           list(t.atts))


class Db(Engine):
    def start(self, plan):
        mod = import_module('fca.algorithms.exploration_.exploration')
        self.db = mod.ExplorationDB(start_context(self, plan), [])
        self.expert = Expert()
        self.ex = mod.AttributeExploration(self.db, self.expert)
        self.bound = 1 << len(self.t.atts)

    def open(self):
        return self.ex.get_open_implications()

    def confirm(self, imp):
        self.ex.confirm_implication(imp)

    def reject(self, imp, name, x):
        self.expert.answer = (name, self.t.aset(x))
        self.ex.reject_implication(imp)

    def lost(self, imp):
        self.expert.answer = core.fault(len(self.t.rows), 'answer lost')
        try:
            self.ex.reject_implication(imp)
            self.env.fail('expert failure swallowed')
        except core.SimulatedFault:
            pass

    def withdraw(self, r):
        base = self.db.base
        if base:
            self.ex.unconfirm_implication(base[r % len(base)])
            return True

    def delete(self, r):
        objs = self.db.objects
        if objs:
            self.db.delete_example(objs[r % len(objs)])
            return True

    def state(self):
        return ([self.db._cxt.get_object_intent(o) for o in self.db.objects],
                self.db.base)

    def objects(self):
        return list(self.db.objects)

    def examples_and_base(self):
        return self.state()


class Session(Engine):
    def start(self, plan):
        mod = import_module('fca.algorithms.exploration2.exploration')
        ex = mod.Exploration(mod.ExplorationContext(start_context(self, plan)))
        self.s = ex.create_session()
        self.bound = 1 << len(self.t.atts)

    def open(self):
        return self.s.get_candidates()

    def confirm(self, imp):
        self.s.accept_implication(imp)

    def reject(self, imp, name, x):
        self.s.reject_implication(imp, name, self.t.aset(x))

    def lost(self, imp):
        pass

    def withdraw(self, r):
        return None

    delete = withdraw

    def objects(self):
        return list(self.s.context.objects)

    def examples_and_base(self):
        c = self.s.context
        return ([c.get_intent(o) for o in c.objects],
                self.s.get_accepted_implications())


class Basic(Engine):
    def start(self, plan):
        mod = import_module('fca.algorithms.exploration')
        self.ex = mod.BasicExploration(start_context(self, plan))
        self.bound = 2 << len(self.t.atts)

    def open(self):
        return list(self.ex.attribute_implications)

    def index(self, imp):
        return self.ex.attribute_implications.index(imp)

    def confirm(self, imp):
        self.ex.confirm_attribute_implication(self.index(imp))

    def reject(self, imp, name, x):
        self.ex.counter_example_for_attr_implication(
            name, self.t.aset(x), self.index(imp))

    def lost(self, imp):
        pass

    def withdraw(self, r):
        return None

    delete = withdraw

    def objects(self):
        return list(self.ex.context.objects)

    def examples_and_base(self):
        c = self.ex.context
        return ([c.get_object_intent(o) for o in c.objects],
                self.ex.confirmed_attribute_implications)


class Partial(Engine):
    """Counterexamples of which parts are withheld."""

    def start(self, plan):
        from fca.partial_context import PartialContext
        mod = import_module('fca.algorithms.exploration_.exploration')
        rows = start_rows(self, plan)
        m = len(self.t.atts)
        xs, qs = [], []
        for k, x in enumerate(rows):
            hide = plan['startatts'] >> k % 8
            xs.append(x & ~hide)
            qs.append(x | hide & self.rel.M)
        self.cxt = PartialContext(
            [[bool(x >> j & 1) for j in range(m)] for x in xs],
            [[bool(x >> j & 1) for j in range(m)] for x in qs],
            ['s%d' % i for i in range(len(rows))], list(self.t.atts))
        self.db = mod.ExplorationDB(self.cxt, [])
        self.expert = Expert()
        self.ex = mod.AttributeExploration(self.db, self.expert)
        self.bound = (m + 1) << m
        self.real = {}
        for n, x in zip(self.cxt.objects, rows):
            self.real[n] = x

    open = Db.open
    confirm = Db.confirm
    lost = Db.lost
    withdraw = Db.withdraw
    objects = Db.objects

    def delete(self, r):
        return None

    def reject(self, imp, name, x, r=0):
        p, c = self.masks(imp)
        keep = self.rel.M & r >> 7
        if x & c == c:              # a false answer, given in full
            certain, possible = x, x
        else:
            certain = p & x | x & keep
            missing = [j for j in range(self.rel.m) if c & ~x & 1 << j]
            admit = 1 << missing[r % len(missing)]
            possible = x | (self.rel.M & r >> 17 & ~admit)
        self.expert.answer = ([name], [(self.t.aset(certain),
                                        self.t.aset(possible))])
        self.ex.reject_implication(imp)
        self.real[name] = x

    def examples_and_base(self):
        return list(self.cxt.intents()), self.db.base


def execute(plan, env):
    fca = core.load_fca()
    if plan['engine'] == 'two-sided':
        return two_sided(plan, env, fca)
    if plan['engine'] == 'terminal':
        return terminal(plan, env, fca)
    cls = {'db': Db, 'session': Session, 'basic': Basic,
           'partial': Partial}[plan['engine']]
    eng = env.call('start', cls, env, fca, plan)
    old = []
    for kind, i, r in plan['ops']:
        event(env, eng, kind, i, r, old)
    # faults stop
    for k in range(eng.bound + 1):
        opened = env.call('open questions', eng.open)
        if not opened:
            break
        if k == eng.bound:
            env.fail('no convergence within the bound', bound=eng.bound,
                     still_open=opened, engine=plan['engine'],
                     theory=plan['theory'])
        r = plan['tail'][k % len(plan['tail'])] * (k + 1)
        truth(env, eng, opened[(r >> 3) % len(opened)], r)
        env.ticks += 1
    judge(env, eng, plan['engine'])
    env.probe('converged: ' + plan['engine'])
    env.nontrivial = eng.taken >= 3


def truth(env, eng, imp, r, old=None):
    p, c = eng.masks(imp)
    if eng.true(p, c):
        env.call('truthful confirmation', eng.confirm, imp)
    else:
        x = eng.counterexample(p, c, r)
        name = eng.fresh()
        more = (r,) if isinstance(eng, Partial) else ()
        env.call('truthful counterexample', eng.reject, imp, name, x, *more)
        eng.given.append((name, x))
    eng.taken += 1
    note_state(env, eng)


def note_state(env, eng):
    exs, base = eng.examples_and_base()
    env.state([sorted(map(str, e)) if isinstance(e, set) else
               [sorted(map(str, z)) for z in e] for e in exs],
              [str(b) for b in base])


def event(env, eng, kind, i, r, old):
    opened = env.call('open questions', eng.open)
    if not opened:
        return
    imp = opened[i % len(opened)]
    old.append(imp)
    p, c = eng.masks(imp)
    before = snapshot(eng)
    if kind == 'lost':
        eng.lost(imp)
        env.fault('answer lost')
    elif kind == 'repeated' and eng.given:
        # the network delivers an earlier counterexample once more
        name, x = eng.given[r % len(eng.given)]
        if name in eng.objects():
            if not isinstance(eng, Session):
                env.refused('repeated answer', eng.reject, imp, name, x)
        env.fault('answer repeated')
    elif kind == 'late' and len(old) > 1 and not isinstance(eng, Basic):
        # the answer to an earlier question arrives now
        was = old[r % len(old)]
        q, d = eng.masks(was)
        if eng.true(q, d):
            env.call('late confirmation', eng.confirm, was)
            before = None
        else:
            x = eng.counterexample(q, d, r)
            if x & p == p and x & c != c:
                env.call('late counterexample', eng.reject, imp, eng.fresh(), x)
                before = None
            else:
                env.refused('late counterexample', eng.reject, imp,
                            eng.fresh(), x)
        env.fault('answer late')
    elif kind == 'name in use' and eng.objects():
        if eng.true(p, c) or isinstance(eng, Session):
            return
        env.refused('name in use', eng.reject, imp,
                    eng.objects()[r % len(eng.objects())],
                    eng.counterexample(p, c, r))
        env.fault('name in use')
    elif kind == 'false':
        # satisfies the implication: not a counterexample
        x = eng.rel.aclosure(p | c)
        env.refused('false counterexample', eng.reject, imp, eng.fresh(), x)
        env.fault('false answer')
    elif kind == 'withdraw':
        if env.call(kind, eng.withdraw, r):
            env.fault('knowledge withdrawn')
            before = None
    elif kind == 'delete':
        if env.call(kind, eng.delete, r):
            env.fault('example deleted')
            before = None
    elif kind == 'truth':
        truth(env, eng, imp, r)
        before = None
    if before is not None:
        env.eq('state after ' + kind, snapshot(eng), before)


def snapshot(eng):
    exs, base = eng.examples_and_base()
    return (list(map(str, eng.objects())), [repr(sorted(e)) if
            isinstance(e, set) else repr([sorted(z) for z in e]) for e in exs],
            sorted_pairs((frozenset(i.premise), frozenset(i.conclusion))
                         for i in base))


def judge(env, eng, name):
    t, rel = eng.t, eng.rel
    exs, base = eng.examples_and_base()
    imps = [eng.masks(i) for i in base]
    for s in range(rel.M + 1):
        env.eq('closure under the confirmed implications (%s)' % name,
               t.aset(close(s, imps)), t.aset(rel.aclosure(s)), set=t.aset(s),
               theory=t.as_plan(), confirmed=base)
    if name == 'partial':
        for o, (x, q) in zip(eng.objects(), exs):
            real = t.aset(eng.real[o])
            env.check(x <= real <= q, 'example no longer fits what is the case',
                      example=(x, q), real=real)
        for s in rel_closed(rel):
            got = set(t.atts)
            for x, q in exs:
                if t.aset(s) <= x:
                    got &= q
            env.eq('possible closure of a closed set', got, t.aset(s))
        return
    masks = [t.amask(e) for e in exs]
    for s in range(rel.M + 1):
        got = rel.M
        for e in masks:
            if s & e == s:
                got &= e
        env.eq('closure in the collected examples (%s)' % name, t.aset(got),
               t.aset(rel.aclosure(s)), set=t.aset(s), theory=t.as_plan(),
               examples=exs)


def rel_closed(rel):
    return lattice_of_closures_of(rel)


def two_sided(plan, env, fca):
    """Attributes and objects are both explored towards the expert's table."""
    from fca.algorithms.exploration import BasicExploration
    u = Table.of(plan['theory'])
    u.objs = ['g%d' % i for i in range(len(u.objs))]
    n, m = len(u.objs), len(u.atts)
    objs = [o for i, o in enumerate(u.objs) if plan['start'] >> i & 1]
    atts = [a for j, a in enumerate(u.atts) if plan['startatts'] >> j & 1]
    cxt = fca.Context([[bool(u.rows[u.objs.index(o)][u.atts.index(a)])
                        for a in atts] for o in objs], list(objs), list(atts))
    ex = env.call('BasicExploration', BasicExploration, cxt)
    bound = (n + m + 1) * ((1 << m) + (1 << n)) + len(plan['ops'])
    taken = 0
    extent = {a: u.extent_of(a) for a in u.atts}
    intent = {o: u.intent_of(o) for o in u.objs}
    for k in range(bound + 1):
        la, lo = ex.attribute_implications, ex.object_implications
        if not la and not lo:
            break
        if k == bound:
            env.fail('no convergence within the bound', bound=bound,
                     engine='two-sided', theory=plan['theory'])
        r = plan['tail'][k % len(plan['tail'])] * (k + 1)
        kind = plan['ops'][k][0] if k < len(plan['ops']) else 'truth'
        att = bool(la) and (not lo or r & 4)
        lst = la if att else lo
        i = (r >> 3) % len(lst)
        p, c = set(lst[i].premise), set(lst[i].conclusion)
        rows = intent if att else extent
        have = set(ex.context.objects if att else ex.context.attributes)
        cols = set(ex.context.attributes if att else ex.context.objects)
        pool = [x for x in rows if p <= rows[x] and not c <= rows[x]]
        call = ex.counter_example_for_attr_implication if att else \
            ex.counter_example_for_obj_implication
        if kind in ('repeated', 'false', 'name in use') and have:
            x = sorted(have)[r % len(have)]     # satisfies it, being there
            env.refused('repeated example', call, 'new' if kind == 'false'
                        else x, rows[x] & cols, i)
            env.fault('answer ' + kind)
            continue
        if not pool:
            env.call('truthful confirmation',
                     ex.confirm_attribute_implication if att else
                     ex.confirm_object_implication, i)
        else:
            x = sorted(pool)[(r >> 9) % len(pool)]
            env.call('truthful counterexample', call, x, rows[x] & cols, i)
        taken += 1
        env.ticks += 1
    sub = Table(ex.context.objects, ex.context.attributes,
                [[int(a in intent[o]) for a in ex.context.attributes]
                 for o in ex.context.objects])
    env.eq('examples of the two-sided exploration',
           [ex.context.get_object_intent(o) for o in sub.objs],
           [sub.intent_of(o) for o in sub.objs])
    for tab, rows, imps, side in (
            (sub, intent, ex.confirmed_attribute_implications, 'attribute'),
            (sub.transposed(), extent, ex.confirmed_object_implications,
             'object')):
        masks = [(tab.amask(i.premise), tab.amask(i.conclusion)) for i in imps]
        for s in range(1 << len(tab.atts)):
            names = tab.aset(s)
            want = set(tab.atts)
            for x in rows.values():
                if names <= x:
                    want &= x
            env.eq('closure under the confirmed %s implications' % side,
                   tab.aset(close(s, masks)), want, set=names,
                   theory=plan['theory'])
            got = set(tab.atts)
            for o in tab.objs:
                if names <= tab.intent_of(o):
                    got &= tab.intent_of(o)
            env.eq('closure in the collected %s side' % side, got, want)
    env.probe('converged: two-sided')
    env.nontrivial = taken >= 3


NUMBERS = {'even': lambda n: n % 2 == 0, 'odd': lambda n: n % 2 == 1,
           'divided_by_three': lambda n: n % 3 == 0,
           'prime': lambda n: n > 1 and all(n % k for k in range(2, n)),
           'factorial': lambda n: n in (1, 2, 6, 24, 120)}


class _Terminal(threading.local):
    """What the current thread's user sees and types."""
    user = None

    def show(self, *what, sep=' ', end='\n', **more):
        if self.user:
            self.user.seen += sep.join(map(str, what)) + end

    def ask(self, prompt=''):
        self.show(prompt)
        return self.user.type()


TERMINAL = _Terminal()


class User:
    """Answers what is on the screen, from the numbers he has in mind."""

    def __init__(self, env, fca, plan):
        self.env, self.fca = env, fca
        self.numbers = plan['numbers']
        self.ops, self.tail = list(plan['ops']), plan['tail']
        self.seen, self.asked, self.answer = '', 0, None
        self.imp = self.before = None
        self.taken = []

    def intent(self, n):
        return {a for a, f in NUMBERS.items() if f(n)}

    def type(self):
        seen, self.seen = self.seen, ''
        self.asked += 1
        if self.asked > 4000:
            self.env.fail('no convergence within the bound',
                          numbers=self.numbers)
        kind, r = 'truth', self.tail[self.asked % len(self.tail)]
        if self.ops:
            kind, r = self.ops.pop(0)[:2]
        if 'ounterexample' not in seen:
            lines = [x for x in seen.split('\n') if '=>' in x]
            self.env.check(lines, 'no implication on the screen', seen=seen)
            self.imp = self.fca.Implication.str2imp(lines[-1])
        p, c = set(self.imp.premise), set(self.imp.conclusion)
        self.env.check(p | c <= set(NUMBERS), 'unknown attributes asked about',
                       seen=seen)
        if kind == 'end':
            self.env.fault('end of input')
            raise EOFError('simulated')
        if kind == 'leave':
            self.env.fault('user leaves')
            raise KeyboardInterrupt('simulated')
        if kind == 'garbage':
            self.env.fault('garbage typed')
            return ['maybe?', '', '1 +', 'Tru', ')'][r % 5]
        pool = [n for n in self.numbers
                if p <= self.intent(n) and not c <= self.intent(n)]
        if 'ounterexample' not in seen:
            if not pool:
                self.taken.append(('accepted', frozenset(p), frozenset(c)))
            self.env.ticks += 1
            return 'False' if pool else 'True'
        if kind == 'false':
            good = [n for n in self.numbers if n not in pool]
            if good:
                self.env.fault('false answer')
                return str(good[r % len(good)])
        n = pool[r % len(pool)]
        self.taken.append((n,))
        return ' %d' % n


def terminal(plan, env, fca):
    """The example program, its user at a simulated terminal."""
    mod = import_module('fca.algorithms.exploration2.examples.numbers')
    mod.input, mod.print = TERMINAL.ask, TERMINAL.show
    user = TERMINAL.user = User(env, fca, plan)
    try:
        sessions = []

        class Watched(mod.CommandLineExploration):
            def create_session(self):
                sessions.append(super().create_session())
                return sessions[-1]
        ex = env.call('CommandLineExploration', Watched)
        for _ in range(len(plan['ops']) + 1):
            try:
                ex.explore()
                break
            except core.Violation:
                raise
            except (Exception, KeyboardInterrupt) as e:
                env.check(not isinstance(e, RecursionError), 'recursion')
                env.probe('exploration at the terminal taken up again')
        else:
            env.fail('gave up although faults have stopped',
                     numbers=plan['numbers'])
    finally:
        TERMINAL.user = None
    s = sessions[-1]
    atts = sorted(NUMBERS)
    mask = {a: 1 << j for j, a in enumerate(atts)}

    def m(names):
        return sum(mask[a] for a in names)
    nums = [m(user.intent(n)) for n in plan['numbers']]
    imps = [(m(i.premise), m(i.conclusion))
            for i in s.get_accepted_implications()]
    given = [x[0] for x in user.taken if len(x) == 1]
    env.eq('examples', [(str(o), m(s.context.get_intent(o)))
                        for o in s.context.objects],
           [(str(n), m(user.intent(n))) for n in given])
    env.eq('accepted implications', sorted(imps), sorted(
        (m(x[1]), m(x[2])) for x in user.taken if len(x) == 3))
    for k in range(32):
        want = got = 31
        for x in nums:
            if x & k == k:
                want &= x
        for n in given:
            if m(user.intent(n)) & k == k:
                got &= m(user.intent(n))
        env.eq('closure under what the user accepted', close(k, imps), want,
               numbers=plan['numbers'])
        env.eq('closure in the examples', got, want, numbers=plan['numbers'])
    env.state(sorted(imps), given)
    env.probe('converged: terminal')
    env.nontrivial = len(user.taken) >= 3
