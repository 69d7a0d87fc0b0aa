"""C28: implications judge and compare by what they say."""
import copy

from .. import core
from ..world import draw_names, history

RUNS = {'quick': 96000, 'thorough': 768000}
RULE = ('a run is a history over a pool of implications, unit implications '
        'and negative implications that several parties make, copy, compare, '
        'collect in sets and dictionaries, print and hold against examples '
        'known in full or in part, while the sets they were made from and the '
        'sets of their copies are changed afterwards; sets are handed over in '
        'a drawn order. Every verdict, comparison and text is checked against '
        'plain sets. Non-trivial: 3 kinds of questions about 3 implications')
REAL = ['fca.Implication, UnitImplication, NegativeImplication']
STUB = ['the parties', 'order of sets']
STATE = 'digest of the pool'
LISTS = ['ops']

KINDS = ['plain', 'plain', 'unit', 'negative']


def generate(rng, tier):
    m = rng.randint(1, 7)
    style = rng.choice(['word', 'word', 'unicode', 'int', 'mixed', 'alike', 'odd'])
    names = draw_names(rng, m, style)
    ops = []
    for _ in range(history(rng, 6, 24)):
        k = rng.choice(['make', 'make', 'make', 'twin', 'copy', 'judge',
                        'judge', 'partial', 'compare', 'collect', 'text',
                        'tamper', 'tamper copy', 'compute', 'close'])
        ops.append([k, rng.choice(KINDS), rng.getrandbits(m),
                    rng.getrandbits(m) & rng.getrandbits(m),
                    rng.getrandbits(30)])
    return {'names': names, 'ops': ops}


def in_order(names):
    try:
        return sorted(names)
    except TypeError:
        return sorted(names, key=str)


class Model:
    """An implication: kind, premise, conclusion without the premise."""

    def __init__(self, kind, p, c):
        self.negative = kind == 'negative'
        self.kind = kind
        self.p, self.c = frozenset(p), frozenset(c) - frozenset(p)

    def key(self):
        return self.negative, self.p, self.c

    def respected(self, s):
        if not self.p <= s:
            return True
        return not self.c & s if self.negative else self.c <= s

    def text(self):
        c = ', '.join(map(str, in_order(self.c)))
        return '%s => %s' % (', '.join(map(str, in_order(self.p))),
                             'not (%s)' % c if self.negative else c)


def execute(plan, env):
    fca = core.load_fca()
    cls = {'plain': fca.Implication, 'unit': fca.UnitImplication,
           'negative': fca.NegativeImplication}
    names = plan['names']
    pool = []                       # (implication, model)
    asked = set()

    def shuffled(rng, msk):
        x = [n for j, n in enumerate(names) if msk >> j & 1]
        rng.shuffle(x)
        return x

    def make(kind, p, c, rng):
        p = shuffled(rng, p)
        if kind == 'unit':
            rest = [n for n in names if n not in p]
            if not rest:
                p, rest = p[1:], p[:1]
            x = rng.choice(rest)
            given = set(p)
            imp = env.call('UnitImplication', cls[kind], given, x)
            c = [x]
            spare = []
        else:
            c = shuffled(rng, c)
            given, spare = set(p), set(c)
            if rng.random() < .2 and not c:
                imp = env.call('without conclusion', cls[kind], given)
            else:
                imp = env.call('make ' + kind, cls[kind], given, spare)
        m = Model(kind, p, c)
        env.eq('arguments after making', (given, set(spare)),
               (set(p), set(c) if kind != 'unit' else set()))
        # the sets belong to the caller, who goes on using them
        given.symmetric_difference_update(names[:2])
        if kind != 'unit':
            spare.symmetric_difference_update(names[-2:])
        return imp, m

    def same(what, imp, m):
        env.eq('premise ' + what, set(imp.premise), set(m.p))
        env.eq('conclusion ' + what, set(imp.conclusion), set(m.c))

    for kind, sort, p, c, b in plan['ops']:
        rng = core.rng_for('op', b)
        if kind == 'compute':
            # implications somebody computed are like any others
            rows = [[rng.random() < .6 for _ in names]
                    for _ in range(rng.randint(0, 4))]
            cxt = fca.Context(rows, list(range(len(rows))), list(names))
            got = env.call('basis', [
                cxt.get_attribute_implications,
                cxt.get_attribute_canonical_basis,
                lambda: list(cxt.attribute_implications_iter()),
                lambda: fca.compute_dg_basis_simple(cxt)][b % 4])
            for i in got[:4]:
                pool.append((i, Model('plain', i.premise, i.get_conclusion())))
            env.probe('computed')
            continue
        if kind == 'close' and pool:
            # used by somebody else
            some = [i for i, x in pool if not x.negative]
            rng.shuffle(some)
            env.call('close', fca.algorithms.closure_operators.lin_closure
                     if b % 2 else
                     fca.algorithms.closure_operators.simple_closure,
                     set(shuffled(rng, p)), some)
            for i, x in pool:
                same('after a closure', i, x)
            continue
        if kind == 'make' or not pool:
            pool.append(make(sort, p, c, rng))
            same('when made', *pool[-1])
            continue
        imp, m = pool[b % len(pool)]
        if kind == 'twin':
            # the same again, made from other sets
            p = set(shuffled(rng, sum(1 << names.index(x) for x in m.p)))
            if m.kind == 'unit':
                twin = cls['unit'](p, next(iter(m.c)))
            else:
                twin = cls[m.kind](p, set(m.c) | {x for x in m.p
                                                  if rng.random() < .5})
            pool.append((twin, Model(m.kind, m.p, m.c)))
            env.check(imp == twin and not imp != twin,
                      'twins differ', implication=m.text())
            env.eq('hash of twins', hash(twin), hash(imp))
            env.eq('text of twins', str(twin), str(imp))
            asked.add((kind, b % len(pool)))
        elif kind == 'copy':
            got = env.call('deepcopy', copy.deepcopy, imp)
            env.check(type(got) is type(imp), 'kind of a copy', got=got,
                      of=type(imp).__name__)
            pool.append((got, Model(m.kind, m.p, m.c)))
            same('of a copy', got, m)
            env.check(got == imp, 'a copy differs', implication=m.text())
            if rng.random() < .3:
                many = env.call('deepcopy of a list', copy.deepcopy,
                                [i for i, _ in pool])
                for i, (_, x) in zip(many, pool):
                    same('of a copied list', i, x)
                    env.eq('text of a copied list', str(i), x.text())
        elif kind == 'tamper copy':
            # what is done to a copy is not done to the implication
            got = env.call('deepcopy', copy.deepcopy, imp)
            got.get_premise().symmetric_difference_update(names)
            got.get_conclusion().clear()
            env.probe('copy changed')
        elif kind == 'tamper':
            # the reduced conclusion handed out is the caller's
            imp.get_reduced_conclusion().symmetric_difference_update(names)
            imp.conclusion.clear()
            env.probe('handed out set changed')
        elif kind == 'judge':
            s = set(shuffled(rng, p)) | (set(m.p) if b & 64 else set()) | \
                (set(m.c) if b & 128 else set())
            before = set(s)
            got = env.call('is_respected', imp.is_respected, s)
            env.check(bool(got) == m.respected(s), 'wrong verdict',
                      implication=m.text(), on=sorted(map(str, s)), got=got)
            env.eq('set after a verdict', s, before)
            env.probe('verdict %s %s' % (m.kind, bool(got)))
            asked.add((kind, b % len(pool)))
        elif kind == 'partial' and not m.negative:
            # every completion allows it, or none can satisfy it
            sure = set(shuffled(rng, p))
            if b & 64:
                sure |= m.p
            maybe = sure | set(shuffled(rng, c))
            if b & 128:
                maybe |= m.c
            got = env.call('is_respected', imp.is_respected,
                           (set(sure), set(maybe)))
            env.check(bool(got) == (not m.p <= sure or m.c <= maybe),
                      'wrong verdict on a partial example',
                      implication=m.text(), sure=sorted(map(str, sure)),
                      maybe=sorted(map(str, maybe)), got=got)
            env.probe('partial verdict %s' % bool(got))
            asked.add((kind, b % len(pool)))
        elif kind == 'compare':
            for other, o in pool:
                same_ = m.key() == o.key()
                env.check(bool(imp == other) == same_ and
                          bool(other == imp) == same_ and
                          bool(imp != other) != same_, 'comparison',
                          a=m.text(), b=o.text())
                if same_:
                    env.eq('hash of equal implications', hash(imp),
                           hash(other))
            asked.add((kind, b % len(pool)))
        elif kind == 'collect':
            chosen = [x for x in pool if rng.random() < .7]
            rng.shuffle(chosen)
            got = set(i for i, _ in chosen)
            env.eq('implications in a set', len(got),
                   len({o.key() for _, o in chosen}))
            env.check((imp in got) ==
                      (m.key() in {o.key() for _, o in chosen}) and
                      (imp in [i for i, _ in chosen]) == (imp in got),
                      'membership', implication=m.text())
            asked.add((kind, b % len(pool)))
        elif kind == 'text':
            for i, o in pool:
                env.eq('text', env.call('str', str, i), o.text())
                env.eq('repr', repr(i), o.text())
            env.eq('text of a list', str([i for i, _ in pool]),
                   '[%s]' % ', '.join(o.text() for _, o in pool))
            asked.add((kind, b % len(pool)))
        for i, o in pool:
            same('later', i, o)
        env.state(*sorted(map(repr, (o.text() for _, o in pool))))
    env.nontrivial = len({k for k, _ in asked}) >= 3 and \
        len({k for _, k in asked}) >= 3
