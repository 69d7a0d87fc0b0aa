"""Shared by the property modules: names, tables, the model of a named table,
and the comparison of a library context with that model."""
from collections import Counter

from . import core
from .model import Rel, bits, mask

ALPHA = 'abcdefghijklmnopqrstuvwxyz'


def draw_names(rng, n, style, prefix=''):
    """n distinct names.  Random spelling gives random string hashes, hence a
    random iteration order of every set of names."""
    out, seen = [], set()
    if style == 'int':
        pool = rng.sample(range(0, 10 * n + 10), n)
        return pool
    while len(out) < n:
        if style == 'short':
            s = prefix + ALPHA[len(out) % 26] + (str(len(out) // 26)
                                                 if len(out) >= 26 else '')
        elif style == 'word':
            s = prefix + ''.join(rng.choice(ALPHA)
                                 for _ in range(rng.randint(2, 5)))
        elif style == 'unicode':
            s = prefix + ''.join(rng.choice('äßλж中é€ñ𝔸ab ')
                                 for _ in range(rng.randint(1, 4))).strip()
        elif style == 'clash':
            s = rng.choice(['a', 'b', 'a_1', 'b_0', 'a_1_0', 'b_2', 'a_0', 'a_2',
                            'b_1', 'a_3', 'b_3', 'a_2_1', 'b_1_2', 'a_4'])
            if len(out) >= 10:
                s += str(len(out))
        elif style == 'alike':
            # names that are other names put together
            s = rng.choice(ALPHA[:2]) if not out or rng.random() < .3 else \
                rng.choice(['', '', ', ', ',', ' ', '_', '|', "', '"]).join(
                    [rng.choice(out), rng.choice(out + ['a', 'b'])])
            if len(s) > 12:
                s = rng.choice(ALPHA) + rng.choice(ALPHA)
        elif style == 'odd':
            # anything that can be put in a set (and in a plan)
            s = rng.choice([None, '', 0, ' ', 'None', '0.25',
                            rng.randint(-9, 30), rng.randint(0, 20) + .25,
                            rng.choice(ALPHA), 'not ' + rng.choice(ALPHA)])
            if s in seen:
                s = rng.choice(ALPHA) + str(len(out))
        elif style == 'mixed':
            k = rng.randint(0, 60)
            s = rng.choice([k, k, ALPHA[rng.randrange(26)] + str(k % 10),
                            str(rng.choice(out) if out else k)])
        else:
            raise ValueError(style)
        if s == '' and style != 'odd' or s in seen:
            continue
        seen.add(s)
        out.append(s)
    return out


def draw_style(rng, sortable=True):
    return rng.choice(['short', 'word', 'word', 'word', 'unicode', 'int',
                       'alike']
                      if sortable else
                      ['short', 'word', 'word', 'unicode', 'int', 'mixed',
                       'alike', 'odd'])


def draw_rows(rng, n, m):
    """0/1 table with a random shape: sparse, dense, with full and empty rows
    and columns, repeated rows, chains, contranominal parts."""
    kind = rng.random()
    if kind < .1:
        rows = [[int(i != j) for j in range(m)] for i in range(n)]
    elif kind < .18:
        rows = [[int(j <= i) for j in range(m)] for i in range(n)]
    else:
        d = rng.choice([.2, .35, .5, .5, .65, .8, .9])
        rows = [[int(rng.random() < d) for _ in range(m)] for _ in range(n)]
    if n and rng.random() < .25:
        rows[rng.randrange(n)] = [1] * m
    if n and rng.random() < .2:
        rows[rng.randrange(n)] = [0] * m
    if n > 1 and rng.random() < .25:
        rows[rng.randrange(n)] = list(rows[rng.randrange(n)])
    if m and rng.random() < .15:
        j, v = rng.randrange(m), int(rng.random() < .5)
        for r in rows:
            r[j] = v
    rng.shuffle(rows)
    return rows


def history(rng, low, high):
    """How many steps: once in a while many."""
    n = rng.randint(low, high)
    return 4 * n if rng.random() < .015 else n


def draw_many(rng):
    """More than ten, a byte, a word, ..."""
    return rng.choice([rng.randint(10, 14), rng.randint(16, 34),
                       rng.randint(62, 70), rng.randint(250, 300)])


def draw_table(rng, max_n, max_m, min_n=0, min_m=0, style=None, sortable=True,
               tall=0, most=300, wide=0):
    """tall: how often there are many objects, up to *most* (with few
    different rows, so that everything else stays small)."""
    if tall and rng.random() < tall:
        n = min(draw_many(rng), rng.randint(most - 3, most))
        t = draw_table(rng, max_n + 2, max_m, min_m=min_m, min_n=3,
                       style=style, sortable=sortable)
        style = style or draw_style(rng, sortable)
        if style == 'unicode':
            style = 'word'
        return {'objs': draw_names(rng, n, style if n < 60 or style != 'mixed'
                                   else 'int',
                                   'g' if style == 'short' else ''),
                'atts': t['atts'],
                'rows': [list(rng.choice(t['rows'])) for _ in range(n)]}
    n = rng.randint(min_n, max_n)
    m = rng.randint(min_m, max_m)
    if wide and rng.random() < wide:
        m = rng.randint(max_m, 10)
    if rng.random() < .6:       # mostly the larger ones
        n = max(n, rng.randint(min_n, max_n))
        m = max(m, rng.randint(min_m, max_m))
    style = style or draw_style(rng, sortable)
    t = {'objs': draw_names(rng, n, style, 'g' if style == 'short' else ''),
         'atts': draw_names(rng, m, style),
         'rows': draw_rows(rng, n, m)}
    if style == 'word' and rng.random() < .08:
        side = rng.choice(['objs', 'atts'])
        t[side] = lengthened(rng, t[side])
    return t


def lengthened(rng, names):
    """Long names that differ only at the beginning or at the end."""
    more = ''.join(rng.choice(ALPHA) for _ in range(rng.randint(8, 70)))
    return [n + more for n in names] if rng.random() < .5 else \
        [more + n for n in names]


def draw_rich(rng, low=7, high=8, sortable=False):
    """Few objects and attributes with more than a hundred concepts."""
    k = rng.randint(low, high)
    style = draw_style(rng, sortable)
    rows = [[int(i != j) for j in range(k)] for i in range(k)]
    for _ in range(rng.randint(0, 2)):
        rows.append([int(rng.random() < .7) for _ in range(k)])
    if rng.random() < .3:
        for r in rows:
            r.append(int(rng.random() < .6))
    rng.shuffle(rows)
    return {'objs': draw_names(rng, len(rows), style,
                               'g' if style == 'short' else ''),
            'atts': draw_names(rng, len(rows[0]), style), 'rows': rows}


def bools(rows):
    return [[bool(x) for x in r] for r in rows]


def make_context(fca, t):
    if t['objs'] or len(t['atts']) % 2:
        cxt = fca.Context(bools(t['rows']), list(t['objs']), list(t['atts']))
    elif t['atts']:
        # what is left out is empty
        cxt = fca.Context(attributes=list(t['atts']))
    else:
        cxt = fca.Context()
    # a scale is a context
    return fca.Scale(cxt) if t.get('scale') else cxt


def simple_clash(names):
    """The documented renaming of equal names: a position suffix."""
    count = Counter(names)
    return [n if count[n] == 1 else '%s_%d' % (n, i)
            for i, n in enumerate(names)]


class Table:
    """The model: a named binary table.  Rows are lists of 0/1."""

    def __init__(self, objs, atts, rows):
        self.objs, self.atts = list(objs), list(atts)
        self.rows = [list(map(int, r)) for r in rows]
        self.gone_objs, self.gone_atts = [], []     # names no longer in use

    @classmethod
    def of(cls, t):
        return cls(t['objs'], t['atts'], t['rows'])

    def copy(self):
        return Table(self.objs, self.atts, self.rows)

    @property
    def rel(self):
        return Rel([mask(j for j, x in enumerate(r) if x) for r in self.rows],
                   len(self.atts))

    def as_plan(self):
        return {'objs': list(self.objs), 'atts': list(self.atts),
                'rows': [list(r) for r in self.rows]}

    def pairs(self):
        return {(o, a) for o, r in zip(self.objs, self.rows)
                for a, x in zip(self.atts, r) if x}

    def transposed(self):
        return Table(self.atts, self.objs,
                     [[r[j] for r in self.rows]
                      for j in range(len(self.atts))])

    # naming sets
    def aset(self, msk):
        return {self.atts[j] for j in bits(msk)}

    def oset(self, msk):
        return {self.objs[i] for i in bits(msk)}

    def amask(self, names):
        index = {a: j for j, a in enumerate(self.atts)}
        return mask(index[a] for a in names)

    def omask(self, names):
        index = {o: i for i, o in enumerate(self.objs)}
        return mask(index[o] for o in names)

    def intent_of(self, o):
        i = self.objs.index(o)
        return {a for a, x in zip(self.atts, self.rows[i]) if x}

    def extent_of(self, a):
        j = self.atts.index(a)
        return {o for o, r in zip(self.objs, self.rows) if r[j]}

    def concepts(self):
        """{(frozenset extent, frozenset intent)} in names."""
        return {(frozenset(self.oset(e)), frozenset(self.aset(i)))
                for e, i in self.rel.concepts()}


def settle_names(env, what, requested, got):
    """Check the names a context shows against the requested ones (possibly
    clashing); return the names to go on with."""
    got = list(got)
    env.check(len(got) == len(requested), 'wrong number of ' + what,
              got=got, want=requested)
    env.check(len(set(got)) == len(got), what + ' not distinct', got=got,
              requested=requested)
    want = simple_clash(requested)
    made = [w for w, r in zip(want, requested) if w != r]
    if len(set(want)) == len(want) and not set(made) & set(requested):
        env.eq('names of ' + what, got, want, requested=requested)
        if made:
            env.probe('clashing names')
    else:
        # a new name clashes in its turn: only distinctness, the stem and
        # untouched bystanders are promised
        env.probe('clashing names after renaming')
        for k, (r, g) in enumerate(zip(requested, got)):
            others = requested[:k] + requested[k + 1:]
            if any(str(r).startswith(str(x)) for x in others):
                env.check(str(g).startswith(str(r)),
                          'wrong names of ' + what, got=got,
                          requested=requested)
            else:
                env.eq('names of ' + what, g, r, requested=requested, all=got)
    return got


def check_same_table(env, cxt, t, label='context'):
    """Everything the context shows must be the model's table."""
    env.eq(label + ' objects', list(cxt.objects), t.objs)
    env.eq(label + ' attributes', list(cxt.attributes), t.atts)
    env.eq(label + ' length', len(cxt), len(t.objs))
    got = [[int(x) for x in cxt[i]] for i in range(len(t.objs))]
    env.eq(label + ' rows', got, t.rows)
    env.eq(label + ' intents', [cxt.get_object_intent_by_index(i)
                                for i in range(len(t.objs))],
           [t.intent_of(o) for o in t.objs])
    env.eq(label + ' extents', [cxt.get_attribute_extent_by_index(j)
                                for j in range(len(t.atts))],
           [t.extent_of(a) for a in t.atts])


def basis_masks(env, imps, t):
    """Library implications -> set of (premise mask, full conclusion mask),
    with repetition refused."""
    out = []
    names = set(t.atts)
    for imp in imps:
        p, c = set(imp.premise), set(imp.conclusion)
        env.check(p | c <= names, 'implication over unknown attributes',
                  implication=(p, c))
        pm = t.amask(p)
        out.append((pm, pm | t.amask(c)))
    env.check(len(set(out)) == len(out), 'repeated implication',
              got=[(sorted(map(str, t.aset(p))), sorted(map(str, t.aset(c))))
                   for p, c in out])
    return set(out)


def readable(t, pairs):
    return sorted((sorted(map(str, t.aset(p))), sorted(map(str, t.aset(c & ~p))))
                  for p, c in pairs)


def shrink_table(t):
    """Smaller tables, for minimisation: drop an object or an attribute."""
    for i in range(len(t['objs'])):
        yield {'objs': t['objs'][:i] + t['objs'][i + 1:],
               'atts': t['atts'],
               'rows': t['rows'][:i] + t['rows'][i + 1:]}
    for j in range(len(t['atts'])):
        yield {'objs': t['objs'],
               'atts': t['atts'][:j] + t['atts'][j + 1:],
               'rows': [r[:j] + r[j + 1:] for r in t['rows']]}


def shrink_key(*keys):
    def shrink(plan):
        import json
        for key in keys:
            if key in plan:
                for t in shrink_table(plan[key]):
                    p = json.loads(json.dumps(plan))
                    p[key] = t
                    yield p
    return shrink


def pick(seq, k):
    """k-th element, modulo: total for every index on non-empty sequences."""
    return seq[k % len(seq)]


def subset_from(names, bitsmask):
    return [n for i, n in enumerate(names) if bitsmask >> i & 1]


def swarm(rng, weights):
    """Per-run mix of operation kinds: some kinds off, some frequent."""
    out = {}
    for k, w in weights.items():
        f = rng.choice([0, .4, 1, 1, 3])
        out[k] = w * f
    if not any(out.values()):
        out = dict(weights)
    return out


def choose(rng, weights):
    return rng.choices(list(weights), list(weights.values()))[0]
