"""Queries on a context: how to ask one, and how to judge the answer.

A query is JSON: [kind, bits, k].  `prepare` turns it into arguments using the
model's current names, `ask` calls the library (this is what runs inside a
simulated thread, under an interrupt, between edits), `judge` compares the
normalised answer with the model.  Asking never looks at the model, judging
never looks at the library object.
"""
import numpy as np

from .edits import widened
from .model import bits as bits_of
from .model import close, mask
from .world import Table, basis_masks, readable

DERIV = ['intents', 'extents', 'pairs', 'oprime', 'aprime', 'oclosure',
         'aclosure', 'oprime_inds', 'aprime_inds', 'oclosure_inds',
         'aclosure_inds', 'assoc_aclosure', 'assoc_aprime', 'assoc_oprime_inds',
         'assoc_aprime_inds', 'op_oprime', 'op_aprime', 'op_oclosure',
         'op_aclosure']
CONCEPTS = ['concepts', 'iterate', 'lattice']
BASES = ['imps', 'canonical', 'imps_iter', 'imps_simple', 'imps_linear',
         'object_imps', 'object_imps_simple', 'imps_background',
         'object_imps_background', 'imps_cond', 'object_imps_cond']
DERIVED = ['transpose', 'complementary', 'compound', 'product', 'subcontext',
           'filtered_and', 'filtered_or', 'clarify', 'reduce_objects',
           'reduce_attributes', 'deepcopy', 'again', 'scale', 'equal']
HEAVY = ['factors', 'index']
INDICES = ['istability', 'estability', 'separation', 'probability',
           'extent_size', 'intent_size']
ALL = DERIV + CONCEPTS + BASES + DERIVED + HEAVY


def draw_query(rng, kinds=None, size=72):
    kind = rng.choice(kinds or ALL)
    b = rng.getrandbits(size)
    if rng.random() < .5:
        b &= rng.getrandbits(size)
    if rng.random() < .15:
        b = 0
    elif size > 72 and rng.random() < .5:
        b |= (1 << size) - 1 - (1 << rng.randrange(size))
    return [kind, b, rng.randrange(64)]


def _order(names, k):
    """The subset in one of several orders, and in one of several containers."""
    names = list(names)
    if k & 4:
        names.reverse()
    if k & 8 and names:
        names = names[1:] + names[:1]
    return [set, list, tuple, frozenset][k % 4](names)


def _order_inds(inds, k):
    inds = list(inds)
    if k & 4:
        inds.reverse()
    return [set, list, tuple, np.array][k % 4](inds) if inds or k % 4 < 2 \
        else inds


def background(t, b, k):
    """Implications that hold in t, with repetitions and in some order:
    list of (premise names, conclusion names)."""
    rel = t.rel
    m = rel.m
    out = []
    count = k % 4 + 1
    if k >= 52:
        count += k - 48
        b += b * 0x9E3779B97F4A7C15F39CC0605CEDC835 << 72
    for i in range(count):
        p = (b >> (7 * i)) & (b >> (3 * i + 1)) & rel.M
        c = rel.aclosure(p)
        if b >> (40 + i) & 1:       # only a part of what follows
            c &= p | (b >> 11)
        if b >> (50 + i) & 1:
            c &= ~p
        out.append((p, c))
    if b >> 60 & 1 and out:
        out = out + [out[0]]
    if b >> 61 & 1:
        out.reverse()
    return [(t.aset(p), t.aset(c)) for p, c in out]


def draw_cond(t, b, k):
    """A condition on premises that passes to subsets: [most elements,
    allowed names]."""
    return [b % 5 if k % 3 else len(t.atts),
            [a for j, a in enumerate(t.atts) if k % 3 == 1 or b >> j + 9 & 3]]


def fulfils(premise, cond):
    if cond is None or isinstance(cond, int):
        return cond is None or len(premise) <= cond
    return len(premise) <= cond[0] and set(premise) <= set(cond[1])


def sortable(names):
    try:
        sorted(names)
        return True
    except TypeError:
        return False


def prepare(t, q):
    """Arguments for ask(), from the model's present names."""
    kind, b, k = q
    n, m = len(t.objs), len(t.atts)
    if max(n, m) > 72 and b.bit_length() <= 72:
        b = widened(b, n, m)
    os_ = [o for i, o in enumerate(t.objs) if b >> i & 1]
    as_ = [a for j, a in enumerate(t.atts) if b >> j & 1]
    if kind in ('oprime', 'oclosure', 'op_oprime', 'op_oclosure'):
        return [kind, _order(os_, k)]
    if kind in ('aprime', 'aclosure', 'assoc_aclosure', 'assoc_aprime',
                'op_aprime', 'op_aclosure'):
        return [kind, _order(as_, k)]
    if kind in ('oprime_inds', 'oclosure_inds', 'assoc_oprime_inds'):
        return [kind, _order_inds([i for i in range(n) if b >> i & 1], k)]
    if kind in ('aprime_inds', 'aclosure_inds', 'assoc_aprime_inds'):
        return [kind, _order_inds([j for j in range(m) if b >> j & 1], k)]
    if kind == 'imps_background':
        return [kind, background(t, b, k), k]
    if kind == 'object_imps_background':
        return [kind, background(t.transposed(), b, k), k]
    if kind in ('imps_cond', 'object_imps_cond'):
        tt = t if kind == 'imps_cond' else t.transposed()
        return [kind, background(tt, b, k) if k & 8 else [], k,
                draw_cond(tt, b, k)]
    if kind == 'subcontext':
        if k & 4:
            as_.reverse()
        return [kind, as_]
    if kind in ('filtered_and', 'filtered_or'):
        return [kind, as_]
    if kind == 'product':
        p = b % 4 + (b >> 2) % 3
        rows = [[int(b >> (5 + (j * p + x) % 61) & 1) for x in range(p)]
                for j in range(m)]
        return [kind, rows, ['p%d' % x for x in range(p)]]
    if kind == 'index':
        return [kind, INDICES[k % len(INDICES)]]
    if kind == 'factors':
        return [kind, k % 2]
    if kind == 'equal':
        return [kind, t.as_plan(), b % 3 == 0 and n > 0 and m > 0, b]
    return [kind, k]


SKIPPED = 'skipped'     # not asked in such a context


def show_context(c):
    return {'objs': list(c.objects), 'atts': list(c.attributes),
            'rows': [[int(x) for x in r] for r in c]}


def show_concepts(cs):
    return [(frozenset(c.extent), frozenset(c.intent)) for c in cs]


def show_imps(imps):
    return [(frozenset(i.premise), frozenset(i.conclusion)) for i in imps]


def make_imps(fca, pairs):
    return [fca.Implication(set(p), set(c)) for p, c in pairs]


def ask(fca, cxt, args):
    """Call the library; returns plain data."""
    kind, a = args[0], args[1]
    co = fca.algorithms.closure_operators
    dg = fca.algorithms.dg_basis
    if kind == 'intents':
        return [[set(x) for x in cxt.examples()],
                [cxt.get_object_intent(o) for o in cxt.objects],
                [cxt.get_object_intent_by_index(i) for i in range(len(cxt))]]
    if kind == 'extents':
        return [[cxt.get_attribute_extent(x) for x in cxt.attributes],
                [cxt.get_attribute_extent_by_index(j)
                 for j in range(len(cxt.attributes))]]
    if kind == 'pairs':
        return list(cxt.object_attribute_pairs)
    if kind in ('oprime', 'aprime', 'oclosure', 'aclosure', 'oprime_inds',
                'aprime_inds', 'oclosure_inds', 'aclosure_inds'):
        out = getattr(cxt, kind)(a)
        return [int(x) for x in out] if kind.endswith('inds') else out
    if kind == 'assoc_aclosure':
        d, size = cxt.associative_aclosure(a)
        return dict(d), size
    if kind == 'assoc_aprime':
        return dict(cxt.associative_aprime(a))
    if kind == 'assoc_oprime_inds':
        return {int(x): y for x, y in cxt.associative_oprime_inds(a).items()}
    if kind == 'assoc_aprime_inds':
        return {int(x): y for x, y in cxt.associative_aprime_inds(a).items()}
    if kind.startswith('op_'):
        if kind in ('op_oclosure', 'op_aclosure') and not (
                sortable(cxt.objects) and sortable(cxt.attributes)):
            return SKIPPED
        return getattr(co, kind[3:])(a, cxt)
    if kind == 'concepts':
        return show_concepts(cxt.concepts)
    if kind == 'iterate':
        return [(frozenset(c.extent), frozenset(c.intent))
                for c in cxt.iterate_concepts()]
    if kind == 'lattice':
        return show_lattice(cxt.concept_lattice)
    if kind == 'imps':
        return show_imps(cxt.attribute_implications if a % 2 else
                         cxt.get_attribute_implications())
    if kind == 'canonical':
        return show_imps(cxt.get_attribute_canonical_basis())
    if kind == 'imps_iter':
        return show_imps(list(cxt.attribute_implications_iter()))
    if kind == 'imps_simple':
        return show_imps(cxt.get_attribute_implications(
            basis=fca.compute_dg_basis_simple) if a % 2 else
            fca.compute_dg_basis_simple(cxt))
    if kind == 'imps_linear':
        return show_imps(fca.compute_dg_basis(cxt, close=(
            co.simple_closure if a % 2 else co.lin_closure)))
    if kind == 'object_imps':
        return show_imps(cxt.object_implications if a % 2 else
                         cxt.get_object_implications())
    if kind == 'object_imps_simple':
        return show_imps(cxt.get_object_implications(
            basis=fca.compute_dg_basis_simple))
    if kind in ('imps_background', 'object_imps_background'):
        given = make_imps(fca, a)
        before = show_imps(given)
        same = list(given)
        k = args[2]
        if kind == 'object_imps_background':
            got = cxt.get_object_implications(confirmed=given)
        elif k % 5 == 0:
            got = cxt.get_attribute_implications(
                basis=fca.compute_dg_basis_simple, confirmed=given)
        elif k % 5 == 1:
            got = list(dg.dg_basis_iter_simple(cxt, imp_basis=given))
        else:
            got = cxt.get_attribute_implications(confirmed=given)
        untouched = (len(given) == len(same) and
                     all(x is y for x, y in zip(given, same)) and
                     show_imps(given) == before)
        return show_imps(got), untouched
    if kind in ('imps_cond', 'object_imps_cond'):
        given, k = make_imps(fca, a), args[2]

        def cond(premise):
            return fulfils(premise, args[3])
        if kind == 'object_imps_cond':
            got = cxt.get_object_implications(
                basis=lambda c, imp_basis: fca.compute_dg_basis(
                    c, imp_basis=imp_basis, cond=cond), confirmed=given)
        elif k % 5 == 0:
            got = cxt.get_attribute_implications(
                basis=fca.compute_dg_basis_simple, confirmed=given, cond=cond)
        elif k % 5 == 1:
            got = list(dg.dg_basis_iter_simple(cxt, imp_basis=given,
                                               cond=cond))
        elif k % 5 == 2:
            got = list(cxt.get_attribute_implications(
                basis=dg.dg_basis_iter_simple, confirmed=given, cond=cond))
        else:
            got = cxt.get_attribute_implications(confirmed=given, cond=cond)
        return show_imps(got)
    if kind == 'transpose':
        return show_context(cxt.transpose())
    if kind in ('complementary', 'compound'):
        if not all(isinstance(x, str) for x in cxt.attributes):
            return SKIPPED
        return show_context(getattr(cxt, kind)())
    if kind == 'product':
        right = fca.Context([[bool(x) for x in r] for r in a],
                            list(cxt.attributes), list(args[2]))
        return show_context(cxt * right)
    if kind == 'subcontext':
        return show_context(cxt.extract_subcontext(list(a)))
    if kind == 'filtered_and':
        return show_context(cxt.extract_subcontext_filtered_by_attributes(
            list(a)))
    if kind == 'filtered_or':
        return show_context(cxt.extract_subcontext_filtered_by_attributes(
            list(a), mode='or'))
    if kind == 'clarify':
        return show_context(cxt.clarify_objects())
    if kind == 'reduce_objects':
        return show_context(cxt.reduce_objects())
    if kind == 'reduce_attributes':
        return show_context(cxt.reduce_attributes())
    if kind == 'deepcopy':
        import copy
        return show_context(copy.deepcopy(cxt))
    if kind == 'again':     # another context from what this one hands out
        return show_context(fca.Context(cxt.table, cxt.objects,
                                        cxt.attributes))
    if kind == 'scale':
        return show_context(fca.Scale(cxt))
    if kind == 'equal':
        t = args[1]
        rows = [[bool(x) for x in r] for r in t['rows']]
        b = args[3]
        if args[2]:
            i, j = b % len(rows), (b >> 8) % len(rows[0])
            rows[i][j] = not rows[i][j]
        n = len(rows)
        order = sorted(range(n), key=lambda i: (b >> i & 1, i))
        other = fca.Context([rows[i] for i in order],
                            [t['objs'][i] for i in order], list(t['atts']))
        if type(cxt) is not fca.Context:    # a scale: not the other way
            return bool(cxt == other), bool(cxt == other)
        return bool(cxt == other), bool(other == cxt)
    if kind == 'factors':
        fs = list(fca.algorithms.factors.algorithm2(cxt))
        cs = [c for c, _ in fs]
        left, right = fca.algorithms.factors.make_factor_cxts(cs)
        return ([(frozenset(c.extent), frozenset(c.intent)) for c in cs],
                [s for _, s in fs],
                show_context(left * right) if cs else None)
    if kind == 'index':
        if not cxt.objects or not cxt.attributes:
            return SKIPPED
        cl = cxt.concept_lattice
        f = index_function(fca, a)
        return {(frozenset(c.extent), frozenset(c.intent)): v
                for c, v in f(cl).items()}
    raise ValueError(kind)


def index_function(fca, name):
    f = fca.algorithms.filtering
    return {'istability': fca.compute_istability,
            'estability': fca.compute_estability,
            'separation': fca.compute_separation_index,
            'probability': fca.compute_probability,
            'extent_size': f.compute_extent_size,
            'intent_size': f.compute_intent_size}[name]


def show_lattice(cl):
    def key(c):
        return (frozenset(c.extent), frozenset(c.intent))
    cs = list(cl)
    return {'concepts': [key(c) for c in cs],
            'top': key(cl.top_concept), 'bottom': key(cl.bottom_concept),
            'filter': [[key(x) for x in cl.filter(c)] for c in cs],
            'ideal': [[key(x) for x in cl.ideal(c)] for c in cs],
            'parents': [[key(x) for x in cl.parents(c)] for c in cs],
            'children': [[key(x) for x in cl.children(c)] for c in cs],
            'contains': all(c in cl for c in cs),
            'index': [cl.index(c) for c in cs], 'len': len(cl)}


# ------------------------------------------------------------------- judging

def judge(env, t, args, got):
    kind, a = args[0], args[1]
    rel = t.rel

    def eq(want):
        env.eq('answer to ' + kind, got, want, args=args, table=t.as_plan())

    if kind == 'intents':
        want = [t.intent_of(o) for o in t.objs]
        eq([want, want, want])
    elif kind == 'extents':
        want = [t.extent_of(x) for x in t.atts]
        eq([want, want])
    elif kind == 'pairs':
        env.eq('pairs', (set(got), len(got)), (t.pairs(), len(t.pairs())),
               table=t.as_plan())
    elif kind == 'oprime':
        eq(t.aset(rel.intent(t.omask(a))))
    elif kind == 'aprime':
        eq(t.oset(rel.extent(t.amask(a))))
    elif kind == 'oclosure':
        eq(t.oset(rel.oclosure(t.omask(a))))
    elif kind == 'aclosure':
        eq(t.aset(rel.aclosure(t.amask(a))))
    elif kind.endswith('_inds') and not kind.startswith('assoc'):
        msk = mask(int(x) for x in a)
        want = {'oprime_inds': rel.intent, 'aprime_inds': rel.extent,
                'oclosure_inds': rel.oclosure,
                'aclosure_inds': rel.aclosure}[kind](msk)
        env.eq('answer to ' + kind, (sorted(got)),
               sorted(bits_of(want)), args=args, table=t.as_plan())
    elif kind == 'assoc_aclosure':
        ext = rel.extent(t.amask(a))
        d, size = got
        env.eq('extent size', size, bin(ext).count('1'), args=args,
               table=t.as_plan())
        env.eq('counts of ' + kind, {x: d.get(x, 0) for x in t.atts},
               {x: sum(t.rows[i][j] for i in bits_of(ext))
                for j, x in enumerate(t.atts)}, args=args, table=t.as_plan())
        env.check(set(d) <= set(t.atts), 'unknown names', got=d)
    elif kind == 'assoc_aprime':
        js = [t.atts.index(x) for x in a]
        env.eq('counts of ' + kind, {x: got.get(x, 0) for x in t.objs},
               {o: sum(r[j] for j in js) for o, r in zip(t.objs, t.rows)},
               args=args, table=t.as_plan())
        env.check(set(got) <= set(t.objs), 'unknown names', got=got)
    elif kind == 'assoc_oprime_inds':
        env.eq('counts of ' + kind,
               [got.get(j, 0) for j in range(len(t.atts))],
               [sum(t.rows[int(i)][j] for i in a) for j in range(len(t.atts))],
               args=args, table=t.as_plan())
    elif kind == 'assoc_aprime_inds':
        env.eq('counts of ' + kind,
               [got.get(i, 0) for i in range(len(t.objs))],
               [sum(r[int(j)] for j in a) for r in t.rows],
               args=args, table=t.as_plan())
    elif kind == 'op_oprime':
        eq(t.aset(rel.intent(t.omask(a))))
    elif kind == 'op_aprime':
        eq(t.oset(rel.extent(t.amask(a))))
    elif kind == 'op_oclosure':
        if got is not SKIPPED:
            eq(sorted(t.oset(rel.oclosure(t.omask(a)))))
    elif kind == 'op_aclosure':
        if got is not SKIPPED:
            eq(sorted(t.aset(rel.aclosure(t.amask(a)))))
    elif kind in ('concepts', 'iterate'):
        judge_concepts(env, t, got, kind)
    elif kind == 'lattice':
        judge_lattice(env, t, got)
    elif kind in ('imps', 'canonical', 'imps_iter', 'imps_simple',
                  'imps_linear'):
        judge_basis(env, t, got, [], kind)
    elif kind in ('object_imps', 'object_imps_simple'):
        judge_basis(env, t.transposed(), got, [], kind)
    elif kind in ('imps_background', 'object_imps_background'):
        tt = t if kind == 'imps_background' else t.transposed()
        imps, untouched = got
        judge_basis(env, tt, imps, a, kind)
        env.check(untouched, 'background list modified', args=args)
    elif kind in ('imps_cond', 'object_imps_cond'):
        judge_basis(env, t if kind == 'imps_cond' else t.transposed(), got, a,
                    kind, cond=args[3])
    elif kind == 'index':
        if got is not SKIPPED:
            judge_index(env, t, a, got)
    elif kind == 'factors':
        judge_factors(env, t, got)
    elif kind == 'equal':
        eq((not args[2], not args[2]))
    else:
        judge_derived(env, t, args, got)


def judge_concepts(env, t, got, label):
    want = t.concepts()
    env.check(len(set(got)) == len(got), 'repeated concepts in ' + label,
              got=got, table=t.as_plan())
    env.eq('concepts in ' + label, set(got), want, table=t.as_plan())


def judge_lattice(env, t, got):
    cs = got['concepts']
    judge_concepts(env, t, cs, 'lattice')
    env.eq('lattice size', got['len'], len(cs))
    env.check(got['contains'], 'lattice denies containing its concepts')
    env.eq('index', got['index'], list(range(len(cs))))
    top = min(cs, key=lambda c: len(c[1]))
    bottom = max(cs, key=lambda c: len(c[1]))
    env.eq('top', got['top'], top, table=t.as_plan())
    env.eq('bottom', got['bottom'], bottom, table=t.as_plan())
    for i, c in enumerate(cs):
        up = {d for d in cs if d[1] < c[1]}
        down = {d for d in cs if d[1] > c[1]}
        parents = {d for d in up if not any(d[1] < e[1] for e in up)}
        children = {d for d in down if not any(d[1] > e[1] for e in down)}
        for name, want in (('filter', up), ('ideal', down),
                           ('parents', parents), ('children', children)):
            x = got[name][i]
            env.check(len(set(x)) == len(x), 'repeated in ' + name, got=x)
            env.eq(name, set(x), want, concept=c, table=t.as_plan())


_BASIS_CACHE = {}


def relative_basis(rel, bg):
    key = (tuple(rel.rows), rel.m, tuple(sorted(bg)))
    if key not in _BASIS_CACHE:
        if len(_BASIS_CACHE) > 300:
            _BASIS_CACHE.clear()
        _BASIS_CACHE[key] = set(rel.pseudo_intents(bg))
    return _BASIS_CACHE[key]


def judge_basis(env, t, imps, bg_names, label, limit=8, cond=None):
    """imps: [(premise, conclusion)]; bg: background pairs of name sets."""
    class I:
        def __init__(self, p, c):
            self.premise, self.conclusion = p, c
    got = basis_masks(env, [I(p, c) for p, c in imps], t)
    bg = [(t.amask(p), t.amask(c)) for p, c in bg_names]
    rel = t.rel
    if rel.m <= limit:
        want = {(p, c) for p, c in relative_basis(rel, bg)
                if fulfils(t.aset(p), cond)}
        if got != want:
            env.fail('wrong basis from ' + label, got=readable(t, got),
                     want=readable(t, want), table=t.as_plan(),
                     background=bg_names)
        env.probe('basis judged by definition')
    elif cond is None:
        judge_large_basis(env, t, rel, got, bg, label)
        env.probe('basis judged by properties')


def judge_large_basis(env, t, rel, got, bg, label):
    """Sound, pseudo-closed premises, full conclusions, and complete: every
    closed set of basis + background that contains a non-intent is refuted by
    a pseudo-intent search over closed sets (NextClosure on the model)."""
    for p, c in got:
        if rel.aclosure(p) != c or c == p:
            env.fail('wrong basis from ' + label, implication=(t.aset(p),
                     t.aset(c)), table=t.as_plan())
        rest = [(q, d) for q, d in got if q != p] + bg
        if close(p, rest) != p:
            env.fail('wrong basis from ' + label, reason='premise not closed',
                     implication=(t.aset(p), t.aset(c)), table=t.as_plan())
    # complete: as many closed sets as intents
    imps = sorted(got) + bg
    n = count_closed(rel.m, imps, 20000)
    want = len(rel.intents())
    if n is not None and n != want:
        env.fail('wrong basis from ' + label, reason='incomplete',
                 closed_sets=n, intents=want, table=t.as_plan())


def count_closed(m, imps, limit):
    """Number of sets closed under imps, by NextClosure; None above limit."""
    a = close(0, imps)
    n = 1
    full = (1 << m) - 1
    while a != full:
        for j in range(m - 1, -1, -1):
            if a >> j & 1:
                a &= ~(1 << j)
            else:
                b = close(a | 1 << j, imps)
                # smaller positions unchanged
                if not (b & ~a) & ((1 << j) - 1):
                    a = b
                    break
        n += 1
        if n > limit:
            return None
    return n


def judge_factors(env, t, got):
    cs, shares, product = got
    concepts = t.concepts()
    left = t.pairs()
    total = len(left)
    for c, s in zip(cs, shares):
        env.check(c in concepts, 'factor is not a concept', factor=c,
                  table=t.as_plan())
        new = {(o, a) for o in c[0] for a in c[1]} & left
        env.check(abs(s - len(new) / total) < 1e-9, 'wrong coverage', got=s,
                  want=(len(new), total), factor=c, table=t.as_plan())
        env.check(new, 'factor covers nothing new', factor=c,
                  table=t.as_plan())
        left -= new
    env.check(not left, 'crosses not covered', missing=left,
              table=t.as_plan())
    if product is not None:
        judge_product_of_factors(env, t, product)
    else:
        env.check(not total, 'no factors', table=t.as_plan())


def judge_product_of_factors(env, t, product):
    p = Table(product['objs'], product['atts'], product['rows'])
    env.eq('product of the factor contexts', p.pairs(), t.pairs(),
           table=t.as_plan())
    env.eq('objects of the product', sorted(map(repr, p.objs)),
           sorted(repr(o) for o, r in zip(t.objs, t.rows) if any(r)))
    env.eq('attributes of the product', sorted(map(repr, p.atts)),
           sorted(repr(a) for j, a in enumerate(t.atts)
                  if any(r[j] for r in t.rows)))


# ------------------------------------------------------------------- indices

def stability(subsets_closed_to, n):
    return subsets_closed_to / 2 ** n


def index_values(t, name):
    """{(extent, intent): value} by definition."""
    rel = t.rel
    out = {}
    exact_e = exact_i = None
    if max(rel.n, rel.m) > 10:
        exact_e, exact_i = exact_counts(rel.concepts())
    for e, i in rel.concepts():
        ext = list(bits_of(e))
        att = list(bits_of(i))
        if name == 'extent_size':
            v = len(ext) / rel.n
        elif name == 'intent_size':
            v = len(att) / rel.m
        elif name == 'separation':
            square = len(ext) * len(att)
            if not square:
                v = 1.0
            else:
                crossed = sum(bin(rel.rows[g]).count('1') for g in ext)
                cols = rel.cols()
                crossed += sum(bin(cols[a]).count('1') for a in att) - square
                v = square / crossed
        elif name == 'istability':
            hits = exact_e[e] if exact_e else 0
            for s in range(0 if exact_e else 1 << len(ext)):
                if rel.intent(mask(ext[x] for x in bits_of(s))) == i:
                    hits += 1
            v = hits / 2 ** len(ext)
        elif name == 'estability':
            hits = exact_i[i] if exact_i else 0
            for s in range(0 if exact_i else 1 << len(att)):
                if rel.extent(mask(att[x] for x in bits_of(s))) == e:
                    hits += 1
            v = hits / 2 ** len(att)
        elif name == 'probability':
            v = probability_of_closed(rel, i)
        out[(frozenset(t.oset(e)), frozenset(t.aset(i)))] = v
    return out


def exact_counts(concepts):
    """How many sets close to each extent, to each intent: all subsets, less
    those that close to something smaller."""
    outs = []
    for fam in ({e for e, _ in concepts}, {i for _, i in concepts}):
        n = {}
        for x in sorted(fam, key=lambda x: bin(x).count('1')):
            n[x] = 2 ** bin(x).count('1') - sum(
                v for y, v in n.items() if y & x == y and y != x)
        outs.append(n)
    return outs


def probability_of_closed(rel, b):
    """P(B is closed) for n independent rows with the column frequencies:
    sum_k C(n,k) p_B^k (1-p_B)^(n-k) prod_{m not in B} (1 - p_m^k)."""
    from fractions import Fraction
    from math import comb
    n = rel.n
    cols = rel.cols()
    p = [Fraction(bin(c).count('1'), n) for c in cols]
    pb = Fraction(1)
    for j in bits_of(b):
        pb *= p[j]
    out = Fraction(0)
    for k in range(n + 1):
        t = comb(n, k) * pb ** k * (1 - pb) ** (n - k)
        for j in range(rel.m):
            if not b >> j & 1:
                t *= 1 - p[j] ** k
        out += t
    return float(out)


def judge_index(env, t, name, got):
    want = index_values(t, name)
    env.eq('concepts of index ' + name, set(got), set(want),
           table=t.as_plan())
    for c, v in want.items():
        env.check(abs(got[c] - v) < 1e-9 * max(1, abs(v)) + 1e-9,
                  'wrong %s index' % name, got=got[c], want=v, concept=c,
                  table=t.as_plan())


# ------------------------------------------------------------------- derived

def lattice_shape(t):
    """Intents as masks, for comparing structure."""
    return t.rel.intents()


def judge_derived(env, t, args, got):
    kind, a = args[0], args[1]
    if got is SKIPPED:
        return
    g = Table(got['objs'], got['atts'], got['rows'])

    def same(want, label=kind):
        env.eq(label, got, want.as_plan(), table=t.as_plan(), args=args)

    if kind == 'transpose':
        same(t.transposed())
    elif kind in ('deepcopy', 'again', 'scale'):
        same(t)
    elif kind == 'complementary':
        same(Table(t.objs, ['not ' + x for x in t.atts],
                   [[1 - x for x in r] for r in t.rows]))
    elif kind == 'compound':
        names = list(t.atts) + ['not ' + x for x in t.atts]
        if len(set(names)) == len(names):
            same(Table(t.objs, names, [r + [1 - x for x in r]
                                       for r in t.rows]))
    elif kind == 'product':
        same(Table(t.objs, args[2],
                   [[int(any(r[j] and a[j][x] for j in range(len(t.atts))))
                     for x in range(len(args[2]))] for r in t.rows]))
    elif kind == 'subcontext':
        js = [t.atts.index(x) for x in a]
        same(Table(t.objs, a, [[r[j] for j in js] for r in t.rows]))
    elif kind in ('filtered_and', 'filtered_or'):
        js = [t.atts.index(x) for x in a]
        test = all if kind == 'filtered_and' else any
        keep = [i for i, r in enumerate(t.rows) if test(r[j] for j in js)]
        same(Table([t.objs[i] for i in keep], t.atts,
                   [t.rows[i] for i in keep]))
    elif kind == 'clarify':
        rows = [tuple(r) for r in g.rows]
        env.eq('attributes after clarification', g.atts, t.atts)
        env.check(len(set(rows)) == len(rows), 'rows not clarified', got=got,
                  table=t.as_plan())
        env.eq('rows after clarification', set(rows),
               {tuple(r) for r in t.rows}, table=t.as_plan())
        for o, r in zip(g.objs, g.rows):
            env.check(o in t.objs and t.rows[t.objs.index(o)] == r,
                      'clarification changed a row', got=got,
                      table=t.as_plan())
    elif kind == 'reduce_objects':
        env.eq('attributes after reduction', g.atts, t.atts)
        judge_reduced(env, t, g, got)
    elif kind == 'reduce_attributes':
        env.eq('objects after reduction', g.objs, t.objs)
        judge_reduced(env, t.transposed(), g.transposed(), got)
    else:
        raise ValueError(kind)


def judge_reduced(env, t, g, got):
    """g: t with reducible objects removed, same attributes."""
    env.check(len(set(g.objs)) == len(g.objs), 'repeated objects', got=got)
    for o, r in zip(g.objs, g.rows):
        env.check(o in t.objs and t.rows[t.objs.index(o)] == r,
                  'reduction changed a row', got=got, table=t.as_plan())
    rows = [mask(j for j, x in enumerate(r) if x) for r in g.rows]
    env.check(len(set(rows)) == len(rows), 'equal rows after reduction',
              got=got, table=t.as_plan())
    full = (1 << len(t.atts)) - 1
    env.eq('intents after reduction', g.rel.intents(), t.rel.intents(),
           got=got, table=t.as_plan())
    for r in rows:
        meet = full
        larger = [s for s in rows if s & r == r and s != r]
        for s in larger:
            meet &= s
        if meet == r and r != full:
            env.fail('reducible row left', row=r, got=got, table=t.as_plan())
