"""C27: printed forms show the current data."""
from .. import core
from ..edits import apply_edit, draw_edit
from ..partial import PartialWorld, draw_partial
from ..partial import draw_step as draw_partial_step
from ..world import draw_table, history, make_context, shrink_key, Table
from .c11 import BasicWorld, STEPS, draw_step

RUNS = {'quick': 31968, 'thorough': 255744}
RULE = ('a run is a context and a history of up to 16 edits (valid and '
        'refused) of it and printings of it, of contexts derived from it, of '
        'its concepts, lattice and concept systems, annotated or not, of '
        'many-valued contexts over the same names, of partial contexts and '
        'explorations between steps that change them; every text is compared with the one the documented '
        'format gives for the model, sets being handed over in a drawn order, '
        'and printing must leave everything as it was. Non-trivial: 3 '
        'printings after an edit')
REAL = ['text forms of Context, PartialContext, ManyValuedContext, Concept, '
        'ConceptLattice, ConceptSystem, BasicExploration',
        'fca.Context edits', 'norris']
STUB = ['the caller', 'order of sets']
STATE = 'digest of printed texts'
shrink = shrink_key('table')


def generate(rng, tier):
    style = rng.choice(['word', 'word', 'unicode', 'int', 'mixed', 'alike', 'odd'])
    t = draw_table(rng, 6, 6, style=style, sortable=False, tall=.03, wide=.03)
    ops = []
    for _ in range(history(rng, 4, 16)):
        if rng.random() < .35:
            ops.append(['edit', draw_edit(rng, t['objs'], t['atts'], .15,
                                          clashes=rng.random() < .3)])
        else:
            ops.append(['print', rng.choice(
                ['context', 'context', 'transposed', 'concepts', 'lattice',
                 'system', 'annotated', 'partial', 'partial', 'many-valued',
                 'exploration', 'exploration', 'own concept']), rng.getrandbits(32)])
    return {'table': t, 'ops': ops}


def in_order(names):
    try:
        return sorted(names)
    except TypeError:
        return sorted(names, key=lambda x: (str(x), type(x).__name__))


def text_of_context(t):
    return ', '.join(map(str, t.atts)) + '\n' + ''.join(
        '%s\t%s\n' % (o, ''.join('.X'[x] for x in r))
        for o, r in zip(t.objs, t.rows))


def text_of_concept(e, i, meta=None):
    return '(%s, %s)%s' % (in_order(e) if i else 'G',
                           in_order(i) if e else 'M',
                           ' meta: %s' % meta if meta else '')


def text_of_partial(w):
    lines = [''.join('X' if a in x else '?' if a in q else '.'
                     for a in w.atts) for x, q in w.pairs()]
    return ', '.join(map(str, w.atts)) + '\n' + \
        ', '.join(map(str, w.objs)) + '\n' + ''.join('\n' + x for x in lines)


def same_exploration(env, w):
    ex = w.ex

    def block(title, imps):
        return title + ':\n' + '=' * (len(title) + 1) + '\n' + \
            ''.join(', '.join(map(str, in_order(i.premise))) + ' => ' +
                    ', '.join(map(str, in_order(i.conclusion))) + '\n'
                    for i in imps)
    text = env.call('print exploration', str, ex)
    want = ('Context:\n========\n' + text_of_context(w.t) + '\n' +
            block('Attribute implications', ex.attribute_implications) +
            block('Confirmed attribute implications',
                  ex.confirmed_attribute_implications) +
            block('Object implications', ex.object_implications) +
            block('Confirmed object implications',
                  ex.confirmed_object_implications))
    squeeze = [[x for x in y.split('\n') if x and set(x) != {'='}]
               for y in (text, want)]
    env.eq('text of an exploration', squeeze[0], squeeze[1])
    env.probe('printed exploration')


def in_some_order(rng, names):
    names = list(names)
    rng.shuffle(names)
    return names


def execute(plan, env):
    fca = core.load_fca()
    t = Table.of(plan['table'])
    cxt = env.call('Context', make_context, fca, plan['table'])
    edited = printed = 0
    kept = kept_partial = None
    steps = {k: n for k, n in STEPS.items() if k != 'initial'}

    def same(what, thing, want):
        nonlocal printed
        got = env.call('print ' + what, str, thing)
        env.eq('text of ' + what, got, want)
        env.eq('repr or str again', env.call('print ' + what, str, thing),
               want, what=what)
        env.state(want)
        env.probe('printed ' + what)
        printed += edited > 0

    for op in plan['ops']:
        if op[0] == 'edit':
            edited += apply_edit(env, cxt, t, op[1], 7, 7) == 'done'
            continue
        _, what, b = op
        if what == 'exploration' and max(len(t.objs), len(t.atts)) > 12:
            what = 'context'    # its bases would cost too much
        rng = core.rng_for('print', b)
        if what == 'context':
            same(what, cxt, text_of_context(t))
            env.eq('repr of a context', repr(cxt), text_of_context(t))
        elif what == 'transposed':
            same(what, cxt.transpose(), text_of_context(t.transposed()))
        elif what in ('concepts', 'annotated', 'lattice', 'system'):
            known = t.concepts()
            if what == 'lattice':
                pool = env.call('lattice', fca.ConceptLattice, cxt)
            else:
                pool = env.call('concepts', lambda: cxt.concepts)
            cs = list(pool)
            meta = {}
            if what == 'annotated' or b % 5 == 0:
                for c in cs:
                    if rng.random() < .6:
                        c.meta['size'] = len(c.extent)
                        if rng.random() < .5:
                            c.meta['Index'] = rng.random()
            keys = [(frozenset(c.extent), frozenset(c.intent)) for c in cs]
            env.eq('concepts', set(keys), known)
            texts = [text_of_concept(e, i, c.meta)
                     for (e, i), c in zip(keys, cs)]
            if what in ('concepts', 'annotated'):
                for c, text in zip(cs, texts):
                    same('concept', c, text)
                    env.eq('repr of a concept', repr(c), text)
                env.eq('concepts in a list', str(cs), '[%s]' %
                       ', '.join(texts))
                for (e, i), c in zip(keys, cs):
                    # annotated again, or no more
                    if rng.random() < .3:
                        for k in list(c.meta):
                            x = rng.random()
                            if x < .4:
                                c.meta[k] = rng.random()
                            elif x < .6:
                                del c.meta[k]
                            elif x < .8:
                                c.meta[k + "'"] = c.meta.pop(k)
                        same('concept', c, text_of_concept(e, i, c.meta))
            else:
                if what == 'system':
                    some = [k for k in range(len(cs)) if rng.random() < .7]
                    pool = fca.ConceptSystem([cs[k] for k in some])
                    texts = [texts[k] for k in some]
                same(what, pool, '\n'.join(texts))
            env.eq('concepts after printing',
                   [(frozenset(c.extent), frozenset(c.intent)) for c in cs],
                   keys)
        elif what == 'own concept':
            # any two sets, handed over in some order
            e = [o for o in t.objs if rng.random() < .5]
            i = [a for a in t.atts if rng.random() < .5]
            text = text_of_concept(e, i)
            for _ in range(3):
                same('concept', fca.Concept(in_some_order(rng, e),
                                            in_some_order(rng, i)), text)
        elif what == 'partial':
            if kept_partial is None or b % 3 == 0:
                kept_partial = PartialWorld(env, fca,
                                            draw_partial(rng, t.as_plan()))
            for _ in range(rng.randint(1, 4)):
                same(what, kept_partial.cxt, text_of_partial(kept_partial))
                if max(len(kept_partial.objs), len(kept_partial.atts)) > 12:
                    break
                kept_partial.apply(draw_partial_step(rng, {
                    'add': 3, 'complete': 5, 'inconsistent': 1}))
            same(what, kept_partial.cxt, text_of_partial(kept_partial))
        elif what == 'many-valued':
            values = [rng.randint(0, 9), 'red', None, .5, True,
                      'red' * rng.randint(2, 30), 'dark red', '',
                      rng.randint(10, 10 ** 15), rng.random(), -1e-7]
            rows = [[rng.choice(values)
                     for _ in t.atts] for _ in t.objs]
            mv = env.call('ManyValuedContext', fca.ManyValuedContext,
                          [list(r) for r in rows], list(t.objs), list(t.atts))
            text = env.call('print ' + what, str, mv)
            # every value in its row, in the order of the columns
            lines = text.split('\n')
            env.eq('names of a printed many-valued context', lines[0],
                   ', '.join(map(str, t.atts)))
            env.eq('rows of a printed many-valued context',
                   [x.split('\t') for x in lines[1:] if x],
                   [[str(o)] + list(map(str, r))
                    for o, r in zip(t.objs, rows) if str(o) or r])
            env.eq('many-valued table after printing',
                   [list(r) for r in mv], rows)
            env.probe('printed ' + what)
            printed += edited > 0
        elif what == 'exploration':
            if kept is None or b % 3 == 0:
                kept = BasicWorld(env, fca, t.as_plan(), cxt)
            for _ in range(rng.randint(1, 4)):
                same_exploration(env, kept)
                kept.apply(draw_step(rng, steps))
            same_exploration(env, kept)
            kept.check(what)
            printed += edited > 0
        env.eq('context after printing', str(cxt), text_of_context(t))
    env.nontrivial = printed >= 3
