"""C25: implications as text."""
from .. import core
from ..world import draw_many, history, pick, ALPHA

RUNS = {'quick': 96000, 'thorough': 768000}
RULE = ('a run is a set of plain names and a history in which a knowledge '
        'base is kept as text by one party and as implications by another: '
        'implications are written, lines are lost, repeated, reordered, '
        'padded with blanks, read back, extended and written again. After '
        'every step parsed and original implications are compared, with '
        'their texts, hashes and membership in sets. Non-trivial: 6 '
        'implications parsed, one of them with an empty side or from a '
        'repeated line')
REAL = ['fca.Implication']
STUB = ['the channel that carries the lines']
STATE = 'digest of the parsed knowledge base'
LISTS = ['ops']

ODD = ['a b', 'x=1', 'a>b', '=', '>', 'not c', 'ä', '中', '1', '10', '2',
       "it's", '"q"', 'A', 'a.b', '{}', '-', '<=', '(x)', 'None', 'é',
       'a\u00a0b', 'a  b', '∅', 'f/g', '\\', '%s', 'and', '&', '->', '> =']


def draw(rng, n):
    return [rng.getrandbits(n) & rng.getrandbits(n) if rng.random() < .85
            else 0 for _ in range(2)]


def generate(rng, tier):
    names = []
    most = draw_many(rng) if rng.random() < .02 else 8
    least = 1 if most == 8 else most
    far = rng.choice([30, 300, 3000]) if rng.random() < .01 else 4
    while len(names) < rng.randint(least, most):
        s = rng.choice(ODD) if rng.random() < .4 else \
            ''.join(rng.choice(ALPHA) for _ in range(rng.randint(1, far)))
        if s not in names:
            names.append(s)
    ops = []
    for _ in range(history(rng, 4, 14)):
        k = rng.choice(['write', 'write', 'write', 'again', 'lose', 'reorder',
                        'pad', 'read', 'read', 'rewrite'])
        ops.append([k, draw(rng, most), rng.getrandbits(16)])
    return {'names': names, 'ops': ops + [['read', [0, 0], 0]]}


def execute(plan, env):
    fca = core.load_fca()
    I = fca.Implication
    names = plan['names']
    lines, model = [], []           # texts, and (premise, conclusion) meant
    parsed, odd = 0, False

    def named(msk):
        return {n for j, n in enumerate(names) if msk >> j & 1}

    class Own(I):
        pass

    def show(i):
        return set(i.premise), set(i.conclusion)

    for kind, (p, c), k in plan['ops']:
        if kind == 'write':
            p, c = named(p), named(c)
            imp = I(set(p), set(c))
            # the same implication, written differently
            same = I(frozenset(reversed(sorted(p))), sorted(c | (p if k & 1
                                                                 else set())))
            env.eq('implication', show(imp), (p, c - p))
            env.check(imp == same and not imp != same,
                      'equal implications differ', a=show(imp), b=show(same))
            env.eq('text of equal implications', str(same), str(imp))
            env.eq('hash of equal implications', hash(same), hash(imp))
            env.eq('repr', repr(imp), str(imp))
            env.check(imp in {same} and len({imp, same}) == 1,
                      'not found in a set')
            lines.append(env.call('str', str, imp))
            model.append((p, c - p))
            if model.count(model[-1]) == 1:
                for text, other in list(zip(lines, model))[:-1]:
                    env.check(other == model[-1] or I(*other) != imp,
                              'different implications equal',
                              a=other, b=show(imp))
                    env.check(other == model[-1] or text.strip() !=
                              str(imp).strip(), 'different implications '
                              'have equal text', a=other, b=show(imp))
        elif not lines:
            continue
        elif kind == 'again':
            lines.insert(k % (len(lines) + 1), pick(lines, k >> 4))
            model.insert(k % len(lines), model[(k >> 4) % (len(lines) - 1)])
            env.fault('line repeated')
            odd = True
        elif kind == 'lose':
            del lines[k % len(lines)], model[k % len(model)]
            env.fault('line lost')
        elif kind == 'reorder':
            order = list(range(len(lines)))
            core.rng_for(k).shuffle(order)
            lines = [lines[x] for x in order]
            model = [model[x] for x in order]
            env.fault('lines reordered')
        elif kind == 'pad':
            j = k % len(lines)
            lines[j] = [' ' + lines[j], lines[j] + ' \n', '\t' + lines[j] +
                        '\r\n'][(k >> 4) % 3]
            env.fault('line padded')
        else:
            imps = [env.call('str2imp', I.str2imp, x) for x in lines]
            for imp, (p, c), text in zip(imps, model, lines):
                env.eq('parsed implication', show(imp), (p, c), text=text)
                env.check(imp == I(p, c), 'parsed implication differs',
                          text=text, got=show(imp))
                env.eq('hash after parsing', hash(imp), hash(I(p, c)))
                odd = odd or not p or not c
                parsed += 1
            env.eq('different implications', len(set(imps)),
                   len({(frozenset(p), frozenset(c)) for p, c in model}))
            if k % 3 == 0:
                # what one reader does to his implications is his affair
                for imp in imps:
                    imp.get_premise().add('more')
                    imp.get_conclusion().clear()
                for x, (p, c) in zip(lines, model):
                    imp = env.call('str2imp', I.str2imp, x)
                    env.eq('implication parsed again', show(imp), (p, c),
                           text=x)
                env.probe('parsed again')
            elif kind == 'rewrite':
                for j, (imp, (p, c)) in enumerate(zip(imps, model)):
                    more = named(k >> 3 & 255) if j == k % len(imps) else set()
                    new = I(imp.premise, imp.get_conclusion() | more)
                    lines[j], model[j] = str(new), (p, (c | more) - p)
            kind_ = Own if k & 8 else fca.implication.NegativeImplication
            for x, (p, c) in zip(lines, model):
                imp = env.call('str2imp', kind_.str2imp, x)
                env.check(type(imp) is kind_ and show(imp) == (p, c),
                          'parsed as another kind or meaning', text=x,
                          kind=type(imp).__name__, got=show(imp))
            env.probe('parsed')
        env.state([(sorted(p), sorted(c)) for p, c in model])
    env.nontrivial = parsed >= 6 and odd
