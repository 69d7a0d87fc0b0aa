"""C22: closure under implications."""
from .. import core
from ..model import close, mask
from ..world import draw_names, draw_style, history, pick

RUNS = {'quick': 127968, 'thorough': 1023744}
RULE = ('a run is a set of names (up to 8, sometimes 40, rarely 330) and a history of a '
        'list of implications as faulty experts deliver it: implications '
        'arrive, arrive again, are written differently (conclusion with or '
        'without the premise), withdrawn, reordered; in between sets are '
        'closed with every operator and compared with the least closed '
        'superset; arguments are compared before and after, returned sets are '
        'changed by the caller. Non-trivial: 3 closures that add something '
        'under a list with a repetition')
REAL = ['fca.algorithms.closure_operators', 'fca.Implication']
STUB = ['the experts who deliver the implications']
STATE = 'digest of the implication list'
LISTS = ['ops']

OPS = ['simple', 'lin', 'prefix']
MANY = ['down', 'up', 'any', 'premise', 'premise', 'conclusion', 'facts']


def draw_imp(rng, m):
    wide = m > 10
    k = rng.choice([0, 1, 1, 2, 2, 3])
    p = rng.sample(range(m), min(k, m))
    c = rng.sample(range(m), min(rng.choice([0, 1, 1, 2, 3]), m))
    if wide and rng.random() < .7:          # long chains
        a = rng.randrange(m)
        p, c = [a], [(a + 1) % m]
        if rng.random() < .3:
            p.append((a - 1) % m)
    return p, c


def generate(rng, tier):
    m = rng.randint(1, 8) if rng.random() < .9 else rng.randint(9, 40)
    big = rng.random() < .01
    if big:
        m = rng.choice([rng.randint(60, 70), rng.randint(257, 330)])
    names = draw_names(rng, m, draw_style(rng, sortable=False))
    ops = []
    for _ in range(history(rng, 6, 24) if not big else 8):
        x = rng.random()
        if big and x < .35:
            ops.append(['many', rng.choice(MANY), rng.getrandbits(32)])
        elif x < .35:
            ops.append(['new', *draw_imp(rng, m)])
        elif x < .45:
            ops.append(['again', rng.randrange(64), rng.randrange(64),
                        rng.randrange(3)])
        elif x < .5:
            ops.append(['withdraw', rng.randrange(64)])
        elif x < .55:
            ops.append(['shuffle', rng.getrandbits(32)])
        else:
            s = [j for j in range(m) if rng.random() <
                 rng.choice([.1, .3, .3, .6])]
            if rng.random() < .3:       # a premise without some of it
                s = {'premise': rng.randrange(64), 'of': rng.getrandbits(32),
                     'without': rng.choice([0, 1, 1, 2, 3, 8, 20])}
            elif big and rng.random() < .6:
                s = rng.sample(range(m), rng.randint(0, 2))
            elif big and rng.random() < .5:
                for j in rng.sample(range(m), 2):
                    s = sorted({*range(m)} - {j})
            ops.append([rng.choice(OPS), s, rng.randrange(64)])
    return {'names': names, 'ops': ops}


def execute(plan, env):
    fca = core.load_fca()
    co = fca.algorithms.closure_operators
    names = plan['names']
    m = len(names)
    imps, model = [], []            # the library's, and (premise, conclusion)
    gains = 0

    def named(msk):
        return {names[j] for j in range(m) if msk >> j & 1}

    def put(where, p, c):
        imps.insert(where, fca.Implication(named(p), named(c)))
        model.insert(where, (p, c))

    for op in plan['ops']:
        if op[0] == 'new':
            put(len(imps), mask(op[1]), mask(op[2]))
        elif op[0] == 'many':
            # a long chain, or a long premise or conclusion
            rng = core.rng_for('many', op[2])
            order = list(range(m))
            rng.shuffle(order)
            if op[1] in ('premise', 'conclusion'):
                size = rng.choice([rng.randint(m // 2, m), m - 1])
                long, x = order[:size], order[-1:]
                pairs = [(long, x) if op[1] == 'premise' else (x, long)]
                if rng.random() < .5:   # ... that something else fills up
                    pairs.append((order[:1], order[1:]))
            else:
                pairs = [([a], [b]) for a, b in zip(order, order[1:])]
                if op[1] == 'down':
                    pairs.reverse()
                elif op[1] == 'any':
                    rng.shuffle(pairs)
                elif op[1] == 'facts':      # that need no premise
                    pairs = [([], b) if rng.random() < .9 else (a, b)
                             for a, b in pairs[:-1]]
            for p, c in pairs:
                put(len(imps), mask(p), mask(c))
            env.probe('many: ' + op[1])
        elif op[0] == 'again':
            if imps:
                p, c = pick(model, op[1])
                if op[3] == 0:          # the very same object twice
                    at = op[2] % (len(imps) + 1)
                    imps.insert(at, pick(imps, op[1]))
                    model.insert(at, (p, c))
                else:
                    put(op[2] % (len(imps) + 1), p,
                        c | p if op[3] == 1 else c & ~p)
                env.fault('implication repeated')
        elif op[0] == 'withdraw':
            if imps:
                k = op[1] % len(imps)
                del imps[k], model[k]
                env.fault('implication withdrawn')
        elif op[0] == 'shuffle':
            order = list(range(len(imps)))
            core.rng_for(op[1]).shuffle(order)
            imps = [imps[k] for k in order]
            model = [model[k] for k in order]
            env.fault('implications reordered')
        else:
            k = op[2]
            if isinstance(op[1], dict):
                p = pick(model, op[1]['premise'])[0] if model else 0
                atts = [j for j in range(m) if p >> j & 1]
                core.rng_for(op[1]['of']).shuffle(atts)
                s = mask(atts[op[1]['without']:])
            else:
                s = mask(op[1])
            want = close(s, model)
            given, listed = named(s), list(imps)
            prefix = list(names)
            core.rng_for(k).shuffle(prefix)
            if op[0] == 'prefix':
                n = k % (m + 1)
                ok, got = env.call('closure', co.closure, given, prefix,
                                   imps, n)
                lost = (named(want) - named(s)) & set(prefix[:n])
                env.eq('verdict on the prefix', bool(ok), not lost, set=named(s),
                       prefix=prefix[:n], imps=imps)
                env.eq('closure', got, set() if lost else named(want),
                       set=named(s), imps=imps, ok=ok)
                env.probe('prefix refused' if lost else 'prefix kept')
            else:
                f = co.simple_closure if op[0] == 'simple' else co.lin_closure
                got = env.call(op[0], f, given, imps)
                env.eq('closure', got, named(want), set=named(s), imps=imps,
                       operator=op[0])
                env.check(all(i.is_respected(got) for i in imps),
                          'closure violates an implication')
                env.probe(op[0])
            env.eq('set passed in', given, named(s))
            env.eq('number of implications', len(imps), len(listed))
            env.check(all(x is y for x, y in zip(imps, listed)),
                      'list of implications changed')
            got |= {'changed by the caller'}
            got.clear()
            env.eq('set passed in', given, named(s))
            if want != s and len(set(model)) < len(model):
                gains += 1
        every = len(imps) // 60 + 1
        for i, (p, c) in list(zip(imps, model))[-1::-every]:
            env.eq('implication', (set(i.premise), set(i.conclusion)),
                   (named(p), named(c & ~p)))
            env.eq('full conclusion', set(i.get_conclusion()), named(c))
        env.state(model)
    env.nontrivial = gains >= 3
