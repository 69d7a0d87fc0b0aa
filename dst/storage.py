"""What can be saved and loaded: data drawn by the plan, saved through the
library, and what must come back."""
import ast
import builtins
import csv
import io

from .world import ALPHA, Table, bools, draw_rows

SAVED = ['cxt', 'ucxt', 'mv', 'umv', 'xml']
DOCS = ['txt', 'txt_names', 'csv', 'mv_csv', 'mv_doc']
MANY = ['mv', 'umv', 'mv_csv', 'mv_doc']
# formats that are utf-8 on every machine; the others use the machine's own
# encoding
FIXED = {'ucxt', 'umv', 'xml', 'udot', 'udotfull'}
LOCALES = ['ascii', 'latin-1', 'cp1252', 'cp1251', 'gb18030', 'utf-16']
EXPORTS = ['dot', 'udot', 'udotfull', 'fimi']

# a name that leaves a trace if it is ever executed
CANARY = "__import__('builtins').__dict__.update(verif_canary=1)"

# names that are code, or nearly literals
CODE = ['len', '1+1', "'a'*3", '__name__', '2**3', 'print', 'None or 1',
        '(1', '[1, 2]', '{}', "{'a': 1}", 'open', 'x=1', '1 2', '0x', "'", '"',
        '...x', '-', '- x', '1_', 'fca', 'path', 'input_file', 'string',
        '__import__("os").getpid()', CANARY, CANARY, '[].append(1)', 'lambda: 0', 'B',
        'X..X', '.', 'X', '(lambda: 1)()', 'i', 'objects', 'self', 'nan',
        'inf', 'dict()', 'int', 'str', '0 or 1', 'not 1', '1<2', '"a"+"b"',
        'a"b', "it's", 'a & b', '<b>', 'x]]>y', '&amp;', 'ä', '中文', '𝔸b',
        'a  b', 'é', 'é', 'a,b', 'a;b', '#c', '%s', '%d', '{0}', '\\n',
        'a\\', 'a/b', '[1, [2]]', '{1, 2}', 'f(x)', 'yield', 'del x']

# names other than strings and plain numbers that print as what they are
LITERALS = [None, 1e22, .1, -3, 10 ** 20, 2.5e-7, 7, -1.5, 1e300]


def evaluates(s):
    """Is s a plain literal that can be a name?"""
    try:
        hash(ast.literal_eval(s))
    except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
        return False
    return True


def ok_name(kind, s):
    if s != s.strip() or any(c in s for c in '\n\r'):
        return False
    if kind == 'cxt':
        return not evaluates(s)
    if kind == 'ucxt':
        return True
    if kind in ('mv', 'umv'):
        return s != '' and not any(c in s for c in '\t"')
    if kind == 'xml':
        return s != '' and all(c >= ' ' for c in s)
    if kind in ('dot', 'udot', 'udotfull'):
        return s != '' and not any(c in s for c in '"\\') and s != '...'
    if kind == 'fimi':
        return s != '' and not any(c.isspace() for c in s)
    if kind in DOCS:
        return s != '' and not any(c in s for c in '\t",')
    raise ValueError(kind)


def draw_name(rng, kind):
    while True:
        r = rng.random()
        if r < .35:
            s = rng.choice(CODE)
        elif r < .75:
            s = ''.join(rng.choice(ALPHA) for _ in range(rng.randint(1, 6)))
        elif r < .85:
            s = ''.join(rng.choice('äßλж中é€ñ𝔸ab 1.X') for _ in
                        range(rng.randint(1, 9))).strip()
        elif r < .9:
            s = ' '.join(rng.choice(['object', 'B', 'a', '1', 'X', '3.', 'is'])
                         for _ in range(rng.randint(2, 4)))
        elif r < .93:
            s = rng.choice(ALPHA) * rng.choice([60, 300])
        elif r < .97 and kind == 'ucxt':
            s = rng.choice(['1', '2.5', 'None', "'q'", '(1, 2)', '', '007'])
        else:
            s = rng.choice(ALPHA) + str(rng.randint(0, 99))
        if ok_name(kind, s):
            return s


def draw_distinct(rng, kind, n):
    out = []
    if kind in ('cxt', 'dot', 'udot', 'udotfull', 'fimi') and \
            rng.random() < .15:
        base = rng.choice([1, 1, 1, -n, 2 ** 31 - n, 2 ** 53 - n, 10 ** 20])
        return rng.sample(range(base, base + 9 * n + 9), n)
    if kind == 'cxt' and rng.random() < .06:
        literals = LITERALS + [draw_name(rng, kind) for _ in range(3)]
        if n <= len(set(map(str, literals))):
            out = []
            while len(out) < n:
                x = rng.choice(literals)
                if x not in out:
                    out.append(x)
            return out
    if kind == 'cxt' and rng.random() < .1:
        return [float(x) + .5 for x in rng.sample(range(-99, 99), n)]
    while len(out) < n:
        s = draw_name(rng, kind)
        if s not in out:
            out.append(s)
    return out


def draw_many_distinct(rng, kind, n):
    """Cheap distinct names for large data."""
    if rng.random() < .5:
        while True:
            tail = draw_name(rng, kind)
            names = ['%s%d%s' % (rng.choice(ALPHA), x, tail)
                     for x in rng.sample(range(9 * n), n)]
            if all(ok_name(kind, s) for s in names) and len(set(names)) == n:
                return names
    return ['%s%d' % (rng.choice(ALPHA), x)
            for x in rng.sample(range(9 * n), n)]


def draw_huge(rng, kind):
    """Data beyond every usual buffer: many objects, many attributes, both,
    or very long names."""
    few, many = rng.randint(1, 4), rng.randint(90, 300 if 'dot' in kind or
                                           rng.random() < .5 else 1400)
    shape = rng.choice(['tall', 'wide', 'square', 'names'])
    if shape == 'names':
        n, m = rng.randint(0, 3), rng.randint(0, 3)
        if kind in DOCS:
            m = max(m, 1)
        objs, atts = draw_distinct(rng, kind, n), draw_distinct(rng, kind, m)
        for names in (objs, atts):
            for x in range(len(names)):
                if rng.random() < .7:
                    names[x] = rng.choice('ab中é') * rng.choice(
                        [255, 256, 4096, 8200, 20000, 66000]) + str(x)
    else:
        if shape == 'square' and kind in ('xml', 'dot', 'udot', 'udotfull'):
            shape = 'tall'
        n, m = (many, few) if shape == 'tall' else \
            (few, many) if shape == 'wide' else \
            (rng.randint(80, 160), rng.randint(80, 160))
        objs = draw_many_distinct(rng, kind, n)
        atts = draw_many_distinct(rng, kind, m)
    d = {'kind': kind, 'objs': objs, 'atts': atts, 'huge': True}
    n, m = len(objs), len(atts)
    if kind in MANY:
        d['rows'] = [[str(rng.randint(-9, 99)) for _ in range(m)]
                     for _ in range(n)]
    else:
        d['rows'] = draw_rows(rng, n, m)
    if kind == 'xml':
        d['concepts'] = draw_concepts(rng, d)
    if kind in DOCS:
        d['style'] = rng.getrandbits(12)
    return d


def draw_data(rng, kind, big=False):
    if rng.random() < .012:
        return draw_huge(rng, kind)
    top = (7 if kind in ('xml', 'dot', 'udot', 'udotfull') else 14) if big else 5
    n, m = rng.randint(0, top), rng.randint(0, top)
    if kind in DOCS:
        m = max(m, 1)
    d = {'kind': kind, 'objs': draw_distinct(rng, kind, n),
         'atts': draw_distinct(rng, kind, m)}
    if kind in MANY:
        d['rows'] = [[draw_value(rng, kind) for _ in range(m)]
                     for _ in range(n)]
    else:
        d['rows'] = draw_rows(rng, n, m)
    if kind == 'xml':
        d['concepts'] = draw_concepts(rng, d)
    if kind in DOCS:
        d['style'] = rng.getrandbits(12)
    return d


def draw_value(rng, kind):
    while True:
        s = rng.choice([str(rng.randint(-9, 99)), str(rng.random()),
                        draw_name(rng, kind), ' ' + draw_name(rng, kind),
                        draw_name(rng, kind) + ' '])
        if not any(c in s for c in '\t\n\r"') and s != '' and \
                (kind != 'mv_csv' or ',' not in s):
            return s


def draw_concepts(rng, d):
    t = Table(d['objs'], d['atts'], d['rows'])
    out = []
    for e, i in sorted(t.concepts(), key=lambda x: (sorted(x[0]),
                                                    sorted(x[1]))):
        if rng.random() < .1:
            continue
        meta = {}
        for _ in range(rng.choice([0, 0, 1, 2])):
            key = ' '.join(''.join(rng.choice(ALPHA) for _ in
                                   range(rng.randint(1, 5)))
                           for _ in range(rng.randint(1, 3)))
            meta[key] = rng.choice([0, 1, rng.random(), -rng.random(),
                                    rng.random() * 1e-300, 1e22, .1 + .2,
                                    rng.random() * 10 ** rng.randint(-20, 20)])
        out.append([sorted(e), sorted(i), meta])
    rng.shuffle(out)
    return out


# ------------------------------------------------------------ making, saving

def make(fca, d):
    k = d['kind']
    if k in ('cxt', 'ucxt', 'fimi'):
        return fca.Context(bools(d['rows']), list(d['objs']), list(d['atts']))
    if k in ('mv', 'umv'):
        return fca.ManyValuedContext([list(r) for r in d['rows']],
                                     list(d['objs']), list(d['atts']))
    if k == 'xml':
        out = []
        for e, i, meta in d['concepts']:
            c = fca.Concept(set(e), set(i))
            c.meta.update(meta)
            out.append(c)
        return fca.ConceptSystem(out)
    if k in ('dot', 'udot', 'udotfull'):
        return fca.ConceptLattice(fca.Context(bools(d['rows']),
                                              list(d['objs']),
                                              list(d['atts'])))
    raise ValueError(k)


def save(fca, d, obj, path):
    rw = fca.readwrite
    k = d['kind']
    if k == 'cxt':
        return rw.write_cxt(obj, path)
    if k == 'ucxt':
        return rw.uwrite_cxt(obj, path)
    if k == 'mv':
        return rw.write_mv_txt(obj, path)
    if k == 'umv':
        return rw.uwrite_mv_txt(obj, path)
    if k == 'xml':
        return rw.write_xml(path, obj)
    if k == 'fimi':
        return rw.write_fimi(obj, path)
    if k == 'dot':
        return rw.write_dot(obj, path)
    if k == 'udot':
        return rw.uwrite_dot(obj, path)
    if k == 'udotfull':
        return rw.uwrite_dot(obj, path, full=True)
    raise ValueError(k)


def load(fca, d, path, how=0):
    rw = fca.readwrite
    k = d['kind']
    if k == 'cxt':
        return shown(k, rw.read_cxt(path))
    if k == 'ucxt':
        return shown(k, rw.uread_cxt(path))
    if k == 'mv':
        return shown(k, rw.read_mv_txt(path))
    if k == 'umv':
        return shown(k, rw.uread_mv_txt(path))
    if k == 'xml':
        return shown(k, [lambda: rw.read_xml(path),
                         lambda: rw.read_xml(path, encoding='UTF-8'),
                         lambda: rw.uread_xml(path)][how % 3]())
    if k == 'txt':
        return shown(k, rw.read_txt(path))
    if k == 'txt_names':
        return shown(k, rw.read_txt_with_names(path))
    if k == 'csv':
        return shown(k, rw.read_csv(path))
    if k == 'mv_csv':
        return shown(k, rw.read_mv_csv(path))
    if k == 'mv_doc':
        return shown(k, [rw.read_mv_txt, rw.uread_mv_txt][how % 2](path))
    raise ValueError(k)


def shown(kind, x):
    """What a loaded object shows, comparable with expected()."""
    if kind == 'xml':
        return [(frozenset(c.extent), frozenset(c.intent), dict(c.meta))
                for c in x]
    if kind in MANY:
        return (typed(x.objects), typed(x.attributes),
                [list(x[i]) for i in range(len(x.objects))])
    return (typed(x.objects), typed(x.attributes),
            [[bool(v) for v in x[i]] for i in range(len(x.objects))])


def encodable(d, encoding):
    """Can all names and values be written in this encoding?"""
    def every(x):
        if isinstance(x, dict):
            x = [v for k, v in x.items() if k != 'kind']
        if isinstance(x, (list, tuple)):
            return all(every(y) for y in x)
        try:
            str(x).encode(encoding)
        except UnicodeError:
            return False
        return True
    return every(d)


def executed():
    """Has a name been executed since the last call?"""
    return builtins.__dict__.pop('verif_canary', None) is not None


def typed(names):
    return [(type(n).__name__, n) for n in names]


def expected(d):
    k = d['kind']
    if k == 'xml':
        return [(frozenset(e), frozenset(i), dict(m))
                for e, i, m in d['concepts']]
    objs = d['objs']
    if k == 'txt':
        objs = ['g%d' % (i + 1) for i in range(len(objs))]
    rows = [list(r) for r in d['rows']] if k in MANY else \
        bools(d['rows'])
    return typed(objs), typed(d['atts']), rows


# ----------------------------------------------------------------- documents

def header(names, style, trailing):
    """A line of names between tabs, padded as editors and people do."""
    if trailing:
        return '\t'.join(names) + '\t'
    if style & 32:
        return ' \t'.join(names) + (' ' if names else '')
    if style & 16:
        return '\t'.join('"%s"' % x for x in names)
    return '\t'.join(names)


def document(d):
    """The text of a document in the load-only formats."""
    k, style = d['kind'], d['style']
    nl = '\r\n' if style & 3 == 0 else '\n'
    out = io.StringIO()
    if k in ('txt', 'txt_names'):
        trailing = style & 12 == 0 and d['rows']
        out.write(header(d['atts'], style, trailing) + nl + nl)
        for o, r in zip(d['objs'], d['rows']):
            cells = ([o] if k == 'txt_names' else []) + [str(x) for x in r]
            out.write('\t'.join(cells) + nl)
    elif k == 'mv_doc':
        trailing = style & 12 == 0 and d['rows']
        out.write(header(d['objs'], 0 if trailing else style,
                         trailing and style & 64) + nl)
        out.write(header(d['atts'], style, trailing) + nl + nl)
        for r in d['rows']:
            out.write('\t'.join(r) + nl)
    else:
        def cell(x):
            x = str(x)
            if style & 16:          # quoted as spreadsheets do
                b = io.StringIO()
                csv.writer(b, quoting=csv.QUOTE_ALL).writerow([x])
                return b.getvalue()[:-2]
            return x
        pad = ' ' if style & 32 and not style & 16 else ''
        out.write((',' + pad).join(map(cell, d['atts'])) + nl)
        for o, r in zip(d['objs'], d['rows']):
            if k == 'csv':
                yes = ['1', 'X', 'yes', '2', ' 1 ', 'x'][style >> 6 & 3]
                no = ['0', '', ' 0', ' '][style >> 8 & 3]
                r = [yes if v else no for v in r]
            out.write(','.join([cell(o)] + [cell(v) for v in r]) + nl)
    text = out.getvalue()
    if style & 1024 and text.endswith(nl) and not text.endswith(nl + nl):
        text = text[:-len(nl)]
    return text


# ----------------------------------------------------------- parsing exports

def read_text(path):
    with open(path, 'rb') as f:
        return f.read().decode('utf-8')


def parse_fimi(text):
    """One list of items per line."""
    assert text == '' or text.endswith('\n'), 'unfinished last line'
    return [line.split() for line in text.split('\n')[:-1]]


def parse_dot(text):
    """(number of nodes declared, [(from, to)], {node: head label},
    {node: tail label}); raises ValueError on anything malformed."""
    import re
    body = text.strip()
    if not (body.startswith('digraph') and body.endswith('}')):
        raise ValueError('not a complete digraph')
    body = body[body.index('{') + 1:-1]
    # strings first, so that nothing inside a label is taken for syntax
    strings = []

    def keep(m):
        strings.append(m.group(1))
        return '@%d@' % (len(strings) - 1)
    body = re.sub(r'"([^"]*)"', keep, body)
    nodes, edges, heads, tails = [], [], {}, {}
    for m in re.finditer(
            r'c(\d+)\s*(?:->\s*c(\d+)\s*)?(\[[^\]]*\])?\s*;?\s*(?=c\d|$)',
            body[body.index('c0 ' if 'c0 ' in body else 'c0'):]
            if 'c0' in body else ''):
        a, b, attrs = m.group(1), m.group(2), m.group(3) or ''
        if b is None:
            nodes.append(int(a))
            continue
        lab = dict((k, strings[int(v)]) for k, v in
                   re.findall(r'(headlabel|taillabel)=@(\d+)@', attrs))
        if lab:
            if a != b:
                raise ValueError('label on an edge')
            for k, v in lab.items():
                into = heads if k == 'headlabel' else tails
                if int(a) in into:
                    raise ValueError('two labels at one node')
                into[int(a)] = v.split('\\n ')
        else:
            edges.append((int(a), int(b)))
    return nodes, edges, heads, tails


def own_labels(t, concepts):
    """Per concept: objects and attributes whose own concept it is."""
    objs, atts = [[] for _ in concepts], [[] for _ in concepts]
    rel = t.rel
    where = {(frozenset(e), frozenset(i)): k
             for k, (e, i) in enumerate(concepts)}
    for x, o in enumerate(t.objs):
        i = rel.rows[x]
        objs[where[frozenset(t.oset(rel.extent(i))),
                   frozenset(t.aset(i))]].append(str(o))
    for y, a in enumerate(t.atts):
        e = rel.extent(1 << y)
        atts[where[frozenset(t.oset(e)),
                   frozenset(t.aset(rel.intent(e)))]].append(str(a))
    return objs, atts


def judge_export(env, d, concepts, path, label):
    """Is the file a complete and right export of d?  concepts: the lattice's
    own order, [(extent, intent)] (None for transactions)."""
    t = Table(d['objs'], d['atts'], d['rows'])
    try:
        text = read_text(path)
    except UnicodeDecodeError as e:
        env.fail('export not utf-8 ' + label, error=e)
    kind = d['kind']
    if kind == 'fimi':
        try:
            lines = parse_fimi(text)
        except AssertionError as e:
            env.fail('malformed transactions ' + label, error=e, text=text)
        env.eq('number of transactions ' + label, len(lines), len(t.objs),
               text=text)
        for line, o in zip(lines, t.objs):
            env.eq('transaction ' + label, sorted(line),
                   sorted(map(str, t.intent_of(o))), object=o)
        return
    try:
        nodes, edges, heads, tails = parse_dot(text)
    except ValueError as e:
        env.fail('malformed diagram ' + label, error=e, text=text)
    n = len(concepts)
    env.eq('nodes of the diagram ' + label, sorted(nodes), list(range(n)))
    intents = [frozenset(i) for _, i in concepts]
    want = set()
    for x in range(n):
        above = [y for y in range(n) if intents[y] < intents[x]]
        for y in above:
            if not any(intents[y] < intents[z] for z in above):
                want.add((y, x))
    env.eq('edges of the diagram ' + label, sorted(edges), sorted(want),
           concepts=concepts)
    own = own_labels(t, concepts)
    for got, own_, what in ((heads, own[0], 'object'),
                            (tails, own[1], 'attribute')):
        for x in range(n):
            names = own_[x]
            lab = got.get(x, [])
            right = sorted(lab) == sorted(names)
            if kind == 'dot':
                ok = right if len(names) < 5 else lab == [str(len(names))]
            elif kind == 'udot':
                ok = lab == ([str(len(names))] if names else [])
            elif len(names) > 6:
                ok = lab[-1:] == ['...'] and len(lab) == 7 and \
                    len(set(lab[:-1])) == 6 and set(lab[:-1]) <= set(names)
            else:
                ok = right
            env.check(ok, 'wrong %s label %s' % (what, label), got=lab,
                      own=names, concept=concepts[x], diagram=kind)


def same_after(d, obj):
    """What must not change in the thing saved."""
    if d['kind'] in ('dot', 'udot', 'udotfull'):
        return [(frozenset(c.extent), frozenset(c.intent), dict(c.meta))
                for c in obj]
    return shown('cxt' if d['kind'] == 'fimi' else d['kind'], obj)


def judge_saved(env, fca, d, obj, path, label):
    """The file holds the complete data."""
    if d['kind'] in EXPORTS:
        concepts = None if d['kind'] == 'fimi' else \
            [(set(c.extent), set(c.intent)) for c in obj]
        judge_export(env, d, concepts, path, label)
    else:
        got = env.call('load ' + label, load, fca, d, path)
        env.eq('data in the file ' + label, got, expected(d))
