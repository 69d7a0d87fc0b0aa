"""Histories of edits: drawing them, applying them to the library context and
to the model, valid ones and ones that must be refused."""
import numpy as np

from . import core
from .world import ALPHA, pick, settle_names

VALID = ['add_object', 'add_attribute', 'add_object_with_intent',
         'add_attribute_with_extent', 'set_object_intent',
         'set_attribute_extent', 'delete_object', 'delete_attribute',
         'delete_attributes', 'rename_object', 'rename_attribute',
         'remove_empty_objects']
REFUSED = ['add_object_long', 'add_object_short', 'add_attribute_long',
           'add_attribute_short', 'delete_unknown_object',
           'delete_unknown_attribute', 'delete_attributes_unknown',
           'rename_unknown_object', 'rename_unknown_attribute',
           'set_unknown_object', 'set_unknown_attribute',
           'set_intent_unknown_member', 'set_extent_unknown_member']
UNKNOWN = 'no such name'


def draw_name(rng, known):
    k = rng.random()
    if known and k < .2:
        return rng.choice(known)                        # a clash
    if known and k < .3:
        return '%s_%d' % (rng.choice(known), rng.randint(0, 4))
    if k < .35:
        return rng.randint(0, 99)
    return ''.join(rng.choice(ALPHA) for _ in range(rng.randint(1, 4)))


def draw_edit(rng, objs, atts, refused=.2, keep_small=True, clashes=True):
    """One edit as JSON: [kind, index, bits, name, container]."""
    if rng.random() < refused:
        kind = rng.choice(REFUSED)
    else:
        kind = rng.choice(VALID)
        if keep_small and rng.random() < .3:
            kind = rng.choice(['set_object_intent', 'set_attribute_extent',
                               'rename_object', 'rename_attribute'])
    known = list(objs) + list(atts) if clashes else []
    name = draw_name(rng, known)
    bits = rng.getrandbits(72)
    if rng.random() < .1:
        bits = rng.choice([0, (1 << 72) - 1])
    return [kind, rng.randrange(3000), bits, name, rng.randrange(4)]


def widened(bits, n, m):
    """As many bits as there are names."""
    if max(n, m) <= 72 or not bits:
        return bits
    if bits == (1 << 72) - 1:
        return (1 << max(n, m)) - 1
    return core.rng_for('bits', bits).getrandbits(max(n, m))


def container(values, k):
    return [list, tuple, lambda v: np.array(v, dtype=bool),
            lambda v: [int(x) for x in v]][k % 4](values)


def members(names, k):
    return [set, frozenset, list, tuple][k % 4](names)


def apply_edit(env, cxt, t, op, max_n=9, max_m=9):
    """Apply op to both.  Returns what happened: 'done', 'refused', 'skipped'."""
    before = list(t.objs), list(t.atts)
    out = _apply(env, cxt, t, op, max_n, max_m)
    t.gone_objs += [o for o in before[0] if o not in t.objs]
    t.gone_atts += [a for a in before[1] if a not in t.atts]
    return out


def unknown(gone, present, ix):
    """A name the table does not have: often one it used to have."""
    gone = [x for x in gone if x not in present]
    return gone[ix // 2 % len(gone)] if ix % 2 and gone else UNKNOWN


def _apply(env, cxt, t, op, max_n, max_m):
    kind, ix, bits, name, box = op
    n, m = len(t.objs), len(t.atts)
    bits = widened(bits, n, m)
    no_obj = unknown(t.gone_objs, t.objs, ix)
    no_att = unknown(t.gone_atts, t.atts, ix)
    row = [bool(bits >> j & 1) for j in range(m)]
    col = [bool(bits >> i & 1) for i in range(n)]
    intent = [a for j, a in enumerate(t.atts) if bits >> j & 1]
    extent = [o for i, o in enumerate(t.objs) if bits >> i & 1]

    def call(method, *args):
        env.call(kind, getattr(cxt, method), *args)

    def no(method, *args):
        env.refused(kind, getattr(cxt, method), *args)
        env.fault('refused edit')
        return 'refused'

    # -- edits that must be refused
    if kind == 'add_object_long':
        if n == 0 and m == 0:
            return 'skipped'
        return no('add_object', container(row + [True], box), 'new')
    if kind == 'add_object_short':
        return no('add_object', container(row[:-1], box), 'new') \
            if m else 'skipped'
    if kind == 'add_attribute_long':
        return no('add_attribute', container(col + [True], box), 'new')
    if kind == 'add_attribute_short':
        return no('add_attribute', container(col[:-1], box), 'new') \
            if n > 1 else 'skipped'
    if kind == 'delete_unknown_object':
        return no('delete_object', no_obj)
    if kind == 'delete_unknown_attribute':
        return no('delete_attribute', no_att)
    if kind == 'delete_attributes_unknown':
        names = intent + [no_att] if bits >> 60 & 1 else [no_att] + intent
        return no('delete_attributes', names)
    if kind == 'rename_unknown_object':
        return no('rename_object', no_obj, name)
    if kind == 'rename_unknown_attribute':
        return no('rename_attribute', no_att, name)
    if kind == 'set_unknown_object':
        return no('set_object_intent', members(intent, box), no_obj)
    if kind == 'set_unknown_attribute':
        return no('set_attribute_extent', members(extent, box), no_att)
    if kind == 'set_intent_unknown_member':
        return no('set_object_intent', members(intent + [no_att], box),
                  pick(t.objs, ix)) if n else 'skipped'
    if kind == 'set_extent_unknown_member':
        return no('set_attribute_extent', members(extent + [no_obj], box),
                  pick(t.atts, ix)) if m else 'skipped'

    # -- valid edits
    if kind in ('add_object', 'add_object_with_intent'):
        if n >= max_n:
            return 'skipped'
        if kind == 'add_object':
            call('add_object', container(row, box), name)
        else:
            extra = [no_att] if ix % 7 in (0, 3) else []    # not in the context
            call('add_object_with_intent', members(intent + extra, box), name)
        t.rows.append([int(x) for x in row])
        t.objs = settle_names(env, 'objects', t.objs + [name], cxt.objects)
    elif kind in ('add_attribute', 'add_attribute_with_extent'):
        if m >= max_m:
            return 'skipped'
        if kind == 'add_attribute':
            call('add_attribute', container(col, box), name)
        else:
            extra = [no_obj] if ix % 7 in (0, 3) else []
            call('add_attribute_with_extent', members(extent + extra, box),
                 name)
        for r, x in zip(t.rows, col):
            r.append(int(x))
        t.atts = settle_names(env, 'attributes', t.atts + [name],
                              cxt.attributes)
    elif kind == 'set_object_intent':
        if not n:
            return 'skipped'
        call('set_object_intent', members(intent, box), pick(t.objs, ix))
        t.rows[ix % n] = [int(x) for x in row]
    elif kind == 'set_attribute_extent':
        if not m:
            return 'skipped'
        call('set_attribute_extent', members(extent, box), pick(t.atts, ix))
        for r, x in zip(t.rows, col):
            r[ix % m] = int(x)
    elif kind == 'delete_object':
        if not n:
            return 'skipped'
        call('delete_object', pick(t.objs, ix))
        del t.objs[ix % n], t.rows[ix % n]
    elif kind == 'delete_attribute':
        if not m:
            return 'skipped'
        call('delete_attribute', pick(t.atts, ix))
        del t.atts[ix % m]
        for r in t.rows:
            del r[ix % m]
    elif kind == 'delete_attributes':
        js = [j for j in range(m) if bits >> j & 1 and bits >> (j + 20) & 1]
        if ix % 3 == 0 and js:
            js = js[::-1]
        names = [t.atts[j] for j in js]
        if ix % 5 == 0 and names:
            names.append(names[0])              # the same name twice
        call('delete_attributes', names)
        for j in sorted(set(js), reverse=True):
            del t.atts[j]
            for r in t.rows:
                del r[j]
    elif kind == 'rename_object':
        if not n:
            return 'skipped'
        call('rename_object', pick(t.objs, ix), name)
        want = list(t.objs)
        want[ix % n] = name
        t.objs = settle_names(env, 'objects', want, cxt.objects)
    elif kind == 'rename_attribute':
        if not m:
            return 'skipped'
        call('rename_attribute', pick(t.atts, ix), name)
        want = list(t.atts)
        want[ix % m] = name
        t.atts = settle_names(env, 'attributes', want, cxt.attributes)
    elif kind == 'remove_empty_objects':
        call('remove_empty_objects')
        keep = [i for i in range(n) if any(t.rows[i])]
        t.objs = [t.objs[i] for i in keep]
        t.rows = [t.rows[i] for i in keep]
    else:
        raise ValueError(kind)
    return 'done'
