"""Sweep generic kinds of defect over the functions of the library
(development only).

    sweep.py OUT [KIND...]

Every kind is a piece of code appended to a module of a scratch copy that wraps
one function there: a cache that one particular edit does not clear, arguments
or results passed through a field of the object or of the module, an exception
swallowed, a change that is not undone when the query fails, an argument
changed in place.  The checks named with the kind have to report it.
"""
import os
import random
import shutil
import subprocess
import sys
import tempfile

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CXT = 'fca/context.py'

QUERIES = {     # of a context: the checks that ask them after edits
    'get_concepts': 'C03', 'get_attribute_canonical_basis': 'C04',
    'get_attribute_implications': 'C04', 'get_object_implications': 'C04',
    'get_object_intent_by_index': 'C02', 'get_object_intent': 'C02',
    'get_attribute_extent_by_index': 'C02', 'get_attribute_extent': 'C02',
    'get_value': 'C01', 'oprime_inds': 'C02', 'aprime_inds': 'C02',
    'oclosure_inds': 'C02', 'aclosure_inds': 'C02', 'oprime': 'C02',
    'aprime': 'C02', 'oclosure': 'C02', 'aclosure': 'C02',
    'associative_aclosure': 'C02', 'associative_aprime': 'C02',
    'associative_oprime_inds': 'C02', 'associative_aprime_inds': 'C02',
    'transpose': 'C21', 'extract_subcontext': 'C21',
    'extract_subcontext_filtered_by_attributes': 'C21',
    'get_object_attribute_pairs': 'C01', 'clarify_objects': 'C21',
    'reduce_objects': 'C21', 'reduce_attributes': 'C21',
    'complementary': 'C21', 'compound': 'C21', '__repr__': 'C27',
    '__len__': 'C01'}
PROPS = {'get_concepts': 'concepts',
         'get_object_attribute_pairs': 'object_attribute_pairs',
         'get_attribute_implications': 'attribute_implications',
         'get_object_implications': 'object_implications'}
EDITS = ['add_attribute', 'add_object', 'set_attribute_extent',
         'set_object_intent', 'delete_object', 'delete_attribute',
         'delete_attributes', 'rename_object', 'rename_attribute']
MODULE = [       # functions of modules: checks for global state, failures
    ('fca/algorithms/norris.py', 'norris'),
    ('fca/algorithms/norris.py', 'compute_covering_relation'),
    ('fca/algorithms/dg_basis.py', 'compute_dg_basis'),
    ('fca/algorithms/dg_basis.py', 'generalized_compute_dg_basis'),
    ('fca/algorithms/aibasis.py', 'kclosure'),
    ('fca/algorithms/aibasis.py', 'update_preclosed'),
    ('fca/algorithms/closure_operators.py', 'simple_closure'),
    ('fca/algorithms/closure_operators.py', 'lin_closure'),
    ('fca/algorithms/closure_operators.py', 'oprime'),
    ('fca/algorithms/closure_operators.py', 'aprime'),
    ('fca/algorithms/factors.py', '_oplus'),
    ('fca/algorithms/filtering/stability.py', 'compute_istability'),
    ('fca/algorithms/implication_covers.py', 'updated_basis'),
    ('fca/readwrite/cxt.py', '_write_cxt'),
    ('fca/readwrite/cxt.py', 'read_name'),
    ('fca/readwrite/cxt.py', 'parse_name'),
    ('fca/readwrite/dot.py', 'find_own_objects'),
    ('fca/readwrite/dot.py', 'find_own_attributes'),
]
# the answer of every thread is the same; the answer does not depend on that
NO_ARGUMENTS = ['get_concepts', 'get_attribute_canonical_basis',
                'get_attribute_implications', 'get_object_implications',
                'transpose', 'get_object_attribute_pairs', 'clarify_objects',
                'reduce_objects', 'reduce_attributes', 'complementary',
                'compound']
HARMLESS = [('get_attribute_canonical_basis', 'rename_object'),
            ('get_attribute_implications', 'rename_object'),
            ('get_object_implications', 'rename_attribute'),
            ('get_object_intent_by_index', 'add_object'),
            ('get_object_intent_by_index', 'rename_object'),
            ('get_attribute_extent_by_index', 'add_attribute'),
            ('get_attribute_extent_by_index', 'rename_attribute'),
            ('get_object_intent', 'add_object'),
            ('get_attribute_extent', 'add_attribute')] + [
            (q, e) for q in ('oprime_inds', 'aprime_inds', 'oclosure_inds',
                             'aclosure_inds', 'associative_oprime_inds',
                             'associative_aprime_inds')
            for e in ('rename_object', 'rename_attribute')]


CACHE = '''

def _sweep():
    orig = Context.{q}
    init = Context.__init__
    edit = Context.{e}

    def new_init(self, *args, **kwargs):
        init(self, *args, **kwargs)
        self.__dict__.pop('_sweep_{q}', None)

    def query(self, *args, **kwargs):
        known = self.__dict__.setdefault('_sweep_{q}', {{}})
        key = repr((args, sorted(kwargs))).replace('0x', '')
        if key not in known:
            known[key] = orig(self, *args, **kwargs)
        return copy.copy(known[key])

    def new_edit(self, *args):
        known = self.__dict__.get('_sweep_{q}')
        edit(self, *args)
        if known is not None:
            self.__dict__['_sweep_{q}'] = known
    Context.__init__ = new_init
    Context.{q} = query
    Context.{e} = new_edit
    {prop}
_sweep()
'''
FIELD_IN = '''

def _sweep():
    orig = Context.{q}

    def query(self, *args, **kwargs):
        self._sweep_in = args
        result = orig(self, *self._sweep_in, **kwargs)
        return result
    Context.{q} = query
    {prop}
_sweep()
'''
FIELD_OUT = '''

def _sweep():
    orig = Context.{q}

    def query(self, *args, **kwargs):
        self._sweep_out = orig(self, *args, **kwargs)
        return self._sweep_out
    Context.{q} = query
    {prop}
_sweep()
'''
GLOBAL_IN = '''

_sweep_args = None

def _sweep(orig):
    def call(*args, **kwargs):
        global _sweep_args
        _sweep_args = args
        return orig(*_sweep_args, **kwargs)
    return call
{f} = _sweep({f})
'''
GLOBAL_OUT = '''

_sweep_result = None

def _sweep(orig):
    def call(*args, **kwargs):
        global _sweep_result
        _sweep_result = orig(*args, **kwargs)
        return _sweep_result
    return call
{f} = _sweep({f})
'''
SWALLOW = '''

def _sweep(orig):
    kept = []

    def call(*args, **kwargs):
        try:
            result = orig(*args, **kwargs)
        except {exc}:
            if not kept:
                raise
            return kept[-1]
        kept[:] = [result]
        return result
    return call
{f} = _sweep({f})
'''
NOT_UNDONE = '''

def _sweep():
    orig = Context.{q}

    def query(self, *args, **kwargs):
        kept = self.{field}
        self.{field} = kept.copy()
        result = orig(self, *args, **kwargs)
        self.{field} = kept
        return result
    Context.{q} = query
    {prop}
_sweep()
'''
CLASS = '''

def _sweep():
    orig = {c}.__dict__['{q}']
    edits = {edits!r}

    def query(self, *args, **kwargs):
        known = self.__dict__.setdefault('_sweep_{q}', {{}})
        key = repr((args, sorted(kwargs)))
        if key not in known:
            result = orig(self, *args, **kwargs)
            known[key] = list(result) if hasattr(result, '__next__') else result
        result = known[key]
        return result[:] if isinstance(result, list) else result

    def clearing(edit, name):
        def new_edit(self, *args, **kwargs):
            result = edit(self, *args, **kwargs)
            if name != '{e}':
                self.__dict__.pop('_sweep_{q}', None)
            return result
        return new_edit
    for name in edits:
        setattr({c}, name, clearing(getattr({c}, name), name))
    {c}.{q} = query
    if '{q}'.startswith('get_') and isinstance(
            {c}.__dict__.get('{q}'[4:]), property):
        setattr({c}, '{q}'[4:], property(query))
_sweep()
'''
CLASSES = [
    ('fca/mvcontext.py', 'ManyValuedContext',
     ['extract_subcontext', 'extract_subcontext_by_attribute_values',
      '__repr__'], ['__init__'], 'C23'),
    ('fca/concept_system.py', 'ConceptSystem',
     ['parents', 'children', 'filter', 'ideal', 'get_top_concept',
      'get_bottom_concept', 'index', '__contains__', '__str__', '__len__'],
     ['append', 'remove'], 'C03'),
    ('fca/algorithms/exploration2/exploration.py', 'ExplorationSession',
     ['get_candidates', 'get_accepted_implications'],
     ['accept_implication', 'reject_implication'], 'C12'),
    ('fca/algorithms/exploration2/exploration.py', 'ExplorationContext',
     ['get_intent', 'get_extent', 'get_objects', 'get_attributes'],
     ['add_object'], 'C12'),
    ('fca/algorithms/exploration2/exploration.py', 'Exploration',
     ['create_session'], ['set_context'], 'C12'),
    ('fca/partial_context.py', 'PartialContext',
     ['transpose', '__repr__', 'xq_aclosure', 'get_attribute_implications',
      'intents'], ['add_object_with_intent', 'complete'], 'C13'),
    ('fca/algorithms/patterns.py', 'BasicPatternExploration',
     ['iterate_patterns_with_examples', 'is_explained', 'iterate_examples',
      'get_unconfirmed_patterns_with_examples',
      'iterate_unexplained_examples'],
     ['confirm_pattern', 'add_negative_example', 'add_positive_example'],
     'C14'),
    ('fca/algorithms/exploration_/exploration.py', 'ExplorationDB',
     ['get_open_implications', 'get_base', 'get_object_names',
      'get_attribute_names', '_is_used'],
     ['confirm_implication', 'unconfirm_implication', 'add_example',
      'delete_example', 'edit_example', 'add_attribute', 'delete_attribute',
      'edit_attribute'], 'C08'),
    ('fca/algorithms/exploration.py', 'BasicExploration',
     ['check_intent_for_conflicts', 'check_extent_for_conflicts', '__repr__'],
     ['confirm_attribute_implication', 'confirm_object_implication',
      'counter_example_for_attr_implication', 'add_object', 'add_attribute',
      'counter_example_for_obj_implication', 'edit_attribute', 'edit_object'],
     'C11'),
    ('fca/implication.py', 'Implication',
     ['is_respected', '__repr__', '__hash__', 'get_reduced_conclusion'],
     ['__init__'], 'C28'),
    ('fca/concept.py', 'Concept', ['pairs', '__str__'], ['__init__'], 'C27'),
]
TRANSPOSED = '''

def _sweep():
    orig = Context.{q}

    def query(self, *args, **kwargs):
        rows, self.np_table = self.np_table, ~self.np_table
        self.np_table = ~self.np_table
        result = orig(self, *args, **kwargs)
        self.np_table = rows
        return result
    if Context._dtype is bool:
        Context.{q} = query
    {prop}
_sweep()
'''


def prop(q):
    return 'Context.%s = property(Context.%s)' % (PROPS[q], q) \
        if q in PROPS else 'pass'


def kinds():
    for q, check in QUERIES.items():
        for e in EDITS:
            if (q, e) in HARMLESS:
                continue
            yield ('cache', q + ' not cleared by ' + e, CXT,
                   CACHE.format(q=q, e=e, prop=prop(q)), check)
        if q in ('get_value', '__len__', '__repr__'):
            continue
        for kind, text in (('field-in', FIELD_IN), ('field-out', FIELD_OUT)):
            if q in NO_ARGUMENTS:
                continue
            yield (kind, q, CXT, text.format(q=q, prop=prop(q)), 'C05')
        yield ('complemented', q, CXT,
               TRANSPOSED.format(q=q, prop=prop(q)), 'C06')
    for path, c, queries, edits, check in CLASSES:
        for q in queries:
            for e in edits:
                text = CLASS.format(c=c, q=q, e=e, edits=edits)
                yield ('cache', '%s.%s not cleared by %s' % (c, q, e), path,
                       text, 'C27' if q in ('__repr__', '__str__') else check)
    for path, f in MODULE:
        for kind, text in (('global-in', GLOBAL_IN),
                           ('global-out', GLOBAL_OUT)):
            yield (kind, f, path, text.format(f=f), 'C07')
        for exc in ('Exception', 'MemoryError', 'KeyboardInterrupt'):
            if 'readwrite' not in path:
                yield ('swallow ' + exc, f, path,
                       SWALLOW.format(f=f, exc=exc), 'C06')
    for f in ('_write_cxt', '_uwrite_cxt'):
        yield ('swallow OSError', f, 'fca/readwrite/cxt.py',
               SWALLOW.format(f=f, exc='OSError'), 'C17')


def main():
    out = open(sys.argv[1], 'a')
    wanted = sys.argv[2:]
    done = open(sys.argv[1]).read()
    work = list(kinds())
    random.Random(5).shuffle(work)
    work.sort(key=lambda k: k[0] == 'cache' and k[2] == CXT)
    for kind, what, path, text, check in work:
        if '%-14s %-60s' % (kind, what) in done:
            continue
        if wanted and kind.split()[0] not in wanted and \
                not any(w in what for w in wanted):
            continue
        d = tempfile.mkdtemp(prefix='fca-sweep-')
        try:
            subprocess.run(['cp', '-a', '/repo/fca', d], check=True)
            p = os.path.join(d, path)
            s = open(p, encoding='utf-8').read()
            cut = s.find('\nif __name__')
            cut = len(s) if cut < 0 else cut
            open(p, 'w', encoding='utf-8').write(s[:cut] + text)
            for few in (['--runs', '4000'], []):
                r = subprocess.run(
                    [PY, os.path.join(HOME, 'check.py'), check] + few,
                    capture_output=True, text=True,
                    env=dict(os.environ, VERIF_REPO=d, VERIF_MINIMISE='3'))
                if r.returncode != 0:
                    break
            print('%-14s %-60s %s exit %d' % (kind, what, check,
                                              r.returncode),
                  file=out, flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == '__main__':
    main()
