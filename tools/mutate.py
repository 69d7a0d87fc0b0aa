"""Mutation testing of the checks (development only; nothing here is a check).

    mutate.py list                    count the mutants per file
    mutate.py run OUT [FILE...]       run every mutant, survivors to OUT
    mutate.py one FILE N              (internal) run one mutant

A mutant is a copy of the package with one small syntactic change.  It is run
against the plans of all properties, in one process, until something fails.
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SKIP = ('explorationtest.py', 'examples', '__pycache__')


def files():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'fca')):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), REPO)
            if p.endswith('.py') and not any(s in p for s in SKIP):
                out.append(p)
    return sorted(out)


CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE],
       ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn],
       ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add],
       ast.Div: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd],
       ast.Pow: [ast.Mult], ast.BitXor: [ast.BitOr]}


def is_main(node):
    return isinstance(node, ast.If) and isinstance(node.test, ast.Compare) \
        and isinstance(node.test.left, ast.Name) \
        and node.test.left.id == '__name__'


def mutations(tree):
    """Yield (description, function that applies it to a deep copy)."""
    spots = []

    def walk(node, path):
        if is_main(node):
            return
        spots.append((node, path))
        for field, value in ast.iter_fields(node):
            if isinstance(value, list):
                for i, x in enumerate(value):
                    if isinstance(x, ast.AST):
                        walk(x, path + [(field, i)])
            elif isinstance(value, ast.AST):
                walk(value, path + [(field, None)])
    walk(tree, [])

    def at(t, path):
        for f, i in path:
            t = getattr(t, f) if i is None else getattr(t, f)[i]
        return t

    def put(t, path, new):
        parent = at(t, path[:-1])
        f, i = path[-1]
        if i is None:
            setattr(parent, f, new)
        else:
            getattr(parent, f)[i] = new

    for node, path in spots:
        line = getattr(node, 'lineno', 0)
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for new in CMP.get(type(node.ops[0]), []):
                yield (line, '%s -> %s' % (type(node.ops[0]).__name__,
                                           new.__name__),
                       lambda t, p=path, n=new: setattr(at(t, p), 'ops', [n()]))
        elif isinstance(node, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(node.op), []):
                yield (line, '%s -> %s' % (type(node.op).__name__,
                                           new.__name__),
                       lambda t, p=path, n=new: setattr(at(t, p), 'op', n()))
        elif isinstance(node, ast.BoolOp):
            new = ast.Or if isinstance(node.op, ast.And) else ast.And
            yield (line, 'and <-> or',
                   lambda t, p=path, n=new: setattr(at(t, p), 'op', n()))
            for k in range(len(node.values)):
                def drop(t, p=path, k=k):
                    x = at(t, p)
                    del x.values[k]
                    if len(x.values) == 1:
                        put(t, p, x.values[0])
                yield (line, 'drop operand %d' % k, drop)
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield (line, 'drop not', lambda t, p=path: put(t, p,
                                                           at(t, p).operand))
        elif isinstance(node, ast.Constant) and path and \
                path[-1][0] not in ('annotation',):
            v = node.value
            if isinstance(v, bool):
                yield (line, '%r -> %r' % (v, not v),
                       lambda t, p=path, v=v: setattr(at(t, p), 'value', not v))
            elif isinstance(v, (int, float)):
                for n in (v + 1, v - 1):
                    yield (line, '%r -> %r' % (v, n),
                           lambda t, p=path, n=n: setattr(at(t, p), 'value', n))
            elif isinstance(v, str) and len(v) < 12 and len(path) > 1 and \
                    not isinstance(at(tree, path[:-1]), (ast.Expr,
                                                         ast.JoinedStr)):
                yield (line, 'string %r' % v,
                       lambda t, p=path, v=v: setattr(at(t, p), 'value',
                                                      v + 'x'))
        elif isinstance(node, (ast.If, ast.While, ast.IfExp)):
            if isinstance(node, ast.While):
                continue
            for b in (True, False):
                yield (line, 'condition %r' % b,
                       lambda t, p=path, b=b: setattr(at(t, p), 'test',
                                                      ast.Constant(b)))
        elif isinstance(node, ast.comprehension):
            for k in range(len(node.ifs)):
                def drop(t, p=path, k=k):
                    del at(t, p).ifs[k]
                yield (line, 'drop filter', drop)
        elif isinstance(node, (ast.Break, ast.Continue)):
            new = ast.Continue if isinstance(node, ast.Break) else ast.Break
            yield (line, 'break <-> continue',
                   lambda t, p=path, n=new: put(t, p, n()))
        elif isinstance(node, ast.Call):
            f = node.func
            if isinstance(f, ast.Attribute) and f.attr in (
                    'copy', 'deepcopy', 'strip', 'union'):
                if f.attr in ('copy', 'strip') and not node.args:
                    yield (line, 'drop .%s()' % f.attr,
                           lambda t, p=path: put(t, p, at(t, p).func.value))
                elif node.args:
                    yield (line, 'drop %s' % f.attr,
                           lambda t, p=path: put(t, p, at(t, p).args[0]))
            if isinstance(f, ast.Name) and f.id in (
                    'set', 'list', 'sorted', 'reversed', 'frozenset', 'dict') \
                    and node.args:
                yield (line, 'drop %s()' % f.id,
                       lambda t, p=path: put(t, p, at(t, p).args[0]))
            for k in range(len(node.keywords)):
                def dropk(t, p=path, k=k):
                    del at(t, p).keywords[k]
                yield (line, 'drop keyword %s' % node.keywords[k].arg, dropk)
            if len(node.args) == 2 and not any(
                    isinstance(a, ast.Starred) for a in node.args):
                def swap(t, p=path):
                    at(t, p).args.reverse()
                yield (line, 'swap arguments', swap)
        elif isinstance(node, ast.Subscript) and isinstance(
                node.slice, ast.Slice) and isinstance(node.ctx, ast.Load):
            yield (line, 'drop slice',
                   lambda t, p=path: put(t, p, at(t, p).value))
        elif isinstance(node, ast.Raise):
            yield (line, 'drop raise', lambda t, p=path: put(t, p, ast.Pass()))
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) \
                and path and not (isinstance(node, ast.Expr) and
                                  isinstance(node.value, ast.Constant)):
            yield (line, 'drop statement',
                   lambda t, p=path: put(t, p, ast.Pass()))
        if isinstance(node, ast.Return) and node.value is not None:
            yield (line, 'return None',
                   lambda t, p=path: setattr(at(t, p), 'value', None))


def source(path):
    with open(os.path.join(REPO, path), encoding='utf-8') as f:
        return f.read()


def mutant(path, n):
    tree = ast.parse(source(path))
    for k, (line, what, apply) in enumerate(mutations(tree)):
        if k == n:
            t = copy.deepcopy(tree)
            apply(t)
            return line, what, ast.unparse(ast.fix_missing_locations(t))


ALL = ['C%02d' % k for k in range(1, 29)]
FIRST = {'context.py': 'C01 C02 C21 C23 C05 C27', 'norris.py': 'C03',
         'dg_basis.py': 'C04 C10', 'aibasis.py': 'C04',
         'closure_operators.py': 'C22 C02 C04', 'factors.py': 'C19',
         'exploration.py': 'C08 C09 C10 C11 C12', 'patterns.py': 'C14',
         'implication_covers.py': 'C24', 'implication.py': 'C25 C28 C22',
         'scaling.py': 'C23', 'scale.py': 'C23', 'mvcontext.py': 'C23 C15',
         'partial_context.py': 'C13', 'compare_context.py': 'C13',
         'dot.py': 'C18 C17', 'fimi.py': 'C18 C17', 'xml_.py': 'C15 C16 C17',
         'cxt.py': 'C15 C16 C17', 'tab_separated.py': 'C15 C17',
         'comma_separated.py': 'C15', 'concept.py': 'C03 C27 C20',
         'concept_system.py': 'C03 C20', 'concept_lattice.py': 'C03 C20',
         'filter.py': 'C20', 'stability.py': 'C20', 'probability.py': 'C20 C06',
         'separation.py': 'C20', 'extentsize.py': 'C20', 'intentsize.py': 'C20'}


def one(path, n, seconds):
    """In a process of its own: exit 1 if some run fails."""
    line, what, text = mutant(path, n)
    d = tempfile.mkdtemp(prefix='fca-mut-')
    try:
        shutil.copytree(os.path.join(REPO, 'fca'), os.path.join(d, 'fca'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        with open(os.path.join(d, path), 'w', encoding='utf-8') as f:
            f.write(text)
        os.environ['VERIF_REPO'] = d
        sys.path.insert(0, HOME)
        from dst import core, runner
        core.WALL_SUSPECT = 6
        core.STEP_CAP = 2000000
        core.load_fca()
        runner.limit_memory()
        first = FIRST.get(os.path.basename(path), '').split()
        rest = [p for p in ALL if p not in first and p not in ('C07', 'C26')]
        scratch = os.path.join(d, 'scratch')
        t0 = time.time()
        i = 0
        while time.time() - t0 < seconds:
            # mostly the likely ones
            for pid in (first * 3 + rest if i % 4 == 0 else first or rest):
                prop = runner.load_prop(pid)
                plan = runner.plan_for(prop, pid, 77, pid, i * 7919 +
                                       int((time.time() - t0) * 1e6), 'quick')
                _, v = runner.one_run(prop, plan, scratch)
                if v is not None:
                    print('%s: %s' % (pid, v.kind))
                    return 1
                i += 1
        return 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(out, paths, seconds):
    jobs = []
    for p in paths or files():
        for n, (line, what, _) in enumerate(mutations(ast.parse(source(p)))):
            jobs.append((p, n, line, what))
    print(len(jobs), 'mutants', flush=True)
    lines = {p: source(p).split('\n') for p in {j[0] for j in jobs}}
    survivors = []

    def do(job):
        p, n, line, what = job
        env = dict(os.environ, PYTHONHASHSEED=str(n + 1),
                   PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1',
                   PYTHONPYCACHEPREFIX='/nonexistent/pycache')
        try:
            r = subprocess.run([sys.executable, '-W', 'ignore', __file__,
                                'one', p, str(n), str(seconds)], env=env,
                               stdin=subprocess.DEVNULL, capture_output=True,
                               text=True, timeout=seconds + 200)
            return job, r.returncode, r.stdout.strip()[-100:], r.stderr[-300:]
        except subprocess.TimeoutExpired:
            return job, 1, 'timeout', ''

    with ThreadPoolExecutor(8) as ex, open(out, 'w') as f:
        for (p, n, line, what), rc, so, se in ex.map(do, jobs):
            if rc == 0 or 'Error' in se and 'IMPORT' not in se and not so:
                tag = 'SURVIVED' if rc == 0 else 'ERROR'
                f.write('%s %s:%d #%d %s | %s%s\n' % (
                    tag, p, line, n, what, lines[p][line - 1].strip()[:90],
                    '' if rc == 0 else ' !! ' + se.strip()[-120:]))
                f.flush()


if __name__ == '__main__':
    if sys.argv[1] == 'list':
        for p in files():
            print(len(list(mutations(ast.parse(source(p))))), p)
    elif sys.argv[1] == 'one':
        sys.exit(one(sys.argv[2], int(sys.argv[3]), float(sys.argv[4])))
    else:
        run(sys.argv[2], sys.argv[4:], float(sys.argv[3]))
