"""C07: independent work in parallel does not interfere."""
import json
import os
import shutil

from .. import core
from ..runner import load_prop, run_session
from ..sched import Scheduler, draw_preemptions
from ..simfs import SimDisk, draw_disk

RUNS = {'quick': 2304, 'thorough': 40000}
JOBS = ['C01', 'C02', 'C03', 'C04', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13',
        'C14', 'C15', 'C15', 'C15', 'C18', 'C19', 'C20', 'C20', 'C21', 'C22', 'C23',
        'C24', 'C25']
FILES = ('C15', 'C18')
RULE = ('a run is 2 to 4 jobs on threads and up to 2 jobs done before them in '
        'the same process; a job is a complete drawn history of one of the '
        'other properties (editing, querying, enumerating, bases, all kinds '
        'of exploration, factors, indices, many-valued data, covers, saving, '
        'loading and exporting on a shared simulated disk, each in its own '
        'directory), judged against its own model. Pre-emptions at line or '
        'byte code events of library code (in 25 % only of its outer 1 to 3 '
        'calls) and at raw I/O events are drawn. '
        'A job that fails is repeated alone in a new process: it counts only '
        'if it does not fail there. Non-trivial: 2 jobs and 5 switches')
REAL = ['everything the jobs use, on real threads', "Python's I/O, csv, expat"]
STUB = ['the thread scheduler', 'raw file layer (SimDisk)',
        'experts, callbacks and expressions of the jobs']
NEEDS_SCRATCH = True
LISTS = ['preempt', 'before', 'tasks']
MAX_SIZE = 4000         # bytes of plan; keeps runs short


def draw_job(rng, kinds):
    while True:
        pid = rng.choice(kinds)
        plan = load_prop(pid).generate(rng, 'quick')
        if len(json.dumps(plan)) <= MAX_SIZE:
            return [pid, plan]


def generate(rng, tier):
    mean, most, depth = int(2 ** rng.uniform(1, 11)), 150, 0
    how = rng.random()
    if how < .2:                    # only near the calls of the threads
        depth, most = rng.randint(1, 3), 2000
        mean = rng.choice([rng.randint(2, 12), 0, 0])
    elif how < .4:                  # only after writes
        depth, most = rng.choice([-1, -2]), 2000
        mean = rng.randint(1, 4)
    elif how < .55:                 # hardly a step without a switch
        mean, most = rng.choice([rng.randint(2, 40), 0]), 2000
    kinds, x = JOBS, rng.random()
    if x < (.6 if most > 150 else .3):  # the same kind of work
        kinds = [rng.choice(JOBS)]
    elif x < .7:
        kinds = ['C15', 'C18']
    tasks = [draw_job(rng, kinds) for _ in range(rng.choice([2, 2, 2, 3, 4]))]
    if kinds is not JOBS and rng.random() < .6:
        # the same steps with other data
        for pid, job in tasks[1:]:
            if pid == tasks[0][0] and 'ops' in job:
                job['ops'] = json.loads(json.dumps(tasks[0][1]['ops']))
    before = [draw_job(rng, kinds) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    preempt = draw_preemptions(rng, 4, rng.randint(5, most), mean)
    if rng.random() < .3:           # the first part without a switch
        preempt[0][0] += int(2 ** rng.uniform(8, 14)) >> 2 * abs(depth)
    return {'tasks': tasks, 'before': before, 'disk': draw_disk(rng),
            'preempt': preempt,
            'opcodes': rng.random() < .2, 'depth': depth,
            'first': rng.randrange(4)}


def shrink(plan):
    """Shrink the jobs' own lists."""
    for x, (pid, job) in enumerate(plan['tasks']):
        prop = load_prop(pid)
        for path in getattr(prop, 'LISTS', ['ops']):
            if '.' in path or not isinstance(job.get(path), list):
                continue
            n = len(job[path])
            cuts = [(0, n // 2), (n // 2, n)] if n > 3 else []
            cuts += [(k, k + 1) for k in range(n)]
            for a, b in cuts:
                p = json.loads(json.dumps(plan))
                del p['tasks'][x][1][path][a:b]
                yield p


def run_job(pid, plan, env, home):
    prop = load_prop(pid)
    if pid in FILES:
        prop.session(plan, env, home)
    else:
        prop.execute(plan, env)


def alone(pid, plan):
    """What the job does on its own in a new process."""
    return run_session({'property': pid, 'plans': [plan],
                        'hashseed': os.environ.get('PYTHONHASHSEED', '0')})


def execute(plan, env):
    core.load_fca()
    tasks = plan['tasks']
    if not tasks:
        return

    def home(k):
        path = os.path.join(env.scratch, 'job%d' % k)
        shutil.rmtree(path, ignore_errors=True)
        os.makedirs(path)
        return path

    def failed(pid, job, label, error):
        if alone(pid, job) is not None:
            env.probe('fails alone too')
            return
        v = core.as_violation(error)
        detail = dict(v.detail or {})
        detail['job'] = '%s %s' % (pid, core.show(job, 1500))
        raise core.Violation('job fails only %s: %s' % (label, v.kind), detail)

    with SimDisk(env.scratch, env, plan['disk']) as disk:
        for k, (pid, job) in enumerate(plan['before']):
            sub = core.Env(env.scratch)
            try:
                run_job(pid, job, sub, home(100 + k))
            except Exception as e:
                failed(pid, job, 'after other work', e)
            env.faults.update(sub.faults)
        s = Scheduler(env, plan['preempt'], plan['opcodes'], depth=plan['depth'])
        disk.on_event = s.yield_here
        subs = []
        for k, (pid, job) in enumerate(tasks):
            sub = core.Env(env.scratch)
            subs.append(sub)
            s.spawn(lambda pid=pid, job=job, sub=sub, h=home(k):
                    run_job(pid, job, sub, h))
        results = s.run(plan['first'])
        disk.on_event = None
        for (pid, job), sub, (status, value) in zip(tasks, subs, results):
            env.faults.update(sub.faults)
            env.steps += sub.steps
            env.states |= set(list(sub.states)[:3])
            env.probe('job ' + pid)
            if status == 'error' and not isinstance(value, Exception):
                raise value
            if status != 'ok':
                failed(pid, job, 'in parallel', value)
    env.nontrivial = len(tasks) >= 2 and len(s.switches) >= 5
