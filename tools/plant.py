"""Confirm planted bugs and keep them under seeded/ (development only).

    plant.py SPEC.py [ID...]

SPEC.py defines BUGS, a list of dicts with keys id, property, needs, breaks,
edits [(file, old, new)] and demo (a Python program that exits 1 or raises when
the change is there).  A bug is kept if it changes lines of the original
repository, builds, passes the stable tests, and its demonstration tells it
from the unchanged tree.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = 'f6e33780'

SH = '''#!/bin/bash
# exit 0 where the property holds, nonzero with the planted change
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str),
                          capture_output=True, text=True, **kw)


def in_copy(script, d):
    """build.sh and test.sh name /repo: run them with the copy's path."""
    text = open(script).read().replace('/repo', d)
    return text


def one(bug):
    d = tempfile.mkdtemp(prefix='fca-plant-')
    out = os.path.join(d, 'seeded')
    repo = os.path.join(d, 'repo')
    try:
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns(
            '__pycache__'))
        touched = []
        for path, old, new in bug['edits']:
            p = os.path.join(repo, path)
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1:
                return 'edit of %s matches %d times' % (path, s.count(old))
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
            touched.append(path)
        diff = sh(['git', 'diff'], repo).stdout
        # at least one removed line is original
        original = False
        for path in set(touched):
            blame = sh(['git', 'blame', '-s', '-l', 'HEAD', '--', path],
                       repo).stdout.split('\n')
            cur = 0
            for line in sh(['git', 'diff', '-U0', '--', path],
                           repo).stdout.split('\n'):
                if line.startswith('@@'):
                    cur = int(line.split()[1][1:].split(',')[0])
                elif line.startswith('-') and not line.startswith('---'):
                    commit = blame[cur - 1].split()[0].lstrip('^')
                    if sh(['git', 'merge-base', '--is-ancestor', commit,
                           BASE], repo).returncode == 0:
                        original = True
                    cur += 1
        if not original:
            return 'changes no original line'
        os.makedirs(out)
        with open(os.path.join(out, 'patch.diff'), 'w') as f:
            f.write(diff)
        with open(os.path.join(out, 'demo.sh'), 'w') as f:
            f.write(SH)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        with open(os.path.join(out, 'demo.py'), 'w') as f:
            f.write(bug['demo'].lstrip('\n'))
        with open(os.path.join(out, 'meta.json'), 'w') as f:
            json.dump({'property': bug['property'], 'needs': bug['needs'],
                       'what_it_breaks': bug['breaks']}, f, indent=1)
            f.write('\n')
        r = sh(['bash', '-c', in_copy('/opt/vp/build.sh', repo)], repo)
        if r.returncode:
            return 'build: ' + r.stderr[-300:]
        demo = os.path.join(out, 'demo.sh')
        r = sh(['bash', demo], '/repo')
        if r.returncode:
            return 'demo fails on the unchanged tree: ' + r.stderr[-400:]
        r = sh(['bash', demo], repo)
        if not r.returncode:
            return 'demo passes with the change'
        why = r.stderr.strip().split('\n')[-1][-120:]
        o = os.path.join(d, 'o.json')
        sh(['bash', '-c', in_copy('/opt/vp/test.sh', repo), 'x', o], repo)
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = set(json.load(open(o))['passed'])
        missing = [t for t in stable if t not in passed]
        if missing:
            return 'tests fail: %s' % missing[:3]
        dest = os.path.join(HOME, 'seeded', bug['id'])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(out, dest)
        return 'ok (%s)' % why
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    if sys.argv[2:]:
        bugs = [b for b in bugs if b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        for b, r in zip(bugs, ex.map(one, bugs)):
            print('%-40s %s' % (b['id'], r), flush=True)


main()
