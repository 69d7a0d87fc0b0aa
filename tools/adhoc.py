"""adhoc.py SPEC.py ID...   run the check of each bug of a spec (see plant.py)
whose patch was not kept, on a scratch copy (development only)."""
import os, runpy, shutil, subprocess, sys, tempfile
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bugs = {b['id']: b for b in runpy.run_path(sys.argv[1])['BUGS']}
for i in sys.argv[2:] or bugs:
    b = bugs[i]
    d = tempfile.mkdtemp(prefix='fca-adhoc-')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        for path, old, new in b['edits']:
            p = os.path.join(d, path)
            s = open(p, encoding='utf-8').read()
            assert s.count(old) == 1, path
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        r = subprocess.run(['/opt/venv/bin/python', os.path.join(
            home, 'check.py'), b['property']], capture_output=True, text=True,
            env=dict(os.environ, VERIF_REPO=d))
        print('%-40s %s exit %d' % (i, b['property'], r.returncode), flush=True)
    finally:
        shutil.rmtree(d)
