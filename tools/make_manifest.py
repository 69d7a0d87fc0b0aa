"""Writes /verif/MANIFEST.json."""
import importlib
import json
import os
import sys

HOME = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, HOME)

TECH = {
    'C05': 'deterministic simulation of threads: seeded pre-emption at line and byte code events, answers against a reference model',
    'C06': 'deterministic simulation with fault injection: interrupts, memory exhaustion and callback failures at drawn events, then probes against a reference model',
    'C07': 'deterministic simulation: whole histories of independent jobs on pre-empted threads over a simulated disk, judged against per-job models',
    'C15': 'deterministic simulation of the disk: seeded splits of reads and writes, save/load histories against the data saved',
    'C16': 'deterministic simulation with fault injection: crashes, torn files and read faults on a simulated disk',
    'C17': 'deterministic simulation with fault injection: failing opens, writes, closes and crashes on a simulated disk, retries',
    'C18': 'deterministic simulation of the disk: seeded splits of writes, exports parsed independently and compared with definitions',
    'C26': 'deterministic simulation with the random source seeded: exact shapes, frequencies against large deviation bounds',
}
ORACLE = {
    'C01': 'a plain named table', 'C02': 'definitions on a plain table',
    'C03': 'formal concepts and order by definition',
    'C04': 'pseudo-intents by definition',
    'C05': 'definitions; every answer of every thread',
    'C06': 'definitions, after the fault',
    'C07': 'the jobs\' own models; a failing job is repeated alone in a new process and counts only if it passes there',
    'C08': 'a model of examples and confirmed implications',
    'C09': 'full state before and after each refused step',
    'C10': 'the expert\'s theory; bounded number of steps',
    'C11': 'a model of both sides', 'C12': 'a model of every session',
    'C13': 'exact completion by definition; bounded number of steps',
    'C14': 'a model of patterns and examples',
    'C15': 'the data saved', 'C16': 'the data saved, or an error',
    'C17': 'bytes on the simulated disk, open files, errors at the caller',
    'C18': 'independent parsers and definitions',
    'C19': 'concepts by definition, coverage recounted, boolean product',
    'C20': 'indices by definition', 'C21': 'each derivation on a plain table',
    'C22': 'naive fixpoint', 'C23': 'plain value table, predicates',
    'C24': 'closures of the examples seen so far', 'C25': 'names and sets',
    'C26': 'independent drawing',
    'C27': 'the documented text of the model', 'C28': 'plain sets',
}
checks = []
for pid in sorted(ORACLE):
    prop = importlib.import_module('dst.props.' + pid.lower())
    cmd = '/opt/venv/bin/python check.py %s --tier ' % pid
    checks.append({
        'property': pid, 'quick_cmd': cmd + 'quick',
        'thorough_cmd': cmd + 'thorough',
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': TECH.get(pid, 'deterministic simulation: seeded search over '
                              'histories, faults, set orders and schedules '
                              'against a reference model'),
        'level': 'exploration',
        'level_note': 'Sampled, not exhaustive: %d seeded runs (quick), %d '
                      '(thorough), small inputs. Oracle: %s. Real: %s. '
                      'Simulated: %s. Trusts the reference model, CPython and '
                      'numpy.' % (prop.RUNS['quick'], prop.RUNS['thorough'],
                                  ORACLE[pid], '; '.join(prop.REAL),
                                  '; '.join(prop.STUB))})
doc = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
       'not_applicable': [],
       'notes': 'Pure Python, nothing to build: every check imports the '
                'package from /repo\'s working tree (VERIF_REPO overrides the '
                'path for development). No hooks in /repo. '
                '/opt/venv/bin/python check.py --replay FILE replays a '
                'reported violation.'}
with open(os.path.join(HOME, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
print(len(checks))
