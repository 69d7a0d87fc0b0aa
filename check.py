#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
   check.py --replay FILE

Explores seeded simulated runs of one property, or replays one failing run.
Exit 0: the property held on everything explored.  Exit 1: a line
`VIOLATION property=<id> replay=<path>`.  Exit 2: the check itself failed.
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from dst import runner      # noqa: E402

if __name__ == '__main__':
    sys.exit(runner.main(sys.argv[1:]))
