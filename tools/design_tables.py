#!/usr/bin/env python3
"""design_tables.py [CATCHLOG]   rewrite the generated tables of DESIGN.md:
the repairs (from known_findings.json) and, given the output of catch.sh, which
check catches which planted bug."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, 'DESIGN.md')
text = open(path).read()


def put(mark, lines):
    global text
    a, b = '<!-- %s -->\n' % mark, '<!-- end %s -->\n' % mark
    i, j = text.index(a) + len(a), text.index(b)
    text = text[:i] + '\n' + '\n'.join(lines) + '\n\n' + text[j:]


rows = ['| property | commit | what was wrong |', '|---|---|---|']
for f in sorted(json.load(open(os.path.join(root, 'known_findings.json')))['fixed']):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', f)
    rows.append('| %s | %s | %s |' % (m[1], m[2], m[3].replace('|', '\\|')))
put('fixed', rows)
if len(sys.argv) > 1:
    rows = ['| planted bug | needs | caught by | violation |', '|---|---|---|---|']
    for line in open(sys.argv[1]):
        m = re.match(r'(\S+)\s+(C\d+) exit=(\S*) (\d+)s\s*(.*)', line)
        if not m:
            continue
        meta = json.load(open(os.path.join(root, 'seeded', m[1], 'meta.json')))
        kind = re.sub(r'^C\d+: ', '', m[5]).strip()[:90]
        rows.append('| %s | %s | %s | %s |' % (
            m[1], meta['needs'].replace('|', '\\|')[:160],
            '%s (%s s)' % (m[2], m[4]) if m[3] == '1' else 'MISSED', kind.replace('|', '\\|')))
    put('caught', rows)
open(path, 'w').write(text)
