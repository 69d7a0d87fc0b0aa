import json, subprocess, os
MAP = """0fc2a8b C04|7c4020c C22|cfe3763 C01|81d7e0c C01|4603c7b C04|37cb98f C05|fcc1d72 C01|be0112c C01|9d844fc C21|41086d4 C21|2d2784d C03|e882909 C03|94f259b C04|3b1caf4 C20|68fee7c C06|8cc8295 C19|eb77a8b C08|0c1aeb6 C08|4a684b8 C08|42280c2 C09|8031d8c C09|629776a C13|762e98b C11|279ed9b C11|d42737a C12|33e26a3 C13|8542ae1 C13|0054a13 C13|03b0839 C14|f4b6855 C14|5f2b29f C14|c9a9389 C23|c6776fa C23|9cd4e5e C15|2ec3538 C15|5ba5586 C15|a4d1c2c C15|e0eadcb C15|bd28623 C15|04689d2 C16|fffc06f C17|0905b42 C18"""
SUBJ = {
    'nominal scales of columns with nan or infinite values': 'C23',
    'a scale cannot be edited': 'C01',
    'Context: arguments that are left out mean an empty table': 'C10',
    'NominalScale: missing values': 'C23',
    'Implication.str2imp: empty premise or conclusion': 'C25',
    'factorisation with conditions drops its last factor': 'C19',
    'factorisation with conditions gives up on covered crosses': 'C19',
    'text of a concept with names like 4 and \'4\' depends on the order of sets':
        'C27',
    'a many-valued context cannot be printed': 'C27',
    'concepts and implications over numbers and strings cannot be printed': 'C27',
    'the copy of a negative implication is a positive one': 'C28',
    'a negative implication equals the positive one': 'C28',
    'the text of a negative implication depends on the order of sets': 'C28',
    'a unit implication equals the negative one over the same sets': 'C28',
}
m = dict(x.split() for x in MAP.split('|'))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h%x09%s', 'f6e3378..HEAD'], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split('\t')
    assert s.startswith('fix:'), s
    pid = m.pop(h, None) or SUBJ[s[5:]]
    fixed.append('fixed: property=%s %s %s' % (pid, h, s[5:]))
assert not m, m
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json'), 'w') as f:
    json.dump({'open': [], 'fixed': fixed}, f, indent=1); f.write('\n')
print(len(fixed))
