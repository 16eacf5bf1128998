#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known_findings.txt from the fix commits of /repo ('known:' lines are kept as they are)."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(HERE, 'known_findings.txt')
PROP = dict(l.split() for l in '''
eef60c1 C01
41e746a C01
af20539 C02
c1a15a5 C02
0c34beb C01
b1756b6 C01
18b6964 C02
4ff8821 C03
0ede560 C05
04e4e92 C05
bedc956 C03
6e64980 C22
3b2c12a C04
5a131f7 C07
0506c21 C05
4de60ce C05
8dcc8be C06
f535202 C07
5077b69 C07
39615aa C12
4f298f7 C07
e98a280 C10
cc51775 C07
bf5b445 C12
0649fe4 C12
69b5984 C09
af701b1 C20
831f22b C09
ad08f28 C10
c665a4a C10
67916cd C08
3f65109 C20
2163285 C09
1e421dc C08
90fa692 C17
2b3f1d7 C17
d8daa49 C17
0105f9d C18
591e28b C14
1119f34 C14
'''.split('\n') if l.strip())
extra = os.path.join(HERE, 'tools', 'fixprops.txt')
if os.path.exists(extra):
    PROP.update(l.split() for l in open(extra) if l.strip())
known = []
if os.path.exists(P):
    known = [l.rstrip('\n') for l in open(P) if l.startswith('known: ')]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '94a023a..'], text=True).splitlines()
with open(P, 'w') as f:
    f.write('# Genuine defects found by the checks.  "known:" entries are reported as KNOWN-FINDING, "fixed:" entries suppress nothing.\n')
    for l in known:
        f.write(l + '\n')
    for l in log:
        h, s = l.split(' ', 1)
        if s.startswith('fix: '):
            if h[:7] not in PROP:
                raise SystemExit('no property for %s (tools/fixprops.txt)' % l)
            f.write('fixed: property=%s %s %s\n' % (PROP[h[:7]], h, s[5:]))
