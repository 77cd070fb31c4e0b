#!/opt/venv/bin/python
"""Writes the 'fixed:' lines of known_findings.txt from the fix commits of /repo (keeps 'finding:' lines)."""
import os
import subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = dict(l.split() for l in '''
960adb0 C09
04894f5 C28
f61d0f1 C28
ee0509f C28
dce40bc C28
643a152 C27
7701937 C27
0c31e46 C26
28ef4bf C30
e35fe1f C20
6afd558 C12
f1d8f06 C05
1ff9d09 C05
8863553 C05
eefb480 C05
f18673e C02
c99bf34 C01
d7c7029 C07
55a859b C04
8831e38 C04
d1ff99f C04
61b2f1c C04
c571a65 C32
d81a11e C07
522d547 C06
ae287af C06
d978dd1 C25
860296b C14
cccf15c C14
82ef850 C11
0f60ace C15
33e9b35 C20
bb44999 C20
a575cf8 C15
e033f57 C16
56f7250 C14
96210c1 C12
e9f341e C12
1093c1d C12
e0c10f7 C10
5c38b98 C23
e286baf C23
43be720 C22
af4083f C10
08c1854 C21
38791e7 C08
730a255 C12
0344e4b C12
c980ab3 C13
b29de18 C10
4111858 C24
31ee0aa C09
12e1a6e C04
df78666 C02
2a5b743 C05
3233367 C35
40a199a C06
4bb5fcf C07
2ad4cf2 C40
10264a6 C41
'''.strip().splitlines())
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--abbrev=7'], capture_output=True, text=True, check=True).stdout
path = os.path.join(VERIF, 'known_findings.txt')
keep = [l for l in open(path)] if os.path.exists(path) else []
keep = [l for l in keep if l.startswith('finding:')]
with open(path, 'w') as f:
    f.writelines(keep)
    for line in log.splitlines():
        h, msg = line.split(' ', 1)
        if msg.startswith('fix: '):
            f.write('fixed: property=%s %s %s\n' % (MAP[h[:7]], h, msg[5:]))
