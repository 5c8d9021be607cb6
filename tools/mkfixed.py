"""Rewrite the "fixed" list of KNOWN_FINDINGS.json from /repo's fix commits.

The property of each commit is named in PROP below.
"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = '''f208591 C12, 202ccdd C12, b7517d6 C12, 1be630e C30, 8e850d8 C04,
47f5757 C07, 364bd86 C29, abdcb59 C18, 51cce4a C18, 9df6c86 C22, cbc2da7 C01,
2fee14a C16, c72e9d0 C06, ad38be1 C10, cc95f77 C06, de538b7 C07, 55c5df8 C09,
c92bb10 C17, da7cb9d C02, 9c16698 C06, f947b33 C06, 4e65f96 C24, 998bb07 C08,
188e515 C14, 28ec669 C01, e43c474 C06, 139150a C06, cf18983 C01, 6f3ff51 C01,
53b364b C11, 693f9b0 C21, 53b06d5 C11, ebb0a48 C14, 8673265 C14, 9c9a60c C13,
7658500 C14, 3ef6a86 C14, 16dc843 C14, 27b11b7 C14, f4b1cc2 C14, b3640a4 C13,
4ff2b0d C15, 0c9abb0 C16, 534c7dd C16, 6ce0cbc C18, 4204471 C18, dbd6d58 C24,
fb5eb9f C13, 50004c6 C26, cff7585 C26, 7349323 C26, 1a47705 C07, 46634a3 C26,
371fe00 C26, 52a923b C19, ea28ce9 C20, 6bde998 C27, 256db78 C03, 0819d96 C29,
5d103f1 C25, b0e0b41 C34, dce0984 C14, 778e4b6 C08, a4a6de0 C24, b3e534a C06,
50e9439 C16, 34a26e8 C29, 29b17e3 C20, 8786ab0 C36, 9eaf902 C36,
35faba2 C16'''
prop = dict(x.split() for x in PROP.replace('\n', ' ').split(','))
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse',
                      '--format=%h %s', '6b0d86d..HEAD'],
                     capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if s.startswith('fix: '):
        fixed.append(f'fixed: property={prop[h[:7]]} {h[:7]} {s[5:]}')
p = V + '/KNOWN_FINDINGS.json'
d = json.load(open(p))
d['fixed'] = fixed
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
