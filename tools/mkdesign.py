"""Compose DESIGN.md from tools/design_*.md and the kept planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def part(n):
    return open(f'{V}/tools/design_{n}.md').read().rstrip() + '\n\n'


res = {}
p = V + '/tools/caught.json'
if os.path.exists(p):
    res = json.load(open(p))
rows = []
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    what = ' '.join(d['what_it_breaks'].split()).replace('|', '/')
    rows.append(f"| {i} | {d['property']} | {res.get(i, '?')} | {what} |\n")
fixed = json.load(open(V + '/KNOWN_FINDINGS.json'))
out = part('head') + part('props')
out += '## Planted bugs\n\nEach was written from a property and the code, ' \
    'passes all stable tests and has a demonstration; `tools/plant.py ' \
    '--recheck` runs them all.\n\n| bug | property | quick check | breaks ' \
    '|\n|---|---|---|---|\n' + ''.join(rows) + '\n'
out += '## Genuine defects repaired\n\n' + ''.join(
    f'* {x[7:]}\n' for x in fixed['fixed']) + '\n'
out += part('tail')
open(V + '/DESIGN.md', 'w').write(out.rstrip() + '\n')
