"""Try planted bugs in scratch copies; keep the valid ones under seeded/.

plant.py FILE.py [ID...]   FILE defines BUGS, a list of dicts: id, property,
edits [(file, old, new)], demo (Python source), needs, breaks.
plant.py --recheck [ID...] runs the checks against the kept bugs again.
Nothing here is used by any check.
"""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = '6b0d86d'
BL = json.load(open('/opt/vp/BASELINE.json'))
STABLE = BL if isinstance(BL, list) else (BL.get('passed') or BL.get('stable')
                                          or BL.get('tests'))
DEMO_SH = '''#!/bin/bash
# Runs with cwd /repo; the demonstration lies beside this file.
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" TZ=UTC
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def tests(repo):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               TZ='UTC', PYTHONPATH=repo + '/tests',
               PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    x = repo + '/../junit.xml'
    sh([PY, '-m', 'pytest', '-q', '-p', 'pytest_timeout', '-p',
        'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors',
        '-o', 'junit_family=xunit2', '--junitxml=' + x, 'tests'], cwd=repo,
       env=env)
    o = repo + '/../out.json'
    sh(['python3', '/opt/vp/results.py', o, 'junit:' + x])
    r = json.load(open(o))
    passed = r['passed'] if isinstance(r, dict) else r
    return sorted(set(STABLE) - set(passed))


def checks(repo, pids, seed='1'):
    out = {}
    for pid in pids:
        ev = tempfile.mkdtemp(prefix='ev-')
        r = sh(['bash', VERIF + '/run.sh', 'check', pid, 'quick'], cwd=VERIF,
               env=dict(os.environ, VP_REPO=repo, VP_EVIDENCE=ev,
                        VERIF_SEED=seed))
        shutil.rmtree(ev)
        why = r.stdout.strip().splitlines()[0][:200] if r.stdout else ''
        out[pid] = (r.returncode, f'VIOLATION property={pid} ' in r.stdout,
                    why if r.returncode else '', r.stderr[-300:]
                    if r.returncode == 2 else '')
    return out


def demo(src, repo):
    d = tempfile.mkdtemp(prefix='demo-')
    open(d + '/demo.py', 'w').write(src)
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    r = sh(['bash', d + '/demo.sh'], cwd=repo, timeout=250)
    shutil.rmtree(d)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def scratch():
    d = tempfile.mkdtemp(prefix='plant-')
    sh(['cp', '-a', '/repo', d + '/repo'])
    return d


def own_lines(repo, f):
    r = sh(['git', '-C', repo, 'blame', '-s', '--abbrev=7', BASE + '..HEAD',
            '--', f])
    own = set()
    for line in r.stdout.splitlines():
        if not line.startswith('^'):
            own.add(int(line.split(')')[0].split()[-1]))
    return own


def one(b):
    d = scratch()
    repo = d + '/repo'
    try:
        for f, old, new in b['edits']:
            p = f'{repo}/jsonclasses/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                return b, f'edit matches {s.count(old)} times in {f}: {old!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', '-C', repo, 'diff', '--no-color']).stdout
        touched = []
        cur = None
        for line in sh(['git', '-C', repo, 'diff', '-U0',
                        '--no-color']).stdout.splitlines():
            if line.startswith('--- a/'):
                cur = line[6:]
                own = own_lines(repo, cur)
            elif line.startswith('@@'):
                a = line.split()[1][1:].split(',')
                n = int(a[1]) if len(a) > 1 else 1
                touched += [(cur, int(a[0]) + i, int(a[0]) + i in own)
                            for i in range(n)]
        mine = [t for t in touched if t[2]]
        rc, out = demo(b['demo'], '/repo')
        if rc:
            return b, 'demo fails on the unchanged tree: ' + out
        rc, out = demo(b['demo'], repo)
        if not rc:
            return b, 'demo passes with the patch'
        miss = tests(repo)
        if miss:
            return b, f'tests break: {miss[:3]} ({len(miss)})'
        b['diff'] = diff
        s = VERIF + '/seeded/' + b['id']
        os.makedirs(s, exist_ok=True)
        open(s + '/patch.diff', 'w').write(diff)
        open(s + '/demo.py', 'w').write(b['demo'])
        open(s + '/demo.sh', 'w').write(DEMO_SH)
        json.dump({'property': b['property'], 'needs': b['needs'],
                   'what_it_breaks': b['breaks']},
                  open(s + '/meta.json', 'w'), indent=1)
        res = checks(repo, b.get('checks', [b['property']]))
        note = ' OWN LINES ' + str(mine) if mine else (
            '' if touched else ' ONLY INSERTIONS')
        return b, 'KEPT' + note + ' ' + str(res)
    finally:
        shutil.rmtree(d)


def recheck(i):
    d = scratch()
    repo = d + '/repo'
    try:
        s = VERIF + '/seeded/' + i
        r = sh(['git', '-C', repo, 'apply', s + '/patch.diff'])
        if r.returncode:
            return i, None, r.stderr
        m = json.load(open(s + '/meta.json'))
        return i, m['property'], checks(repo, [m['property']])
    finally:
        shutil.rmtree(d)


def main():
    if sys.argv[1] == '--recheck':
        ids = sys.argv[2:] or sorted(os.listdir(VERIF + '/seeded'))
        with ThreadPoolExecutor(3) as ex:
            cp = VERIF + '/tools/caught.json'
            seen = json.load(open(cp)) if os.path.exists(cp) else {}
            for i, p, res in ex.map(recheck, ids):
                seen[i] = 'caught' if p and res[p][1] else 'missed'
                ok = p and res[p][1]
                print('CAUGHT' if ok else 'MISSED', i, p,
                      res if not ok else res[p][2][:120], flush=True)
            json.dump(seen, open(cp, 'w'), indent=0, sort_keys=True)
        return
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    bugs = [b for b in ns['BUGS'] if not sys.argv[2:] or b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for b, msg in ex.map(one, bugs):
            print(b['id'], msg, flush=True)


if __name__ == '__main__':
    main()
