"""Runner: `run.py check ID quick|thorough`, `run.py worker ...`,
`run.py replay FILE`, `run.py selftest`."""
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVIDENCE = os.environ.get('VP_EVIDENCE') or os.path.join(VERIF, 'evidence')
sys.path.insert(0, VERIF)
from vp import env  # noqa: E402


def load(pid):
    return importlib.import_module('checks.' + pid.lower())


def child_env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC',
             PYTHONPYCACHEPREFIX='/nonexistent/pycache', LC_ALL='C.UTF-8')
    e.pop('PYTHONPATH', None)
    return e


def seed_for(seed, pid, fam, shard):
    h = hashlib.sha256(f'{seed}/{pid}/{fam}/{shard}'.encode()).digest()
    return int.from_bytes(h[:6], 'big')


QUICK_FACTOR = 2.5


def split(families, tier):
    """How many processes each family gets; all cores are used."""
    if tier != 'quick':
        return {f.name: f.tshards for f in families}
    n = {f.name: f.shards for f in families}
    while sum(n.values()) < 8:
        big = max((f for f in families if f.enumerate is None),
                  key=lambda f: f.quick / n[f.name], default=None)
        if big is None:
            break
        n[big.name] += 1
    return n


def worker(pid, fam, shard, nshards, seed, tier, budget):
    from vp import core
    env.setup()
    mod = load(pid)
    family = next(f for f in mod.FAMILIES if f.name == fam)
    total = (int(family.quick * QUICK_FACTOR) if tier == 'quick'
             else family.thorough)
    if family.enumerate is not None:
        count = (shard, nshards)
    else:
        count = max(1, total // nshards)
    out = core.work(family, seed_for(seed, pid, fam, shard), count, budget)
    sys.stdout.write('\n@@' + json.dumps(out, default=repr) + '\n')


def known_findings(pid):
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get('findings', []) if k['property'] == pid]


def check(pid, tier):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    env.setup()
    mod = load(pid)
    scratch = tempfile.mkdtemp(prefix='vp-')
    jobs = []
    shards = split(mod.FAMILIES, tier)
    for fam in mod.FAMILIES:
        n = shards[fam.name]
        for s in range(n):
            jobs.append((fam, s, n))
    jobs.sort(key=lambda j: j[1])
    budget = 150.0 if tier == 'quick' else float(
        os.environ.get('VP_BUDGET', '600'))
    hard = 420.0 if tier == 'quick' else budget * 2 + 600
    running, results, fail, errors = [], [], None, []
    maxp = max(1, min(8, os.cpu_count() or 1))
    try:
        queue = list(jobs)
        while queue or running:
            while queue and len(running) < maxp and fail is None:
                fam, s, n = queue.pop(0)
                out = open(os.path.join(scratch, f'{fam.name}-{s}.out'), 'w+')
                err = open(os.path.join(scratch, f'{fam.name}-{s}.err'), 'w+')
                cwd = os.path.join(scratch, f'cwd-{fam.name}-{s}')
                os.mkdir(cwd)
                p = subprocess.Popen(
                    [sys.executable, '-W', 'ignore', os.path.abspath(__file__),
                     'worker', pid, fam.name, str(s), str(n), str(seed), tier,
                     str(budget)],
                    stdout=out, stderr=err, cwd=cwd, env=child_env())
                running.append((p, fam, s, out, err, time.monotonic()))
            if fail is not None:
                queue = []
            time.sleep(0.01)
            still = []
            for item in running:
                p, fam, s, out, err, started = item
                rc = p.poll()
                if rc is None:
                    if fail is not None:
                        p.kill()
                        p.wait()
                    elif time.monotonic() - started > hard:
                        p.kill()
                        p.wait()
                        errors.append(f'{fam.name}/{s}: no answer in {hard} s')
                    else:
                        still.append(item)
                    continue
                out.seek(0)
                text = out.read()
                mark = text.rfind('\n@@')
                if mark < 0:
                    err.seek(0)
                    errors.append(f'{fam.name}/{s}: exit {rc}: '
                                  + err.read()[-3000:])
                    continue
                res = json.loads(text[mark + 3:])
                results.append((fam, s, res))
                if 'fail' in res and fail is None:
                    fail = (fam, s, res['fail'])
            running = still
    finally:
        for item in running:
            item[0].kill()
        shutil.rmtree(scratch, ignore_errors=True)

    known = known_findings(pid)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    fams, nontriv, evals, samples = {}, 0, 0, []
    for fam in mod.FAMILIES:
        mine = [r for f, _, r in results if f is fam]
        keys = set()
        labels = {}
        for r in mine:
            keys.update(r['nontrivial'])
            for k, v in r['labels'].items():
                labels[k] = labels.get(k, 0) + v
        ev = sum(r['evaluations'] for r in mine)
        evals += ev
        nontriv += len(keys)
        fams[fam.name] = {'evaluations': ev, 'distinct_nontrivial': len(keys),
                          'rule': fam.rule, 'labels': labels,
                          'time_capped': sum(r['skipped'] for r in mine),
                          'exhaustive': fam.enumerate is not None}
        for r in mine:
            for s in r['samples'][:2]:
                if len([x for x in samples if x['family'] == fam.name]) < 2:
                    samples.append({'family': fam.name, 'case': s})
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': nontriv,
            'rule': 'Cases are drawn by the seeded generator of each family; '
                    'non-trivial per family: ' + ' | '.join(
                        f'{f.name}: {f.rule}' for f in mod.FAMILIES),
            'families': fams, 'samples': samples},
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) or [
            'the reference model in checks/%s.py states the intended '
            'behaviour' % pid.lower()],
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': 1 if fail else 0}
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f'{pid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=repr)
    if fail is not None:
        fam, s, info = fail
        rdir = os.path.join(EVIDENCE, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{pid}-{fam.name}.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'family': fam.name, 'seed': seed,
                       'shard': s, 'tier': tier, 'case': info['case'],
                       'why': info['why']}, f, indent=1, default=repr)
        print(f"{pid}/{fam.name}: {info['why']}")
        print(f"case: {json.dumps(info['case'], default=repr)[:2000]}")
        print(f'VIOLATION property={pid} replay={path}')
        return 1
    if errors:
        for e in errors:
            print('ERROR', e, file=sys.stderr)
        return 2
    print(f'{pid} {tier}: {evals} cases, {nontriv} distinct non-trivial, '
          f"{evidence['wall_s']} s, no violation")
    return 0


def replay(path):
    from vp import core
    env.setup()
    with open(path) as f:
        data = json.load(f)
    mod = load(data['property'])
    family = next(f for f in mod.FAMILIES if f.name == data['family'])
    d = tempfile.mkdtemp(prefix='vp-')
    os.chdir(d)
    try:
        core.run_case(family, data['case'])
    except core.CaseTimeout:
        print(f"VIOLATION property={data['property']} replay={path}")
        return 1
    except Exception as e:
        print(core.describe(e))
        print(f"VIOLATION property={data['property']} replay={path}")
        return 1
    finally:
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)
    print('case passes')
    return 0


def selftest():
    env.setup()
    import hypothesis  # noqa: F401
    with open(os.path.join(VERIF, 'MANIFEST.json')) as f:
        man = json.load(f)
    for c in man['checks']:
        mod = load(c['property'])
        assert mod.FAMILIES, c['property']
    print('harness ready:', len(man['checks']), 'checks')
    return 0


def main():
    cmd = sys.argv[1]
    if cmd == 'worker':
        pid, fam, shard, nshards, seed, tier, budget = sys.argv[2:]
        worker(pid, fam, int(shard), int(nshards), int(seed), tier,
               float(budget))
        return 0
    if cmd == 'check':
        return check(sys.argv[2], sys.argv[3])
    if cmd == 'replay':
        return replay(sys.argv[2])
    if cmd == 'selftest':
        return selftest()
    return 2


if __name__ == '__main__':
    sys.exit(main())
