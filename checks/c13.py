"""C13: both sides of a relationship always agree."""
from vp import rel
from vp.core import Family, check


def after(w, i, f, op):
    for x, o in enumerate(w.objs):
        pools = o.unlinked_objects
        for h in w.fields(x):
            got = [w.idx[id(y)] for y in pools.get(h[0]) or []]
            check(len(set(got)) == len(got), 'unlinked twice', got)
            check(set(got) == w.pool[x][h[0]], f'{x}.{h[0]} unlinked', got,
                  'want', w.pool[x][h[0]], 'after', op)


def run(case):
    w = rel.run(case, after)
    lab = case['kind'] + (',steal' if w.steals else '') + (
        '' if w.ids else ',alike')
    return lab if w.muts >= 2 else False


# --- nested input -----------------------------------------------------------
def input_strategy():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        kind = draw(st.sampled_from(sorted(rel.KINDS)))
        fa, fb = rel.KINDS[kind]
        n = [0]
        ids = kind == 'lk' or draw(st.booleans())

        def node(side, depth, via):
            d = {'s': side, 'sp': draw(st.booleans())}
            if ids:
                d['id'] = f'n{n[0]}'
                n[0] += 1
            if depth == 0:
                return d
            for f in (fa if side == 0 else fb):
                if f[0] == via:
                    # the side the parent fills; giving it a one-reference
                    # as well would contradict the nesting
                    if f[1] == 'one':
                        continue
                if not draw(st.booleans()):
                    continue
                to = 0 if fb is None else 1 - side
                if f[1] == 'one':
                    d[f[0]] = node(to, depth - 1, f[2])
                else:
                    d[f[0]] = [node(to, depth - 1, f[2]) for _ in range(
                        draw(st.integers(0, 3)))]
            return d
        side = 0 if fb is None else draw(st.integers(0, 1))
        ops = [node(side, 3, None)]
        for _ in range(draw(st.integers(0, 2))):
            ops.append(node(side, 2, None))
        return {'kind': kind, 'steps': ops}
    return case()


def run_input(case):
    A, B = rel.classes(case["kind"])[:2]
    fa, fb = rel.KINDS[case['kind']]
    count = [0]

    def fields(d):
        return fa if d['s'] == 0 else fb

    def data(d):
        out = {k: d[k] for k in ('id',) if k in d}
        count[0] += 1
        for f in fields(d):
            if f[0] in d:
                v = d[f[0]]
                out[f[0]] = data(v) if f[1] == 'one' else [data(x) for x in v]
        return out

    def linked(o, f, p, what):
        v = getattr(o, f)
        if isinstance(v, list):
            n = sum(x is p for x in v)
            check(n == 1, what, 'linked back', n, 'times')
        else:
            check(v is p, what, 'not linked back')

    def walk(d, o, path, via=None):
        for f in fields(d):
            if f[0] not in d:
                continue
            v = getattr(o, f[0])
            if f[1] == 'one':
                check(v is not None, path, f[0], 'missing')
                walk(d[f[0]], v, f'{path}.{f[0]}', f[2])
                continue
            want = d[f[0]]
            got = list(v)
            check(len(got) >= len(want), path, f[0], 'lost items')
            if 'id' in d:
                gi = [x.id for x in got]
                wi = [x['id'] for x in want]
                check([k for k in gi if k in wi] == wi, path, f[0], gi, wi)
                got = [x for x in got if x.id in wi]
            elif f[0] == via:
                continue
            for i, x in enumerate(want):
                walk(x, got[i], f'{path}.{f[0]}.{i}', f[2])

    def symmetric(o, path, seen):
        if id(o) in seen:
            return
        seen[id(o)] = o
        for f in (fa if isinstance(o, A) else fb):
            v = getattr(o, f[0])
            for x in v if isinstance(v, list) else [] if v is None else [v]:
                linked(x, f[2], o, f'{path}.{f[0]}')
                symmetric(x, f'{path}.{f[0]}', seen)
    root = None
    olds = {}
    for d in case['steps']:
        # a later step replaces what it names, on the same object
        if root is None:
            root = (A if d['s'] == 0 else B)(**data(d))
        else:
            inp = data({k: v for k, v in d.items() if k != 'id'})
            symmetric(root, 'old', olds)
            root.set(**inp)
        if root is not None and len(case['steps']) == 1:
            walk(d, root, 'root')
        symmetric(root, 'root', {})
        for o in list(olds.values()):
            symmetric(o, 'old', {})
    return count[0] > 2


FAMILIES = [
    Family('input', input_strategy, run_input,
           'more than two objects in the input', quick=1500, thorough=30000,
           shards=2, tshards=4),
    Family('history', lambda: rel.strategy(alike=True), run,
           'at least two operations change links', quick=3000,
           thorough=60000, shards=4, tshards=8)]
