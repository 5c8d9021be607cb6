"""C15: one object per class and primary key in every connected graph."""
from vp.core import Family, Violation, check, same
from vp.build import jc, T, graph, camel
from vp import rel

KEYS = ['k0', 'k1', 'k2', 'K1']
INTS = {'k0': 0, 'k1': 1, 'k2': 2, 'K1': 3}
SCALARS = ['name', 'alt', 'boss_id']


# --- input: objects repeated by primary key ---------------------------------
def input_strategy():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        used = set()

        def node(cls, depth):
            d = {'c': cls, 'pk': draw(st.sampled_from([None] + KEYS)),
                 'sp': draw(st.booleans())}
            if draw(st.booleans()):
                d['name'] = draw(st.sampled_from(['p', 'q', 'r']))
            if draw(st.integers(0, 2)) == 0:
                d['alt'] = draw(st.integers(0, 2))
            if draw(st.integers(0, 2)) == 0:
                d['boss_id'] = draw(st.sampled_from(['b0', 'b1']))
            again = d['pk'] is not None and (cls, d['pk']) in used
            if d['pk'] is not None:
                used.add((cls, d['pk']))
            if again or depth == 0:
                return d
            for f in draw(st.lists(st.sampled_from(
                    ['one', 'many', 'table', 'other']), unique=True,
                    max_size=3)):
                to = 'M' if (f == 'other') == (cls == 'N') else 'N'
                if f == 'many':
                    d[f] = [node(to, depth - 1)
                            for _ in range(draw(st.integers(0, 3)))]
                elif f == 'table':
                    d[f] = {k: node(to, depth - 1)
                            for k in ['x', 'y'][:draw(st.integers(0, 2))]}
                else:
                    d[f] = node(to, depth - 1)
            return d
        return {'root': node('N', 3), 'int': draw(st.booleans()),
                'how': draw(st.sampled_from(['init', 'set']))}
    return case()


_icls = {}


def icls(ints):
    if ints not in _icls:
        t = T()
        g = graph()

        def fields(me, it):
            return {'obj_key': (t.int if ints else t.str).primary,
                    'name': t.str, 'alt': t.int,
                    'boss': t.objof('Boss').linkto,
                    'one': t.objof(me), 'many': t.listof(me),
                    'table': t.dictof(me), 'other': t.objof(it)}
        jc('Boss', {'id': t.str.primary}, g)
        _icls[ints] = {'N': jc('Nn', fields('Nn', 'Mm'), g),
                       'M': jc('Mm', fields('Mm', 'Nn'), g)}
    return _icls[ints]


def run_input(case):
    ints = case['int']
    cs = icls(ints)
    where = {}       # (cls, pk) -> list of (path, name given)
    order = {}

    def data(d):
        out = {}
        if d['pk'] is not None:
            k = INTS[d['pk']] if ints else d['pk']
            out['obj_key' if d['sp'] else 'objKey'] = k
        if 'name' in d:
            out['name'] = d['name']
        if 'alt' in d:
            out['alt'] = d['alt']
        if 'boss_id' in d:
            out['boss_id' if d['sp'] else 'bossId'] = d['boss_id']
        for f in ('one', 'other'):
            if f in d:
                out[f] = data(d[f])
        if 'many' in d:
            out['many'] = [data(x) for x in d['many']]
        if 'table' in d:
            out['table'] = {k: data(x) for k, x in d['table'].items()}
        return out
    inp = data(case['root'])
    if case['how'] == 'init':
        root = cs['N'](**inp)
    else:
        root = cs['N']()
        root.set(**inp)
    table = {}
    names = {}
    ids = set()
    repeats = [0]

    # which occurrence carries nested data is the first in input text order;
    # the code may see another one first, so identity is judged by key only
    def walk(d, o, path):
        check(type(o) is cs[d['c']], path, 'is', o)
        if d['pk'] is None:
            check(id(o) not in ids, path, 'is an object seen elsewhere')
            ids.add(id(o))
            for f in SCALARS:
                same(getattr(o, f), d.get(f), path, f)
        else:
            k = (d['c'], d['pk'])
            if k in table:
                repeats[0] += 1
                check(table[k] is o, path, 'is another object than the other',
                      k)
            else:
                check(id(o) not in ids, path, 'is an object seen elsewhere')
                table[k] = o
                ids.add(id(o))
            same(o.obj_key, INTS[d['pk']] if ints else d['pk'], path,
                 'key')
            for f in SCALARS:
                if f in d:
                    names.setdefault((k, f), set()).add(d[f])
        for f in ('one', 'other'):
            if f in d:
                walk(d[f], getattr(o, f), f'{path}.{f}')
        if 'many' in d:
            same(len(o.many), len(d['many']), path, 'many')
            for i, x in enumerate(d['many']):
                walk(x, o.many[i], f'{path}.many.{i}')
        if 'table' in d:
            same(set(o.table), set(d['table']), path, 'table')
            for k2, x in d['table'].items():
                walk(x, o.table[k2], f'{path}.table.{k2}')
    walk(case['root'], root, 'root')
    for k, o in table.items():
        for f in SCALARS:
            want = names.get((k, f), {None})
            check(getattr(o, f) in want, k, f, getattr(o, f),
                  'want one of', want)
    return repeats[0] > 0


# --- linking objects that stand for the same thing --------------------------
def link_strategy():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        kind = draw(st.sampled_from(sorted(rel.KINDS)))
        objs = draw(st.lists(st.tuples(
            st.integers(0, 1), st.integers(0, 4)), min_size=3, max_size=7))
        ops = draw(st.lists(st.tuples(
            st.integers(0, 6), st.integers(0, 6), st.integers(0, 3),
            st.booleans()), min_size=1, max_size=10))
        return {'kind': kind, 'objs': [list(o) for o in objs],
                'ops': [list(o) for o in ops]}
    return case()


def run_link(case):
    from jsonclasses.excs import JSONClassGraphMergeConflictException as Conf
    A, B = rel.classes(case["kind"])[:2]
    fa, fb = rel.KINDS[case['kind']]
    objs, sides = [], []
    for s, k in case['objs']:
        if fb is None:
            s = 0
        objs.append((A, B)[s](id=f'k{k}'))
        sides.append(s)
    comp = list(range(len(objs)))

    def members(i):
        return [j for j in range(len(objs)) if comp[j] == comp[i]]

    def key(i):
        return type(objs[i]).__name__, objs[i].id
    links = 0
    for x, y, f, drop in case['ops']:
        i = x % len(objs)
        fs = fa if sides[i] == 0 else fb
        name, card, back, _ = fs[f % len(fs)]
        cand = [j for j in range(len(objs))
                if j != i and (fb is None or sides[j] != sides[i])]
        if not cand:
            continue
        j = cand[y % len(cand)]
        o, p = objs[i], objs[j]
        if drop:
            # unlinking never splits or conflicts
            if card == 'one':
                setattr(o, name, None)
            elif isinstance(getattr(o, name), list) and getattr(o, name):
                getattr(o, name).pop()
            continue
        cur = getattr(o, name)
        if card == 'many' and isinstance(cur, list) and any(
                v is p for v in cur):
            continue
        mi = {key(m): m for m in members(i)}
        conflict = comp[i] != comp[j] and any(
            mi.get(key(m), m) != m for m in members(j))
        if comp[i] != comp[j] and key(i) == key(j):
            conflict = True
        try:
            if card == 'one':
                setattr(o, name, p)
            elif isinstance(cur, list):
                cur.append(p)
            else:
                setattr(o, name, [p])
        except Conf:
            check(conflict, f'linking {i}.{name} to {j} reported a conflict',
                  'among', [key(m) for m in members(i) + members(j)])
            return 'conflict'
        check(not conflict, f'{i}.{name} linked to {j}: two objects for one',
              'key in', [key(m) for m in members(i) + members(j)])
        old = comp[j]
        for m in range(len(objs)):
            if comp[m] == old:
                comp[m] = comp[i]
        links += 1
    return 'linked' if links > 1 else False


FAMILIES = [
    Family('input', input_strategy, run_input,
           'some object is repeated by primary key', quick=1500,
           thorough=30000, shards=2, tshards=4),
    Family('link', link_strategy, run_link,
           'two links or a conflict', quick=2500, thorough=50000, shards=2,
           tshards=4)]
