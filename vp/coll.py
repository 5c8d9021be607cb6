"""Histories of attribute, list and dict operations on one object, mirrored
on built-in containers."""
import copy
from vp.core import Violation, check, same, typed_eq
from vp.build import jc, T, graph

FIELDS = ['n', 's', 'l', 'd', 'll', 'dl', 'ld', 'dd', 'an', 'tn', 'tl']
TEMP = ('tn', 'tl')
LISTOPS = ['append', 'extend', 'extendgen', 'insert', 'remove', 'pop', 'popi',
           'clear', 'sort', 'rsort', 'reverse', 'iadd', 'iaddgen', 'imul',
           'seti', 'setslice', 'setstep', 'deli', 'delslice', 'read', 'read']
DICTOPS = ['setk', 'setk', 'delk', 'pop', 'popd', 'popn', 'popitem', 'setdefault',
           'setdefault1', 'update', 'updatepairs', 'updatekw', 'ior', 'clear',
           'iorpairs', 'read', 'read']


def strategy(extra=()):
    from hypothesis import strategies as st
    small = st.integers(0, 3)
    keys = st.sampled_from(['a', 'b', 'a_b', 'x.y', 'K'])
    leaf = st.one_of(small, small, small,
                     st.lists(small, max_size=2),
                     st.dictionaries(keys, small, max_size=2))
    deep = st.one_of(leaf, st.lists(leaf, max_size=2),
                     st.dictionaries(keys, leaf, max_size=2))
    ints = st.lists(small, max_size=4)
    byfield = {
        'n': small, 's': st.sampled_from(['', 'x', 'yy']), 'l': ints,
        'd': st.dictionaries(keys, small, max_size=3),
        'll': st.lists(ints, max_size=3),
        'dl': st.dictionaries(keys, ints, max_size=3),
        'ld': st.lists(st.dictionaries(keys, small, max_size=2), max_size=3),
        'dd': st.dictionaries(keys, st.dictionaries(keys, small, max_size=2),
                              max_size=2),
        'an': deep, 'tn': small, 'tl': ints}

    @st.composite
    def op(draw):
        k = draw(st.sampled_from(
            ['col'] * 10 + ['assign', 'assign', 'set', 'update', 'clean',
                            'same'] + list(extra)))
        if k == 'col':
            return [k, draw(st.integers(0, 30)), draw(st.integers(0, 40)),
                    draw(st.integers(-4, 5)), draw(st.integers(-4, 5)),
                    draw(keys), draw(deep),
                    draw(st.lists(leaf, max_size=3))]
        if k in ('assign', 'set', 'update'):
            f = draw(st.sampled_from(FIELDS))
            v = draw(st.one_of(byfield[f], byfield[f], byfield[f],
                               st.none()))
            return [k, f, v]
        if k == 'same':
            return [k, draw(st.sampled_from(FIELDS))]
        return [k]

    @st.composite
    def case(draw):
        init = {f: draw(byfield[f]) for f in draw(st.lists(
            st.sampled_from(FIELDS), unique=True, max_size=8))}
        return {'init': init, 'new': draw(st.integers(0, 5)) == 0,
                'ops': draw(st.lists(op(), min_size=1, max_size=14))}
    return case()


_cls = {}


def cls_for(reset):
    if reset not in _cls:
        t = T()
        _cls[reset] = jc('Col', {
            'n': t.int, 's': t.str, 'l': t.listof(int), 'd': t.dictof(int),
            'll': t.listof(t.listof(int)), 'dl': t.dictof(t.listof(int)),
            'ld': t.listof(t.dictof(int)), 'dd': t.dictof(t.dictof(int)),
            'an': t.any, 'tn': t.int.temp, 'tl': t.listof(int).temp},
            graph(), reset_all_fields=reset)
    return _cls[reset]


def containers(v, path):
    if isinstance(v, list):
        yield path, v
        for i, x in enumerate(v):
            yield from containers(x, path + [i])
    elif isinstance(v, dict):
        yield path, v
        for k, x in v.items():
            yield from containers(x, path + [k])


def plain(v):
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def attempt(fn):
    try:
        return 'ok', fn()
    except (IndexError, KeyError, ValueError, TypeError) as e:
        return 'exc', type(e).__name__


def list_op(name, c, a, b, val, vals, real):
    """Run one list operation; the model copies what it is given."""
    v = val if real else copy.deepcopy(val)
    vs = vals if real else copy.deepcopy(vals)
    if name == 'append':
        return attempt(lambda: c.append(v))
    if name == 'extend':
        return attempt(lambda: c.extend(vs))
    if name == 'extendgen':
        return attempt(lambda: c.extend(x for x in vs))
    if name == 'insert':
        return attempt(lambda: c.insert(a, v))
    if name == 'remove':
        return attempt(lambda: c.remove(v))
    if name == 'pop':
        return attempt(lambda: plain(c.pop()))
    if name == 'popi':
        return attempt(lambda: plain(c.pop(a)))
    if name == 'clear':
        return attempt(lambda: c.clear())
    if name in ('sort', 'rsort'):
        if not all(type(x) is int for x in c):
            return 'skip', None
        return attempt(lambda: c.sort() if name == 'sort' else
                       c.sort(key=lambda x: -x))
    if name == 'reverse':
        return attempt(lambda: c.reverse())
    if name in ('iadd', 'iaddgen'):
        def iadd():
            d = c
            d += vs if name == 'iadd' else (x for x in vs)
            check(d is c, '+= yields another list')
        return attempt(iadd)
    if name == 'imul':
        n = [0, 1, 2, 3, 4, -1][abs(a)]
        if real:
            def imul():
                d = c
                d *= n
                check(d is c, '*= yields another list')
            return attempt(imul)
        c[:] = [copy.deepcopy(x) for _ in range(max(n, 0)) for x in c]
        return 'ok', None
    if name == 'seti':
        return attempt(lambda: c.__setitem__(a, v))
    if name == 'setslice':
        return attempt(lambda: c.__setitem__(slice(a, b), vs))
    if name == 'setstep':
        step = -1 if val in (0, 1) else 2
        sl = slice(a, b, step)
        n = len(range(*sl.indices(len(c))))
        w = (vs * 4 + [9] * 9)[:n]
        if not real:    # an item given twice is kept as two
            w = [copy.deepcopy(x) for x in w]
        return attempt(lambda: c.__setitem__(sl, w))
    if name == 'deli':
        return attempt(lambda: c.__delitem__(a))
    if name == 'delslice':
        return attempt(lambda: c.__delitem__(slice(a, b)))
    return attempt(lambda: (len(c), plain(c[a:b]), v in c, c == [v],
                            plain(c + [1]), plain(c.copy()), c.count(v),
                            [plain(x) for x in c],
                            [plain(x) for x in reversed(c)],
                            plain(c[a])))


def dict_op(name, c, k, val, vals, real):
    v = val if real else copy.deepcopy(val)
    m = {kk: x for kk, x in zip(['a', 'b', k], vals)}
    if not real:
        m = copy.deepcopy(m)
    if name == 'setk':
        return attempt(lambda: c.__setitem__(k, v))
    if name == 'delk':
        return attempt(lambda: c.__delitem__(k))
    if name == 'pop':
        return attempt(lambda: plain(c.pop(k)))
    if name == 'popd':
        return attempt(lambda: plain(c.pop(k, 'dd')))
    if name == 'popn':
        return attempt(lambda: plain(c.pop(k, None)))
    if name == 'popitem':
        return attempt(lambda: plain(list(c.popitem())))
    if name == 'setdefault':
        return attempt(lambda: plain(c.setdefault(k, v)))
    if name == 'setdefault1':
        return attempt(lambda: plain(c.setdefault(k)))
    if name == 'update':
        return attempt(lambda: c.update(m))
    if name == 'updatepairs':
        return attempt(lambda: c.update((x, y) for x, y in m.items()))
    if name == 'updatekw':
        kw = {x: y for x, y in m.items() if x.isidentifier()}
        return attempt(lambda: c.update(**kw))
    if name in ('ior', 'iorpairs'):
        def ior():
            d = c
            d |= m if name == 'ior' else list(m.items())
            check(d is c, '|= yields another dict')
        return attempt(ior)
    if name == 'clear':
        return attempt(lambda: c.clear())
    return attempt(lambda: (len(c), k in c, plain(c.get(k)), list(c),
                            plain(list(c.values())), plain(dict(c)),
                            c == {k: v}, plain(c.copy()), plain(c[k])))


def resolve(root, path):
    for p in path:
        root = root[p]
    return root


def run(case, reset, hooks):
    """hooks(obj, st) after every step; st holds the model."""
    Col = cls_for(reset)
    obj = Col(**copy.deepcopy(case['init']))
    st = {'model': {f: None for f in FIELDS}, 'clean': None, 'new': True,
          'touched': set(), 'paths': set(), 'shifted': set(), 'muts': 0,
          'resets': 0}
    st['model'].update(copy.deepcopy(case['init']))
    model = st['model']

    def clean():
        obj._mark_unmodified()
        st.update(clean=copy.deepcopy(model), new=False, touched=set(),
                  paths=set())
    hooks(obj, st, 'init')
    if not case['new']:
        clean()
    for op in case['ops']:
        kind = op[0]
        if kind == 'col':
            targets = [([f] + p, c) for f in FIELDS
                       for p, c in containers(model[f], [])]
            if not targets:
                continue
            path, m = targets[op[1] % len(targets)]
            real = resolve(getattr(obj, path[0]), path[1:])
            if isinstance(m, list):
                name = LISTOPS[op[2] % len(LISTOPS)]
                args = (op[3], op[4], op[6], op[7])
                fn = list_op
            else:
                name = DICTOPS[op[2] % len(DICTOPS)]
                args = (op[5], op[6], op[7])
                fn = dict_op
            before = copy.deepcopy(m)
            given = copy.deepcopy(op)
            want = fn(name, m, *args, False)
            if want[0] == 'skip':
                continue
            got = fn(name, real, *args, True)
            st['last'] = (path, name, before, plain(args))
            if hooks.results:
                same(got, want, f'{name} on {before!r} with {args!r}')
            same(op, given, 'the argument was changed')
            if name != 'read':
                st['touched'].add(path[0])
                if not typed_eq(before, m):
                    st['muts'] += 1
                    if path[0] not in st['shifted']:
                        st['paths'].add('.'.join(map(str, path)))
                if isinstance(m, list) and name not in ('append',):
                    st['shifted'].add(path[0])
        elif kind in ('assign', 'set', 'update'):
            f, v = op[1], op[2]
            if kind == 'assign':
                setattr(obj, f, v)
            elif kind == 'set':
                obj.set(**{f: v})
            else:
                obj.update(**{f: v})
            st['touched'].add(f)
            if model[f] != v:
                st['muts'] += 1
                st['shifted'].discard(f)
                st['paths'] = {p for p in st['paths']
                               if p.split('.')[0] != f} | {f}
                model[f] = copy.deepcopy(v)
        elif kind == 'same':
            f = op[1]
            setattr(obj, f, copy.deepcopy(model[f]))
        elif kind == 'clean':
            clean()
        elif kind == 'reset':
            hooks.reset(obj, st)
        hooks(obj, st, op)
        for f in FIELDS:
            same(plain(getattr(obj, f)), model[f], f, 'after', op,
                 st.get('last') if kind == 'col' else '')
    return st
