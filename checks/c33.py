"""C33: defaults fill exactly the missing values."""
from vp.core import Family, check, same, typed_eq
from vp.build import jc, T, graph, camel

KINDS = ['str', 'int', 'bool', 'float', 'list', 'dict', 'obj']
VALS = {'str': ['', 'x', 'yy'], 'int': [0, 4, -1], 'bool': [False, True,
                                                            False],
        'float': [0.0, 1.5, -0.5], 'list': [[], [1], [0]],
        'dict': [{}, {'k': 1}, {'k': 0}], 'obj': [{}, {'v': 0}, {'v': 2}]}
DEFS = {'str': ['d', ''], 'int': [7, 0], 'bool': [True, False],
        'float': [2.5, 0.0], 'list': [[9], []], 'dict': [{'d': 9}, {}],
        'obj': [{'v': 9}, {}]}
HOW = ['none', 'const', 'const', 'call', 'body', 'seed', 'constadd',
       'addconst', 'required', 'nullable']
MARKS = ['', '', '', 'readonly', 'writeonce', 'internal', 'writenonnull',
         'writeonly']
PLACE = ['root', 'obj', 'list', 'dict']


def strategy():
    from hypothesis import strategies as st
    given = st.sampled_from([None, None, 'absent', 'absent', 0, 1, 2])

    @st.composite
    def case(draw):
        fs = []
        for i in range(draw(st.integers(1, 4))):
            fs.append([f'f_{i}', draw(st.sampled_from(KINDS)),
                       draw(st.sampled_from(HOW)), draw(st.integers(0, 1)),
                       draw(st.sampled_from(MARKS))])
        return {'fields': fs, 'place': draw(st.sampled_from(PLACE)),
                'init': [draw(given) for _ in fs],
                'ops': [[draw(st.sampled_from(['set', 'set', 'attr',
                                               'update'])),
                         [draw(given) for _ in fs]]
                        for _ in range(draw(st.integers(0, 3)))],
                'camel': draw(st.booleans())}
    return case()


def run(case):
    t = T()
    g = graph()
    Leaf = jc('Leaf', {'v': t.int}, g)
    fresh = [1000]
    fields, plain = {'seed': t.int}, {}
    info = {}
    for name, kind, how, d, mark in case['fields']:
        c = {'str': lambda: t.str, 'int': lambda: t.int,
             'bool': lambda: t.bool, 'float': lambda: t.float,
             'list': lambda: t.listof(int), 'dict': lambda: t.dictof(int),
             'obj': lambda: t.objof('Leaf')}[kind]()
        dv = DEFS[kind][d]
        if kind == 'obj':
            dv = None
            how = 'callobj' if how in ('const', 'call') else 'none'
        if how in ('seed', 'constadd', 'addconst', 'call') and kind != 'int':
            how = 'const'
        if how == 'body' and kind in ('list', 'dict'):
            how = 'const'
        if mark:
            c = getattr(c, mark)

        def count():
            fresh[0] += 1
            return fresh[0]

        def leaf(d=d):
            return Leaf(v=DEFS['obj'][d].get('v'))
        if how == 'body':
            mark = ''
            ann = {'str': str, 'int': int, 'bool': bool, 'float': float}[kind]
            plain[name] = (ann, dv)
        else:
            fields[name] = {
                'none': lambda: c, 'const': lambda: c.default(dv),
                'call': lambda: c.default(count),
                'callobj': lambda: c.default(leaf),
                'seed': lambda: c.default(t.this.fval('seed')),
                'constadd': lambda: c.default(dv).add(1),
                'addconst': lambda: c.add(1).default(dv),
                'required': lambda: c.default(dv).required,
                'nullable': lambda: c.default(dv).nullable}[how]()
        info[name] = (kind, how, dv, d, mark)
    cls = declare('Def', fields, plain, g)
    R = jc('Root', {'one': t.objof('Def'), 'many': t.listof('Def'),
                    'dic': t.dictof('Def')}, g)

    def model(name, v, absent):
        """Value after input of v (None: null)."""
        kind, how, dv, d, mark = info[name]
        if how == 'body':
            return dv if absent else v
        if kind == 'obj':
            if v is None and how == 'callobj':
                return DEFS['obj'][d]
            return v
        if how == 'constadd':
            return (dv if v is None else v) + 1
        if how == 'addconst':
            return dv if v is None else v + 1
        if v is not None or how == 'none':
            return v
        if how == 'seed':
            return 77
        return 'fresh' if how == 'call' else dv

    def shape(v):
        if isinstance(v, Leaf):
            return {} if v.v is None else {'v': v.v}
        if isinstance(v, list):
            return list(v)
        if isinstance(v, dict):
            return dict(v)
        return v
    data = {}
    names = [f[0] for f in case['fields']]

    def val(name, gv):
        return None if gv is None else VALS[info[name][0]][gv]

    def key(name):
        return camel(name) if case['camel'] else name
    want, used = {}, 0
    for name, gv in zip(names, case['init']):
        mark = info[name][4]
        if gv != 'absent':
            data[key(name)] = val(name, gv)
        absent = gv == 'absent' or mark in ('readonly', 'internal') or (
            mark == 'writenonnull' and gv is None)
        want[name] = model(name, None if absent else val(name, gv), absent)
        used += absent and info[name][1] != 'none'
    data['seed'] = 77
    place = case['place']
    if place == 'root':
        objs = [cls(**data), cls(**data)]
    elif place == 'obj':
        objs = [R(one=data).one, R(one=data).one]
    elif place == 'list':
        objs = list(R(many=[data, data]).many)
    else:
        objs = list(R(dic={'a': data, 'b': data}).dic.values())
    seen = set()

    def compare(o, what):
        for name in names:
            got = shape(getattr(o, name))
            if want[name] == 'fresh':
                check(type(got) is int and got > 1000, what, name, got)
                check(got not in seen, 'default computed once', name, got)
                seen.add(got)
                continue
            check(typed_eq(got, want[name]) or (
                isinstance(got, dict) and got == want[name]),
                what, name, got, 'want', want[name], info[name])
    for o in objs:
        compare(o, 'new object')
    o = objs[0]
    fixed = {n: getattr(o, n) for n in names if want[n] == 'fresh'}
    for n in fixed:
        want[n] = fixed[n]
    for op, gvs in case['ops']:
        inp = {}
        for name, gv in zip(names, gvs):
            if gv == 'absent':
                continue
            v = val(name, gv)
            kind, how, dv, d, mark = info[name]
            if op != 'set':
                if kind == 'obj' and v is not None:
                    v = Leaf(**v)
                inp[name] = v
                want[name] = shape(v)
                continue
            inp[key(name)] = v
            if mark in ('readonly', 'internal') or (
                    mark == 'writeonce' and want[name] is not None) or (
                    mark == 'writenonnull' and v is None):
                continue
            want[name] = model(name, v, False)
            if want[name] == {} and kind == 'obj':
                want[name] = {}
            used += v is None and how not in ('none', 'body')
        if op == 'set':
            o.set(**inp)
        elif op == 'update':
            o.update(**inp)
        else:
            for k2, v in inp.items():
                setattr(o, k2, v)
        compare(o, op)
        for n in names:
            if want[n] == 'fresh':
                want[n] = getattr(o, n)
    compare2 = {n: want[n] for n in names}
    same({n: shape(getattr(o, n)) for n in names}, compare2, 'end')
    return used > 0


def declare(name, fields, plain, g):
    from typing import Any
    from jsonclasses import jsonclass
    ns = {'__annotations__': {}, '__module__': __name__}
    for k, v in fields.items():
        ns['__annotations__'][k] = Any
        ns[k] = v
    for k, (ann, d) in plain.items():
        ns['__annotations__'][k] = ann
        ns[k] = d
    return jsonclass(class_graph=g)(type(name, (), ns))


FAMILIES = [
    Family('defaults', strategy, run, 'some default is used', quick=2400,
           thorough=60000, shards=3, tshards=8)]
