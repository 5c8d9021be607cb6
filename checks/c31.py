"""C31: calculated fields always show the current state and store nothing."""
from vp.core import Family, Violation, check, same
from vp.build import jc, T, graph, vexc, camel

KINDS = ['sum', 'full', 'chainmul', 'chainat', 'chainadd', 'count', 'sub',
         'setsum', 'setchain', 'overcalc', 'obj', 'chainval']
OPS = ['attr', 'attr', 'set', 'update', 'append', 'item', 'setcalc',
       'updcalc', 'setro', 'inputcalc', 'clean', 'subattr', 'read']


def strategy():
    from hypothesis import strategies as st
    op = st.tuples(st.sampled_from(OPS), st.integers(0, 10),
                   st.integers(-9, 9)).map(list)
    return st.fixed_dictionaries({
        'kinds': st.lists(st.sampled_from(KINDS), min_size=1, max_size=5,
                          unique=True),
        'start': st.tuples(st.integers(-5, 5), st.integers(-5, 5)).map(list),
        'ops': st.lists(op, min_size=1, max_size=10),
        'lim': st.booleans(), 'inh': st.sampled_from(['', '', 'sub', 'base', 'deep', 'both']), 'null': st.booleans()})


def run(case):
    t = T()
    g = graph()
    Sub = jc('Sub', {'v': t.int}, g)
    base = {'aa': t.int, 'b_b': t.int, 'name': t.str, 'xs': t.listof(int),
            'sub': t.objof('Sub')}

    def setsum(v, o):
        o.aa = 7 if v is None else v - (o.b_b or 0)
    chains = {
        'sum': lambda: t.int.getter(lambda o: o.aa + o.b_b),
        'full': lambda: t.str.getter(lambda o: f'{o.name}!'),
        'chainmul': lambda: t.int.getter(t.this.fval('aa').mul(2)),
        'chainat': lambda: t.str.getter(
            t.this.fval('name').split(' ').at(0)),
        'chainadd': lambda: t.int.getter(
            t.this.fval('aa').add(t.this.fval('b_b'))),
        'count': lambda: t.int.getter(lambda o: len(o.xs)),
        'sub': lambda: t.int.getter(lambda o: o.sub.v),
        'setsum': lambda: t.int.getter(lambda o: o.aa + o.b_b).setter(setsum),
        'setchain': lambda: t.int.getter(t.this.fval('b_b').add(1)).setter(
            t.this.assign('b_b', t.passin.sub(1))),
        'overcalc': lambda: t.int.getter(lambda o: o.c_chainmul + 1
                                         if 'chainmul' in kinds
                                         else o.aa + 1),
        'chainval': lambda: t.int.getter(t.fval('aa')),
        'obj': lambda: t.listof(int).getter(lambda o: [o.aa, o.b_b])}
    kinds = case['kinds']
    calc = {'c_' + k: chains[k]() for k in kinds}
    if case['lim'] and 'sum' in kinds:
        calc['c_sum'] = calc['c_sum'].max(5)
    conf = dict(output_null=case['null'])
    if case['inh']:
        inh = case['inh']
        half = dict(list(calc.items())[::2])
        rest = {k: v for k, v in calc.items() if k not in half}
        B = jc('Base', {'sub': base, 'both': {**base, **half}}.get(
            inh, {**base, **calc}), g, **conf)
        if inh == 'deep':
            B = jc('Mid', {'y': t.int}, g, bases=(B,), **conf)
        cls = jc('Calc', {'sub': calc, 'both': rest}.get(inh, {'z': t.int}),
                 g, bases=(B,), **conf)
    else:
        cls = jc('Calc', {**base, **calc}, g, **conf)
    a, b = case['start']
    m = {'aa': a, 'b_b': b, 'name': 'x y', 'xs': [1], 'sub': 3}
    o = cls(aa=a, b_b=b, name='x y', xs=[1], sub={'v': 3})
    other = cls(aa=100, b_b=1, name='q r', xs=[], sub={'v': 0})
    fns = {'sum': lambda: m['aa'] + m['b_b'],
           'full': lambda: m['name'] + '!',
           'chainmul': lambda: m['aa'] * 2,
           'chainat': lambda: m['name'].split(' ')[0],
           'chainadd': lambda: m['aa'] + m['b_b'],
           'count': lambda: len(m['xs']), 'sub': lambda: m['sub'],
           'setsum': lambda: m['aa'] + m['b_b'],
           'setchain': lambda: m['b_b'] + 1,
           'overcalc': lambda: m['aa'] * 2 + 1 if 'chainmul' in kinds
           else m['aa'] + 1, 'obj': lambda: [m['aa'], m['b_b']],
           'chainval': lambda: m['aa']}
    stored = False
    dirty = set()
    changes = 0

    def put(f, v, setter):
        nonlocal changes
        if m[f] != v:
            dirty.add(f)
            changes += 1
        m[f] = v
        setter()
    for n, (op, w, v) in enumerate(case['ops']):
        f = ['aa', 'b_b', 'name'][w % 3]
        val = f'n{v} {n}' if f == 'name' else v
        k = kinds[w % len(kinds)]
        if op == 'attr':
            put(f, val, lambda: setattr(o, f, val))
        elif op == 'set':
            put(f, val, lambda: o.set(**{f: val}))
        elif op == 'update':
            put(f, val, lambda: o.update(**{f: val}))
        elif op == 'append':
            m['xs'].append(v)
            dirty.add('xs')
            o.xs.append(v)
            changes += 1
        elif op == 'item':
            if m['xs']:
                m['xs'].pop()
                o.xs.pop()
                dirty.add('xs')
                changes += 1
        elif op == 'subattr':
            m['sub'] = v
            o.sub.v = v
            changes += 1
        elif op in ('setcalc', 'updcalc'):
            if k not in ('setsum', 'setchain'):
                continue

            if k == 'setsum' and w % 4 == 3:
                v = None    # the setter decides what null means

            def go():
                if op == 'setcalc':
                    setattr(o, 'c_' + k, v)
                else:
                    o.update(**{'c_' + k: v})
            if k == 'setsum':
                put('aa', 7 if v is None else v - m['b_b'], go)
            else:
                put('b_b', v - 1, go)
            if v is not None:
                same(getattr(o, 'c_' + k), v, 'after its setter')
        elif op == 'setro':
            if k in ('setsum', 'setchain'):
                continue
            try:
                setattr(o, 'c_' + k, 1)
            except Exception:  # noqa
                pass
            else:
                raise Violation('wrote a field without setter', k)
        elif op == 'inputcalc':
            # input for a calculated field is ignored
            o.set(**{camel('c_' + k) if v % 2 else 'c_' + k: fns[k]()})
        elif op == 'clean':
            o._mark_unmodified()
            stored = True
            dirty.clear()
        for x in kinds:
            same(getattr(o, 'c_' + x), fns[x](), 'value of', x)
        js = o.tojson()
        for x in kinds:
            same(js[camel('c_' + x)], fns[x](), 'output of', x)
        for x in ('aa', 'b_b', 'name', 'xs'):
            same(getattr(o, x), m[x], 'field', x)
        if stored:
            same(set(o.modified_fields), dirty, 'modified')
            check(o.is_modified is bool(dirty), 'is_modified')
        same(other.aa, 100, 'other object')
        if 'sum' in kinds:
            same(other.c_sum, 101, 'calculated field of the other object')
        bad = case['lim'] and 'sum' in kinds and fns['sum']() > 5
        try:
            o.validate(all_fields=True)
            check(not bad, 'calculated value not validated')
        except vexc() as e:
            check(bad, 'refused', e.keypath_messages)
            same(list(e.keypath_messages), ['cSum'], 'path')
    return changes > 0


FAMILIES = [
    Family('current', strategy, run, 'some underlying value changed',
           quick=2400, thorough=60000, shards=3, tshards=8)]
