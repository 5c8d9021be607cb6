"""C32: operator assignment puts the acting operator on new objects only."""
from vp.core import Family, check, same
from vp.build import jc, T, graph, vexc

OPS = ['opby', 'opby', 'opnone', 'save', 'validate', 'clear', 'assign',
       'note', 'input']


def strategy():
    from hypothesis import strategies as st
    op = st.tuples(st.sampled_from(OPS), st.integers(0, 3),
                   st.integers(0, 3)).map(list)
    return st.fixed_dictionaries({
        'kinds': st.lists(st.sampled_from(['asopd', 'asop1', 'asop2',
                                           'plain']),
                          min_size=1, max_size=4),
        'ops': st.lists(op, min_size=1, max_size=9),
        'nested': st.booleans()})


def run(case):
    t = T()
    g = graph()
    Usr = jc('Usr', {'id': t.str.primary, 'name': t.str,
                     'boss': t.objof('Usr').linkto,
                     'staff': t.listof('Usr').linkedby('boss')}, g)
    fields = {'id': t.str.primary, 'note': t.str,
              'deputy': t.objof('Usr').linkto}
    calls = []

    def boss(op):
        calls.append(op)
        return op.boss

    def deputy(op, obj):
        calls.append(op)
        return obj.deputy if obj.deputy is not None else op
    for i, k in enumerate(case['kinds']):
        c = t.objof('Usr').linkto
        fields[f'by{i}'] = {'asopd': lambda: c.asopd,
                            'asop1': lambda: c.asop(boss),
                            'asop2': lambda: c.asop(deputy),
                            'plain': lambda: c}[k]()
    Doc = jc('Doc', fields, g)
    written = []
    Doc._database_write = lambda self: written.append(self)
    users = [Usr(id=f'u{i}', name=f'n{i}') for i in range(4)]
    for i, u in enumerate(users):
        u.boss = users[(i + 1) % 4]
    dep = Usr(id='dep')
    o = Doc(id='d1', note='x')
    o.deputy = dep if case['nested'] else None
    twin = Doc(id='d2')
    m = {f'by{i}': None for i in range(len(case['kinds']))}
    operator, new, dirty = None, True, set()
    assigned = 0

    def missing():
        return sorted(f'by{i}' for i, k in enumerate(case['kinds'])
                      if k != 'plain' and m[f'by{i}'] is None
                      and (new or f'by{i}' in dirty))
    for n, (op, w, x) in enumerate(case['ops']):
        f = f'by{x % len(case["kinds"])}'
        if op == 'opby':
            operator = users[w]
            got = o.opby(operator)
            check(got is o, 'opby returns the object')
            if new:
                for i, k in enumerate(case['kinds']):
                    if k == 'asopd':
                        m[f'by{i}'] = operator.id
                    elif k == 'asop1':
                        m[f'by{i}'] = users[(w + 1) % 4].id
                    elif k == 'asop2':
                        m[f'by{i}'] = 'dep' if case['nested'] \
                            else operator.id
                assigned += 1
        elif op == 'opnone':
            operator = None
            o.opby(None)
        elif op == 'clear':
            if m[f] is not None and not new:
                dirty.add(f)
            m[f] = None
            setattr(o, f + '_id', None)
        elif op == 'assign':
            u = users[w]
            if m[f] != u.id:
                if not new:
                    dirty.add(f)
                setattr(o, f, u)
            m[f] = u.id
        elif op == 'note':
            o.note = f'n{n}'
        elif op == 'input':
            o.set(note=f'i{n}')
        elif op == 'validate':
            try:
                o.validate(all_fields=True)
                got = []
            except vexc() as e:
                got = sorted(e.keypath_messages)
            same(got, missing(), 'missing operators')
        elif op == 'save':
            del written[:]
            bad = missing()
            try:
                o.save()
            except vexc() as e:
                check(bad, 'refused', e.keypath_messages)
                check(set(e.keypath_messages) <= set(bad), 'reported',
                      e.keypath_messages, bad)
                check(not written, 'written without operator')
            else:
                check(not bad, 'saved without operator', bad)
                same(len(written), 1, 'written')
                o._mark_unmodified()
                new = False
                dirty.clear()
        for i in range(len(case['kinds'])):
            same(getattr(o, f'by{i}_id'), m[f'by{i}'], f'by{i}', 'after', op)
        check(o._operator is operator, 'operator')
        check(twin._operator is None, 'operator of another object')
        for i in range(len(case['kinds'])):
            check(getattr(twin, f'by{i}_id') is None, 'another object')
    return assigned > 0 and set(case['kinds']) != {'plain'}


FAMILIES = [
    Family('operator', strategy, run, 'an operator acts on a new object with '
           'operator fields', quick=2400, thorough=60000, shards=3,
           tshards=8)]
