"""C30: pick and omit restrict the output to the chosen fields only."""
from vp.core import Family, check, same
from vp.build import jc, T, graph, camel

F = ['aa', 'first_name', 'tag_list', 'sub', 'subs', 'owner', 'owners',
     'secret', 'temp_x', 'calc_v', 'kids']
KEY = {'owner': 'owner_id', 'owners': 'owner_ids'}


def strategy():
    from hypothesis import strategies as st
    sel = st.lists(st.sampled_from(F), max_size=6)
    steps = st.lists(st.tuples(st.sampled_from(['pick', 'omit', 'omit']),
                               sel).map(list), max_size=4)
    return st.fixed_dictionaries({
        'steps': steps, 'other': steps, 'inner': st.lists(st.tuples(
            st.sampled_from(['pick', 'omit']), st.lists(st.sampled_from(
                ['v', 'w_w', 'of_k']), max_size=2)).map(list), max_size=2),
        'nulls': st.lists(st.sampled_from(F), max_size=4),
        'null': st.booleans(), 'iw': st.booleans(),
        'mut': st.booleans(), 'at': st.integers(0, 3)})


_c = []


def classes():
    if not _c:
        t = T()
        g = graph()
        In = jc('In', {'v': t.int, 'w_w': t.str}, g)
        Ow = jc('Ow', {'id': t.str.primary, 'v': t.int, 'w_w': t.str}, g)
        Kid = jc('Kid', {'id': t.str.primary, 'v': t.int,
                         'of_k': t.objof('Top').linkto}, g)
        Top = jc('Top', {
            'aa': t.int, 'first_name': t.str, 'tag_list': t.listof(str),
            'sub': t.objof('In'), 'subs': t.listof('In'),
            'owner': t.objof('Ow').linkto,
            'owners': t.listof('Ow').linkto, 'secret': t.str.writeonly,
            'temp_x': t.str.temp,
            'calc_v': t.int.getter(lambda o: (o.aa or 0) + 1),
            'kids': t.listof('Kid').linkedby('of_k')}, g)
        _c.extend([In, Ow, Kid, Top])
    return _c


def make(case):
    In, Ow, Kid, Top = classes()
    vals = {'aa': 3, 'first_name': 'n', 'tag_list': ['x', 'y'],
            'sub': In(v=1, w_w='q'), 'subs': [In(v=2), In(w_w='z')],
            'owner': Ow(id='o', v=5),
            'owners': [Ow(id='p', v=6), Ow(id='q', w_w='r')],
            'secret': 's', 'temp_x': 't', 'kids': [Kid(id='k', v=1)]}
    o = Top()
    for k, v in vals.items():
        if k not in case['nulls']:
            setattr(o, k, v)
    return o


def apply(o, steps):
    for op, names in steps:
        names = list(names)
        getattr(o, op)(names)
        names.append('aa')        # the caller's list stays the caller's
        if names:
            names.pop(0)


def model(names, steps):
    cur = None
    for op, sel in steps:
        if op == 'pick':
            cur = list(sel)
        else:
            cur = [x for x in (names if cur is None else cur)
                   if x not in sel]
    return cur


def run(case):
    opts = dict(ignore_writeonly=case['iw'], reverse_relationship=False,
                output_null=case['null'])
    whole = make(case)
    o = make(case)
    full = whole.tojson(**opts)
    same(o.tojson(**opts), full, 'two alike')
    inn = model(['v', 'w_w'], case['inner'])
    half = case['at'] % (len(case['steps']) + 1)
    apply(o, case['steps'][:half])
    o.tojson(**opts)
    apply(o, case['steps'][half:])
    if o.sub is not None:
        apply(o.sub, case['inner'])
    cur = model(F, case['steps'])
    want = {}
    for f in F:
        if cur is not None and f not in cur:
            continue
        for k in (camel(f), camel(KEY.get(f, f))):
            if k in full:
                want[k] = full[k]
    if inn is not None and want.get('sub') is not None:
        want['sub'] = {k: v for k, v in full['sub'].items()
                       if k in [camel(x) for x in inn]}
    before = {f: getattr(o, f) for f in F}
    got = o.tojson(**opts)
    same(got, want, 'partial output')
    same(o.tojson(**opts), want, 'partial output again')
    check(o.is_partial is (cur is not None), 'is_partial', o.is_partial)
    check(whole.is_partial is False, 'other object became partial')
    for f in F:
        check(getattr(o, f) is before[f] or f == 'calc_v', 'value', f)
    same(whole.tojson(**opts), full, 'the other object')
    same(make(case).tojson(**opts), full, 'a later object')
    # a second object with its own selection
    b = make(case)
    apply(b, case['other'])
    cb = model(F, case['other'])
    same(sorted(b.tojson(**opts)), sorted(
        k for f in F if cb is None or f in cb
        for k in {camel(f), camel(KEY.get(f, f))} if k in full), 'second')
    same(o.tojson(**opts), want, 'first after second')
    check(o.is_valid is whole.is_valid, 'validity')
    return cur is not None and len(want) < len(full)


FAMILIES = [
    Family('partial', strategy, run, 'the selection leaves something out',
           quick=2400, thorough=60000, shards=3, tshards=8)]
