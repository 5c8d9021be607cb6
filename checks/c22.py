"""C22: enum fields take and give exactly the chosen forms."""
from enum import Enum
from vp.core import Family, check, same, expect_raises
from vp.build import jc, T, graph, vexc

NAMES = ['RED', 'GREEN', 'BLUE', 'DARK_RED', 'A', 'X1', 'RED_', '\u00c0B']
SVALS = ['red', 'RED', 'GREEN', 'g', '', 'x', 'blue', 'a', 'A', '1']
IVALS = [0, 1, 2, -1, 10]
BVALS = [True, False]
INS = ['inputall', 'inputname', 'inputlname', 'inputvalue']
OUTS = ['outputname', 'outputlname', 'outputvalue']
PLACES = ['field', 'list', 'dict', 'listlist', 'obj', 'objlist']


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5,
                              unique=True))
        mix = draw(st.sampled_from(['', '', 'str', 'int']))
        pool = {'': SVALS + IVALS + BVALS, 'str': SVALS, 'int': IVALS}[mix]
        vals = draw(st.lists(st.sampled_from(pool), min_size=len(names),
                             max_size=len(names)))
        ins = st.lists(st.sampled_from(INS), max_size=2)
        val = st.one_of(
            st.sampled_from(NAMES), st.sampled_from(NAMES).map(str.lower),
            st.sampled_from(SVALS), st.sampled_from(IVALS),
            st.sampled_from(BVALS),
            st.sampled_from(['Red', 'nope', ' RED', 'RED ', '0', 2.5, None]),
            st.sampled_from([{'$m': i} for i in range(5)]),
            st.just({'$other': 1}), st.just([]), st.just({}))
        return {'names': names, 'vals': vals, 'mix': mix,
                'pre': draw(ins), 'post': draw(ins),
                'out': draw(st.lists(st.sampled_from(OUTS), max_size=2)),
                'outpre': draw(st.booleans()),
                'named': draw(st.booleans()),
                'place': draw(st.sampled_from(PLACES)),
                'attr': draw(st.booleans()),
                'inputs': draw(st.lists(val, min_size=1, max_size=5))}
    return case()


def run(case):
    t = T()
    g = graph()
    ms = list(zip(case['names'], case['vals']))
    E = {'': lambda: Enum('Col', ms), 'str': lambda: Enum('Col', ms, type=str),
         'int': lambda: Enum('Col', ms, type=int)}[case['mix']]()
    Other = Enum('Oth', [('RED', 'red')])
    if case['named']:
        from jsonclasses import jsonenum
        jsonenum(class_graph=g)(E)
    c = t
    for p in case['pre']:
        c = getattr(c, p)
    if case['outpre']:
        for p in case['out']:
            c = getattr(c, p)
    c = c.enum('Col' if case['named'] else E)
    for p in case['post']:
        c = getattr(c, p)
    if not case['outpre']:
        for p in case['out']:
            c = getattr(c, p)
    place = case['place']
    inner = {'at': c.nullable if False else c}
    if place in ('field',):
        cls = jc('En', inner, g)
    elif place in ('obj', 'objlist'):
        jc('Inner', inner, g)
        cls = jc('En', {'at': t.objof('Inner') if place == 'obj' else
                        t.listof(t.objof('Inner'))}, g)
    else:
        cls = jc('En', {'at': {
            'list': lambda: t.listof(c), 'dict': lambda: t.dictof(c),
            'listlist': lambda: t.listof(t.listof(c))}[place]()}, g)

    def wrap(v):
        return {'field': v, 'list': [v], 'dict': {'k': v},
                'listlist': [[v]], 'obj': {'at': v},
                'objlist': [{'at': v}]}[place]

    def unwrap(o, asjson=False):
        v = o['at'] if isinstance(o, dict) else o.at
        if place == 'list':
            return v[0]
        if place == 'dict':
            return v['k']
        if place == 'listlist':
            return v[0][0]
        if place == 'obj':
            return v.get('at') if asjson else v.at
        if place == 'objlist':
            return v[0].get('at') if asjson else v[0].at
        return v
    path = {'field': 'at', 'list': 'at.0', 'dict': 'at.k',
            'listlist': 'at.0.0', 'obj': 'at.at', 'objlist': 'at.0.at'}[place]
    # forms accepted
    forms = set()
    for p in case['pre']:
        forms |= {'inputall': {'name', 'lname', 'value'}}.get(p, {p[5:]})
        if p == 'inputall':
            forms = {'name', 'lname', 'value'}
    if not forms:
        forms = {'name'}
    for p in case['post']:
        forms |= ({'name', 'lname', 'value'} if p == 'inputall'
                  else {p[5:]})
    out = case['out'][-1][6:] if case['out'] else 'name'
    members = list(E)

    def ref(v):
        """Accepted member, None for null, or False (rejected); () unknown."""
        if v is None:
            return None
        if isinstance(v, E):
            return v
        if 'value' in forms:
            for m in members:
                if type(v) in (str, int, float, bool) and m.value == v:
                    return m
        if isinstance(v, str):
            if 'name' in forms and v in E.__members__:
                return E.__members__[v]
            if 'lname' in forms:
                for n, m in E.__members__.items():
                    if n.lower() == v:
                        return m
                    if n.lower() == v.lower():
                        return ()
        return False
    hit = miss = 0
    for raw in case['inputs']:
        v = raw
        if isinstance(raw, dict) and '$m' in raw:
            v = members[raw['$m'] % len(members)]
        elif isinstance(raw, dict) and '$other' in raw:
            v = Other.RED
        want = ref(v)
        if want == ():
            continue
        if place in ('list', 'dict', 'listlist') and v is None:
            continue        # items are required
        if want is False:
            e = expect_raises(vexc(), lambda: cls(at=wrap(v)), 'input', v)
            same(list(e.keypath_messages), [path], 'path')
            miss += 1
            if case['attr'] and place == 'field':
                o = cls()
                o.at = v
                e = expect_raises(vexc(), o.validate, 'assigned', v)
                same(list(e.keypath_messages), [path], 'path')
            continue
        o = cls(at=wrap(v))
        got = unwrap(o)
        check(got is want, 'input', repr(v), 'gave', repr(got), 'want',
              repr(want), forms)
        o.validate()
        jsv = None if want is None else {
            'name': want.name, 'lname': want.name.lower(),
            'value': want.value}[out]
        res = o.tojson()
        if want is None:
            continue
        same(unwrap(res, True), jsv, 'output', out)
        back = ref(jsv)
        if back is want:
            check(unwrap(cls(**res)) is want, 'round trip', res)
        hit += 1
    return f'{hit > 0},{miss > 0}' if hit or miss else False


FAMILIES = [
    Family('forms', strategy, run, 'some non-null input was tried',
           quick=3500, thorough=80000, shards=4, tshards=8)]
