"""C26: a union field behaves as the first of its types that accepts."""
from datetime import date, datetime, timezone
from enum import Enum
from typing import Optional, Union
from vp.core import Family, Violation, check, same, typed_eq
from vp.build import jc, T, graph, vexc, enc, dec

KINDS = ['str', 'int', 'float', 'bool', 'date', 'datetime', 'enum', 'leaf',
         'mono', 'ints', 'strs', 'intmin', 'strmin', 'leafs', 'upper',
         'named', 'anyd']
PLACES = ['field', 'list', 'dict', 'nested']
COLOR = Enum('Color', [('RED', 1), ('BLUE', 'b')])


def values(st):
    leaf = st.dictionaries(st.sampled_from(['n', 'id', 'm', 'zz']),
                           st.sampled_from([1, 'x', None]), max_size=2)
    return st.one_of(
        st.sampled_from(['', 'ab', 'abcd', 'RED', 'red', '2020-01-02',
                         '2020-01-02T03:04:05.678Z', '2020-13-45', 'b']),
        st.sampled_from([0, 1, -3, 7, 2.5, True, False]),
        st.just([]), st.lists(st.sampled_from([1, 2, 'a', None]), max_size=2),
        st.dictionaries(st.sampled_from(['k', 'n']),
                        st.sampled_from(['a', 1]), max_size=2), leaf,
        st.lists(leaf, max_size=2),
        st.sampled_from([enc(date(2020, 2, 3)),
                         enc(datetime(2020, 2, 3, 4, tzinfo=timezone.utc))]),
        st.sampled_from([{'$o': ['leaf', 1]}, {'$o': ['leaf', 'x']},
                         {'$o': ['mono', 1]}, {'$e': 'RED'}]))


def strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'kinds': st.lists(st.sampled_from(KINDS), min_size=1, max_size=4),
        'place': st.sampled_from(PLACES),
        'ann': st.booleans(), 'required': st.booleans(),
        'vals': st.lists(st.tuples(st.sampled_from(['init', 'set', 'attr']),
                                   values(st)).map(list), min_size=1,
                         max_size=4)})


def run(case):
    t = T()
    g = graph()
    # a type with an eager part is checked on input only: keep it last
    case = dict(case, kinds=sorted(case['kinds'], key=lambda k: k == 'upper'))
    bump = [0]

    def cnt(v):
        bump[0] += 1
        return (v or 0) + 1
    Leaf = jc('Leaf', {'id': t.str.primary, 'n': t.int.required,
                       'c': t.int.setonsave(cnt)}, g)
    Mono = jc('Mono', {'m': t.int.required}, g)
    from jsonclasses import jsonenum
    jsonenum(class_graph=g)(COLOR)

    def ty(k):
        return {'str': lambda: t.str, 'int': lambda: t.int,
                'float': lambda: t.float, 'bool': lambda: t.bool,
                'date': lambda: t.date, 'datetime': lambda: t.datetime,
                'enum': lambda: t.enum(COLOR).inputall,
                'named': lambda: t.enum('Color'),
                'leaf': lambda: t.objof('Leaf'),
                'mono': lambda: t.objof(Mono),
                'ints': lambda: t.listof(int), 'strs': lambda: t.dictof(str),
                'intmin': lambda: t.int.min(3),
                'strmin': lambda: t.str.minlength(3),
                'leafs': lambda: t.listof('Leaf'),
                'upper': lambda: t.str.maxlength(3).transform(
                    lambda v: v.upper()),
                'anyd': lambda: t.dictof(t.any)}[k]()
    PY = {'str': str, 'int': int, 'float': float, 'bool': bool, 'date': date,
          'datetime': datetime, 'leaf': Leaf, 'mono': Mono,
          'ints': list[int], 'strs': dict[str, str], 'leafs': 'list[Leaf]'}
    ann = (case['ann'] and case['place'] == 'field'
           and all(k in PY for k in case['kinds'])
           and 'leafs' not in case['kinds']
           and len(set(case['kinds'])) == len(case['kinds']) > 1)
    place = case['place']
    req = case['required']
    singles = []
    for i, k in enumerate(case['kinds']):
        singles.append(jc(f'Single{i}', {'u': ty(k)}, g))
    if ann:
        a = Union[tuple(PY[k] for k in case['kinds'])]
        cls = jc('Un', {}, g, plain={'u': a if req else Optional[a]})
    else:
        u = t.union([ty(k) for k in case['kinds']])
        if place == 'field' and req:
            u = u.required
        f = {'field': lambda: u, 'list': lambda: t.listof(u),
             'dict': lambda: t.dictof(u), 'nested': lambda: u}[place]()
        if place == 'nested':
            jc('Hold', {'u': u}, g)
            cls = jc('Un', {'u': t.objof('Hold')}, g)
        else:
            cls = jc('Un', {'u': f}, g)
    if place == 'field':
        for o in (cls(), cls(u=None)):
            check(o.is_valid is (not req), 'null', req)

    def wrap(v):
        return {'field': v, 'list': [v], 'dict': {'k': v},
                'nested': {'u': v}}[place]

    def get(o):
        v = o.u
        return {'field': lambda: v, 'list': lambda: v[0],
                'dict': lambda: v['k'], 'nested': lambda: v.u}[place]()
    path = {'field': 'u', 'list': 'u.0', 'dict': 'u.k', 'nested': 'u.u'}[place]

    def value(raw):
        if isinstance(raw, dict) and '$o' in raw:
            k, x = raw['$o']
            o = (Leaf if k == 'leaf' else Mono)()
            setattr(o, 'n' if k == 'leaf' else 'm', x)
            return o
        if isinstance(raw, dict) and '$e' in raw:
            return COLOR[raw['$e']]
        return dec(raw)

    def shape(v):
        if hasattr(v, 'tojson'):
            return {'obj': type(v).__name__,
                    'f': {f.name: shape(getattr(v, f.name))
                          for f in v.__class__.cdef.fields}}
        if isinstance(v, list):
            return [shape(x) for x in v]
        if isinstance(v, dict):
            return {k: shape(x) for k, x in v.items()}
        return v

    def valid(o):
        try:
            o.validate()
            return True
        except vexc():
            return False
    hits = 0
    for how, raw in case['vals']:
        if how == 'attr' and place in ('nested',):
            how = 'init'
        chosen = None
        for S in singles:
            v = value(raw)
            s = S()
            try:
                if how == 'attr':
                    s.u = v
                else:
                    s = S(u=v)
            except Exception:
                continue
            if valid(s):
                chosen = s
                break
        v = value(raw)
        o = cls()

        def put():
            nonlocal o
            if how == 'attr':
                o.u = wrap(v)
            elif how == 'set':
                o.set(u=wrap(v))
            else:
                o = cls(u=wrap(v))
        if chosen is None:
            try:
                put()
                o.validate()
            except vexc() as e:
                check(list(e.keypath_messages)[0].startswith(path),
                      'path', e.keypath_messages)
                continue
            raise Violation(f'{raw} accepted by the union of '
                            f'{case["kinds"]} but by none of its types')
        put()
        same(shape(get(o)), shape(chosen.u), 'value of', raw, case['kinds'])
        check(type(get(o)) is type(chosen.u), 'type of', raw)
        check(valid(o), raw, 'refused by union of', case['kinds'])
        js = o.tojson()['u']
        js = {'field': lambda: js, 'list': lambda: js[0],
              'dict': lambda: js['k'],
              'nested': lambda: js['u']}[place]()
        same(js, chosen.tojson()['u'], 'output of', raw)
        hits += 1
        # save time hooks of objects in the union
        bump[0] = 0
        chosen._database_write = lambda: None
        chosen.save()
        n = bump[0]
        bump[0] = 0
        o._database_write = lambda: None
        o.save()
        same(bump[0], n, 'save hooks run for', raw)
        same(shape(get(o)), shape(chosen.u), 'value saved of', raw)
    return f'{place}{",annotated" if ann else ""}' if hits and len(
        case['kinds']) > 1 else False


FAMILIES = [
    Family('members', strategy, run,
           'several types and some value accepted', quick=2500,
           thorough=60000, shards=4, tshards=8)]
