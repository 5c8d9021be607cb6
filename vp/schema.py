"""Random schemas (as JSON), values for them, and reference (de)coding.

A schema is {'classes': [[[fieldname, node], ...], ...]}; class 0 is the
outermost.  A node is {'k': kind, ...}:
  str int float bool date datetime any
  enum {io: [input, output]}
  list/dict {item: node, nullable: bool}
  obj {i: class index (greater than the owner's)}
  union {of: [kinds]}
Values are tagged JSON (see build.enc/dec); objects are {'$o': {...}}, enum
members {'$e': name}.
"""
from datetime import date, datetime, timedelta, timezone
from enum import Enum
from vp.build import jc, T, graph, camel, enc, dec, iso_dt

NAMES = ['aa', 'first_name', 'item_count_x', 'bb2', 'zip_code', 'k', 'a_b_c']
MEMBERS = [('RED', 'red_v'), ('DEEP_BLUE', 'Blue'), ('X1', 7), ('Y', 'RED2')]
ENUM_IO = [(None, None), ('inputname', 'outputname'),
           ('inputvalue', 'outputvalue'), ('inputlname', 'outputlname'),
           ('inputall', 'outputvalue'), ('inputall', 'outputlname'),
           ('inputall', 'outputname'), ('inputall', None)]
SCALARS = ['str', 'int', 'float', 'bool', 'date', 'datetime', 'enum', 'any']
UNIONS = [['int', 'str'], ['str', 'int'], ['bool', 'str'], ['int', 'bool'],
          ['str', 'float'], ['bool', 'float']]


def strategies():
    from hypothesis import strategies as st
    text = st.one_of(st.text(max_size=6), st.sampled_from(
        ['', 'a', 'é', '日本', '"', "\\", '\n', '2020-01-01', 'null', '1']))
    ints = st.one_of(st.integers(-5, 5), st.integers(-2**70, 2**70))
    floats = st.one_of(st.floats(allow_nan=False, allow_infinity=False),
                       st.sampled_from([0.0, -0.5, 1e300, 3.0]))
    dates = st.dates(date(2, 1, 1), date(9998, 12, 31))
    tzs = st.one_of(st.none(), st.just(0), st.integers(-14 * 60, 14 * 60))
    naive = st.datetimes(datetime(2, 1, 2), datetime(9998, 12, 30))
    dts = st.builds(
        lambda d, z: d if z is None else d.replace(
            tzinfo=timezone(timedelta(minutes=z))), naive, tzs)
    keys = st.one_of(st.text(max_size=4), st.sampled_from(
        ['a_b', 'aB', 'x.y', '', 'id', '_add', 'a b', '0']))
    jsonv = st.recursive(
        st.one_of(st.none(), st.booleans(), st.integers(-9, 9), text, floats),
        lambda c: st.one_of(st.lists(c, max_size=2),
                            st.dictionaries(keys, c, max_size=2)),
        max_leaves=4)
    return {'str': text, 'int': ints, 'float': floats, 'bool': st.booleans(),
            'date': dates, 'datetime': dts, 'any': jsonv, 'keys': keys}


def node(draw, owner, nclasses, depth):
    from hypothesis import strategies as st
    kinds = SCALARS + ['union']
    if depth > 0:
        kinds = kinds + ['list', 'dict', 'list', 'dict']
    if owner + 1 < nclasses:
        kinds = kinds + ['obj', 'obj', 'obj']
    k = draw(st.sampled_from(kinds))
    n = {'k': k}
    if k == 'enum':
        n['io'] = list(draw(st.sampled_from(ENUM_IO)))
    elif k in ('list', 'dict'):
        n['item'] = node(draw, owner, nclasses, depth - 1)
        n['nullable'] = draw(st.booleans())
    elif k == 'obj':
        n['i'] = draw(st.integers(owner + 1, nclasses - 1))
    elif k == 'union':
        n['of'] = draw(st.sampled_from(UNIONS))
    return n


def schema(draw, maxclasses=3, maxfields=4, depth=2):
    from hypothesis import strategies as st
    nc = draw(st.integers(1, maxclasses))
    classes = []
    for c in range(nc):
        nf = draw(st.integers(1, maxfields))
        classes.append([[NAMES[i], node(draw, c, nc, depth)]
                        for i in range(nf)])
    return {'classes': classes}


def value(draw, sch, n, S, null=True):
    """A valid encoded value for the node (None allowed when null)."""
    from hypothesis import strategies as st
    if null and draw(st.integers(0, 5)) == 0:
        return None
    k = n['k']
    if k == 'enum':
        return {'$e': draw(st.sampled_from([m[0] for m in MEMBERS]))}
    if k == 'list':
        return [value(draw, sch, n['item'], S, n['nullable'])
                for _ in range(draw(st.integers(0, 2)))]
    if k == 'dict':
        ks = draw(st.lists(S['keys'], max_size=2, unique=True))
        return {'$m': [[x, value(draw, sch, n['item'], S, n['nullable'])]
                       for x in ks]}
    if k == 'obj':
        return {'$o': {name: value(draw, sch, fn, S)
                       for name, fn in sch['classes'][n['i']]}}
    if k == 'union':
        return enc(draw(S[draw(st.sampled_from(n['of']))]))
    v = draw(S[k])
    if k == 'any' and v is None:
        v = 0
    return enc(v)


def build(sch, g=None, conf=None, fields_hook=None, item_required=True):
    """Define the classes; returns (classes, enum)."""
    g = g or graph()
    t = T()
    E = Enum('Colour', MEMBERS)

    def types(n):
        k = n['k']
        if k in ('str', 'int', 'float', 'bool', 'date', 'datetime', 'any'):
            return getattr(t, k)
        if k == 'enum':
            r = t
            if n['io'][0]:
                r = getattr(r, n['io'][0])
            if n['io'][1]:
                r = getattr(r, n['io'][1])
            return r.enum(E)
        if k in ('list', 'dict'):
            it = types(n['item'])
            if n['nullable']:
                it = it.nullable
            return t.listof(it) if k == 'list' else t.dictof(it)
        if k == 'obj':
            return t.objof(f"K{n['i']}")
        if k == 'union':
            return t.union([getattr(t, x) for x in n['of']])
    out = []
    for i, fields in enumerate(sch['classes']):
        kw = conf(i) if conf else {}
        fs = {name: types(fn) for name, fn in fields}
        if fields_hook:
            fs = fields_hook(i, fs)
        out.append(jc(f'K{i}', fs, g, **kw))
    return out, E


def decode(v, E=None, classes=None, n=None, sch=None, form='py'):
    """Encoded value -> Python value.

    form 'py': objects become dicts of Python values (input form)."""
    if isinstance(v, dict):
        if '$e' in v:
            return E[v['$e']]
        if '$o' in v:
            return {k: decode(x, E) for k, x in v['$o'].items()}
        if '$m' in v:
            return {k: decode(x, E) for k, x in v['$m']}
        return dec(v)
    if isinstance(v, list):
        return [decode(x, E) for x in v]
    return v


def to_json(v, n, sch, key=camel, null=False):
    """Reference JSON output of an encoded value."""
    if v is None:
        return None
    k = n['k']
    if k == 'enum':
        name = v['$e']
        mode = n['io'][1] or 'outputname'
        return {'outputname': name, 'outputlname': name.lower(),
                'outputvalue': dict(MEMBERS)[name]}[mode]
    if k == 'date':
        return dec(v).isoformat() + 'T00:00:00.000Z'
    if k == 'datetime':
        return iso_dt(dec(v))
    if k == 'list':
        return [to_json(x, n['item'], sch, key, null) for x in v]
    if k == 'dict':
        return {a: to_json(x, n['item'], sch, key, null) for a, x in v['$m']}
    if k == 'obj':
        return obj_json(v['$o'], n['i'], sch, key, null)
    return dec(v)


def obj_json(o, i, sch, key=camel, null=False):
    out = {}
    for name, fn in sch['classes'][i]:
        v = to_json(o.get(name), fn, sch, key, null)
        if v is not None or null:
            out[key(name)] = v
    return out


def live(v, n, sch, E, classes):
    """Reference in-memory value of an encoded value; objects as ('K', {})."""
    if v is None:
        return None
    k = n['k']
    if k == 'enum':
        return E[v['$e']]
    if k == 'list':
        return [live(x, n['item'], sch, E, classes) for x in v]
    if k == 'dict':
        return {a: live(x, n['item'], sch, E, classes) for a, x in v['$m']}
    if k == 'obj':
        return (classes[n['i']], {name: live(v['$o'].get(name), fn, sch, E,
                                             classes)
                                  for name, fn in sch['classes'][n['i']]})
    return dec(v)


def snapshot(x, classes):
    if type(x) in classes:
        return (type(x), {f: snapshot(getattr(x, f), classes)
                          for f in x.__dataclass_fields__})
    if isinstance(x, list):
        return [snapshot(y, classes) for y in x]
    if isinstance(x, dict):
        return {k: snapshot(y, classes) for k, y in x.items()}
    return x
