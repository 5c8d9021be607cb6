"""C29: input is accepted exactly when it conforms; anything else is refused
with a validation error and nothing but a validation error."""
import json
from datetime import date, datetime, timedelta, timezone
from enum import Enum
from vp import schema as S
from vp.core import Family, check, same
from vp.build import jc, T, graph, vexc, camel

NAMES = ['aa', 'first_name', 'bb2', 'k', 'item_x']
KINDS = ['str', 'int', 'float', 'bool', 'date', 'datetime', 'enum', 'enumv',
         'any', 'toint', 'tofloat', 'tostr', 'list', 'dict', 'obj', 'objs', 'pk', 'pks', 'ref', 'refs',
         'back', 'backs', 'thru', 'union', 'list', 'dict', 'min', 'len']
WORDS = ['', 'x', 'RED', 'red', 'r', '2020-02-29', '2021-02-29', '2020-1-1',
         '2020-02-29T10:20:30.000Z', '2020-02-29T25:00:00Z', 'Z',
         '0001-01-01T00:00:00+14:00', '9999-12-31T23:59:59-14:00',
         '9999-12-31', '0001-01-01', '2020-02-29T10:20:30+05:30', '\u0000',
         '2020-02-29garbage', 'T', '12', 'null', '\ud800'[:0] + 'é', 'W01',
         '2020-02-29T10:20:30.123456789Z']
JKEYS = ['aa', 'firstName', 'first_name', 'bb2', 'k', 'itemX', 'id', '_add',
         '_del', 'zz', '', 'v', 'aaId', 'aa_id', 'kId', 'kIds', 'a.b', '0']


def strategy():
    from hypothesis import strategies as st
    leaf = st.one_of(
        st.none(), st.booleans(), st.integers(-3, 12),
        st.sampled_from([10**400, -2**63, 1.5, 0.0, -1e308, 3.0]),
        st.sampled_from(WORDS), st.text(max_size=4))
    junk = st.recursive(leaf, lambda c: st.one_of(
        st.lists(c, max_size=3),
        st.dictionaries(st.sampled_from(JKEYS), c, max_size=3)), max_leaves=6)

    def node(draw, depth):
        k = draw(st.sampled_from(KINDS if depth else KINDS[:12]))
        if k in ('list', 'dict'):
            return [k, node(draw, depth - 1) if depth > 1 else [
                draw(st.sampled_from(KINDS[:12])), None], draw(st.booleans())]
        if k == 'union':
            return [k, draw(st.sampled_from(
                [['int', 'str'], ['bool', 'date'], ['obj', 'int'],
                 ['float', 'str'], ['enum', 'datetime']]))]
        return [k, None]

    def good(draw, n):
        k = n[0]
        if draw(st.integers(0, 4)) == 0:
            return draw(junk)
        if k in ('list', 'dict'):
            vs = [good(draw, n[1]) for _ in range(draw(st.integers(0, 3)))]
            return vs if k == 'list' else {
                JKEYS[i]: v for i, v in enumerate(vs)}
        if k == 'union':
            k = draw(st.sampled_from(n[1]))

        def one(pk):
            d = {}
            if draw(st.booleans()):
                d['v'] = draw(st.one_of(st.integers(0, 9), junk))
            if pk and draw(st.integers(0, 4)):
                d['id'] = draw(st.one_of(st.sampled_from(list('abcdefghijklmnop')), junk))
            if draw(st.integers(0, 6)) == 0:
                d['w'] = [one(False)] if draw(st.booleans()) else draw(junk)
            return d
        pick = {'str': st.sampled_from(WORDS), 'int': st.integers(-9, 9),
                'min': st.integers(3, 9), 'len': st.text(max_size=4),
                'float': st.one_of(st.floats(allow_nan=False,
                                             allow_infinity=False),
                                   st.integers(-5, 5), st.just(10**400)),
                'bool': st.booleans(), 'date': st.sampled_from(WORDS[5:]),
                'datetime': st.sampled_from(WORDS[5:]),
                'enum': st.sampled_from(['RED', 'BLUE', 'red', 'r', 1]),
                'enumv': st.sampled_from(['RED', 'BLUE', 'red', 'r', 1, []]),
                'any': junk, 'toint': st.sampled_from(
                    ['12', ' 3 ', '1_0', '', 'x', '1.5', True, 7]),
                'tofloat': st.sampled_from(
                    ['1.5', '2', '', 'x', '-.5e3', '1,5', False, 2.5]),
                'tostr': st.sampled_from(['x', 5, 1.5, True])}
        if k in pick:
            return draw(pick[k])
        if k in ('obj', 'pk', 'ref', 'back'):
            return one(k != 'obj')
        return [one(k != 'objs') for _ in range(draw(st.integers(0, 3)))]

    @st.composite
    def case(draw):
        nf = draw(st.integers(1, 4))
        nodes = [node(draw, 2) for _ in range(nf)]
        data = {}
        for i in range(nf):
            if draw(st.integers(0, 7)):
                data[draw(st.sampled_from([NAMES[i], camel(NAMES[i])]))] = \
                    good(draw, nodes[i])
        extra = draw(st.dictionaries(st.sampled_from(JKEYS[9:]), junk,
                                     max_size=1))
        for k, v in extra.items():
            data.setdefault(k, v)
        return {'nodes': nodes, 'data': data,
                'op': draw(st.sampled_from(['init', 'set', 'init'])),
                'strict': draw(st.integers(0, 4)) == 0,
                'req': draw(st.integers(0, 15))}
    return case()


COLOR = Enum('Color29', [('RED', 'r'), ('BLUE', 1)])


def isodt(s):
    """Whether the text is read as a moment that can be expressed in UTC."""
    try:
        d = datetime.fromisoformat(s.replace('Z', ''))
    except ValueError:
        return False
    if d.tzinfo is None:
        return True
    try:
        d.astimezone(timezone.utc)
        return True
    except OverflowError:
        return False


def bad_paths(n, v, path, depth=0):
    """Reference: the paths at which the value does not conform."""
    k = n[0]
    if v is None:
        return []
    here = [path]
    if k == 'any':
        return []
    if k in ('toint', 'tofloat'):
        if type(v) in (bool, str):
            try:
                v = {'toint': int, 'tofloat': float}[k](v)
            except ValueError:
                return here
        return bad_paths([k[2:], None], v, path)
    if k == 'tostr':
        return [] if type(v) in (str, int, float, bool) else here
    if k in ('str', 'len'):
        if type(v) is not str:
            return here
        return here if k == 'len' and not 1 <= len(v) <= 3 else []
    if k in ('int', 'min'):
        if type(v) is not int:
            return here
        return here if k == 'min' and v < 3 else []
    if k == 'float':
        if type(v) is float:
            return []
        if type(v) is not int:
            return here
        return [] if abs(v) < 10**308 else here
    if k == 'bool':
        return [] if type(v) is bool else here
    if k == 'date':
        if type(v) is not str:
            return here
        try:
            date.fromisoformat(v[:10])
            return []
        except ValueError:
            return here
    if k == 'datetime':
        return [] if type(v) is str and isodt(v) else here
    if k == 'enum':
        return [] if type(v) is str and v in ('RED', 'BLUE') else here
    if k == 'enumv':
        return [] if type(v) in (str, int, float, bool) and v in (
            'r', 1) else here
    if k == 'list':
        if type(v) is not list:
            return here
        out = []
        for i, x in enumerate(v):
            if x is None and not n[2]:
                out.append(f'{path}.{i}')
            out += bad_paths(n[1], x, f'{path}.{i}')
        return out
    if k == 'dict':
        if type(v) is not dict:
            return here
        out = []
        for i, x in v.items():
            if x is None and not n[2]:
                out.append(f'{path}.{i}')
            out += bad_paths(n[1], x, f'{path}.{i}')
        return out
    if k == 'union':
        for m in n[1]:
            if not bad_paths([m, None], v, path):
                return []
        return here
    if k in ('obj', 'pk', 'ref', 'back'):
        if type(v) is not dict:
            return here
        out = bad_paths(['int', None], v.get('v'), path + '.v')
        if k == 'obj':
            w = v.get('w')
            out += bad_paths(['objs', None], w, path + '.w')
        else:
            out += bad_paths(['str', None], v.get('id'), path + '.id')
        return out
    if type(v) is not list:
        return here
    out = []
    inner = {'objs': 'obj', 'pks': 'pk', 'refs': 'ref', 'backs': 'back',
             'thru': 'ref'}[k]
    for i, x in enumerate(v):
        if x is None:
            out.append(f'{path}.{i}')
        out += bad_paths([inner, None], x, f'{path}.{i}')
    return out


def deep(v, n=0):
    if isinstance(v, list):
        return any(deep(x, n + 1) for x in v)
    if isinstance(v, dict):
        return any(deep(x, n + 1) for x in v.values())
    return False


def run(case):
    t = T()
    g = graph()
    nodes = case['nodes']
    back = {}
    fields = {}

    def ty(n, name):
        k = n[0]
        if k in ('list', 'dict'):
            item = ty(n[1], None)
            if n[2]:
                item = item.nullable
            return t.listof(item) if k == 'list' else t.dictof(item)
        if k == 'union':
            return t.union([ty([m, None], None) for m in n[1]])
        if k in ('ref', 'refs', 'back', 'backs', 'thru') and name is None:
            k = {'ref': 'pk', 'refs': 'pks', 'back': 'pk', 'backs': 'pks',
                 'thru': 'pks'}[k]
        if k == 'back' or k == 'backs':
            back[f'of_{name}'] = t.objof('Top').linkto
        if k == 'thru':
            back[f'of_{name}'] = t.listof('Top').linkedthru(name)
        return {
            'str': lambda: t.str, 'int': lambda: t.int,
            'float': lambda: t.float, 'bool': lambda: t.bool,
            'date': lambda: t.date, 'datetime': lambda: t.datetime,
            'enum': lambda: t.enum(COLOR),
            'enumv': lambda: t.inputvalue.enum(COLOR), 'any': lambda: t.any,
            'toint': lambda: t.toint.int, 'tofloat': lambda: t.tofloat.float,
            'tostr': lambda: t.tostr.str,
            'min': lambda: t.int.min(3), 'len': lambda: t.str.length(1, 3),
            'obj': lambda: t.objof('Leaf'), 'objs': lambda: t.listof('Leaf'),
            'pk': lambda: t.objof('Keyed'), 'pks': lambda: t.listof('Keyed'),
            'ref': lambda: t.objof('Far').linkto,
            'refs': lambda: t.listof('Far').linkto,
            'back': lambda: t.objof('Far').linkedby(f'of_{name}'),
            'backs': lambda: t.listof('Far').linkedby(f'of_{name}'),
            'thru': lambda: t.listof('Far').linkedthru(f'of_{name}')}[k]()
    for i, n in enumerate(nodes):
        fields[NAMES[i]] = ty(n, NAMES[i])
        if case['req'] >> i & 1:
            fields[NAMES[i]] = fields[NAMES[i]].required
    jc('Leaf', {'v': t.int, 'w': t.listof('Leaf')}, g, strict_input=False)
    jc('Keyed', {'id': t.str.primary, 'v': t.int}, g,
       strict_input=False)
    jc('Far', {'id': t.str.primary, 'v': t.int, **back}, g,
       strict_input=False)
    Top = jc('Top', fields, g, strict_input=case['strict'])
    data = case['data']
    raw = json.dumps(data, sort_keys=True)
    # reference verdict
    bad, dubious = [], False
    known = set()
    for i, n in enumerate(nodes):
        name = NAMES[i]
        known |= {name, camel(name)}
        v = data.get(camel(name))
        if v is None:
            v = data.get(name)
        bad += bad_paths(n, v, camel(name))
        if v is None and case['req'] >> i & 1 and n[0] not in (
                'back', 'backs', 'thru'):
            bad.append(camel(name))
        if uncertain(n, v):
            dubious = True
    if set(data) - known:
        if case['strict']:
            bad.append('?')
        if any(k in ('aaId', 'aa_id', 'kId', 'kIds') for k in data):
            dubious = True
    ids = []

    def collect(v):
        if isinstance(v, dict):
            if v.get('id') is not None:
                ids.append(json.dumps(v['id']))
            v = list(v.values())
        if isinstance(v, list):
            for x in v:
                collect(x)
    collect(data)
    if len(set(ids)) < len(ids):
        dubious = True
    got = None
    try:
        if case['op'] == 'init':
            o = Top(**data)
        else:
            o = Top()
            o.set(**data)
        o.validate(all_fields=True)
    except vexc() as e:
        got = list(e.keypath_messages)
    same(json.dumps(data, sort_keys=True), raw, 'input changed')
    if dubious:
        return False
    if got is None:
        check(not bad, 'accepted although not conforming at', bad)
        js = o.tojson()
        json.dumps(js)
        check(o.is_valid, 'is_valid')
    else:
        check(bad, 'refused although conforming', got)
        if '?' not in bad:
            check(set(got) <= set(bad), 'reported', got, 'want', bad)
    return ('refused' if bad else 'accepted') if data else False


def uncertain(n, v, top=True):
    """Inputs whose reading is defined by other rules (link commands, the
    same primary key twice)."""
    k = n[0]
    if k in ('refs', 'thru', 'backs', 'pks') and isinstance(v, list):
        ids = [json.dumps(x.get('id')) for x in v if isinstance(x, dict)
               and x.get('id') is not None]
        if len(set(ids)) < len(ids):
            return True
        if any(isinstance(x, dict) and ('_add' in x or '_del' in x)
               for x in v):
            return True
    if k in ('list', 'dict') and v:
        items = v if isinstance(v, list) else (
            v.values() if isinstance(v, dict) else [])
        return any(uncertain(n[1], x, False) for x in items)
    return False


# ------------------------------------------- values that are not JSON at all
ODD = ['tuple', 'pairs', 'emptytuple', 'set', 'frozenset', 'bytes',
       'bytearray', 'decimal', 'object', 'range', 'complex', 'time', 'delta',
       'otherenum', 'class', 'function', 'generator', 'other', 'date',
       'datetime', 'enum', 'iter']
PYK = ['str', 'int', 'float', 'bool', 'date', 'datetime', 'enum', 'list',
       'dict', 'obj', 'objs', 'ref', 'refs', 'union']
OTHER = Enum('Other29', [('RED', 'r'), ('BLUE', 1)])


def py_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'kind': st.sampled_from(PYK), 'odd': st.sampled_from(ODD),
        'wrap': st.lists(st.sampled_from(['list', 'dict']), max_size=2),
        'how': st.sampled_from(['init', 'attr', 'set', 'update', 'item',
                                'nested']),
        'req': st.booleans()})


def run_py(case):
    from decimal import Decimal
    from datetime import time
    t = T()
    g = graph()
    Leaf = jc('Leaf', {'id': t.str.primary, 'v': t.int}, g)
    Far = jc('Far', {'v': t.int}, g)
    k = case['kind']
    ty = {'str': t.str, 'int': t.int, 'float': t.float, 'bool': t.bool,
          'date': t.date, 'datetime': t.datetime, 'enum': t.enum(COLOR),
          'list': t.listof(int), 'dict': t.dictof(int),
          'obj': t.objof('Leaf'), 'objs': t.listof('Leaf'),
          'ref': t.objof('Leaf').linkto, 'refs': t.listof('Leaf').linkto,
          'union': t.union([t.int, t.listof(int)])}[k]
    wrap = [] if k in ('ref', 'refs') else case['wrap']
    for w in wrap:
        ty = t.listof(ty) if w == 'list' else t.dictof(ty)
    Top = jc('Top', {'val': ty.required if case['req'] else ty}, g)
    Up = jc('Up', {'top': t.objof('Top')}, g)
    odd = {'tuple': lambda: (1, 2), 'pairs': lambda: (('a', 1),),
           'emptytuple': lambda: (), 'set': lambda: {1},
           'frozenset': lambda: frozenset([1]), 'bytes': lambda: b'ab',
           'bytearray': lambda: bytearray(b'a'),
           'decimal': lambda: Decimal('1.5'), 'object': object,
           'range': lambda: range(2), 'complex': lambda: 1j,
           'time': lambda: time(1, 2), 'delta': lambda: timedelta(1),
           'otherenum': lambda: OTHER.RED, 'class': lambda: int,
           'function': lambda: len, 'generator': lambda: (
               x for x in [1]), 'other': lambda: Far(v=1),
           'date': lambda: date(2020, 1, 2),
           'datetime': lambda: datetime(2020, 1, 2),
           'enum': lambda: COLOR.RED, 'iter': lambda: iter([1])}[
               case['odd']]()
    if case['odd'] in ('date', 'datetime') and k in ('date', 'datetime'):
        return False
    if case['odd'] == 'enum' and k == 'enum':
        return False
    val, path = odd, ''
    for w in wrap:
        val = [val] if w == 'list' else {'a_b': val}
        path = ('.0' if w == 'list' else '.a_b') + path
    path = 'val' + path
    how = case['how']
    V = vexc()
    try:
        if how == 'nested':
            path = 'top.' + path
            o = Up(top={'val': val})
        elif how == 'init':
            o = Top(val=val)
        else:
            o = Top()
            if how == 'attr' or how == 'item' and not wrap:
                o.val = val
            elif how == 'set':
                o.set(val=val)
            elif how == 'update':
                o.update(val=val)
            elif wrap[-1] == 'list':
                o.val = []
                o.val.append(val[0])
            else:
                o.val = {}
                o.val['a_b'] = val['a_b']
        o.validate(all_fields=True)
    except V as e:
        if case['odd'] != 'generator':
            same(list(e.keypath_messages), [path], 'path of', case['odd'])
        return True
    check(False, 'a', k, 'field accepted', repr(odd), 'now',
          o.val if how != 'nested' else o.top.val)


FAMILIES = [
    Family('python', py_strategy, run_py, 'the value is not one of the '
           'field', quick=1500, thorough=12000, shards=2, tshards=4),
    Family('verdict', strategy, run, 'some input given and its verdict '
           'compared', quick=4000, thorough=120000, shards=6, tshards=8)]
