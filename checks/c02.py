"""C02: hidden values never reach the output."""
import json
from vp.core import Family, check, same
from vp.build import jc, T, graph, camel

NAMES = ['aa', 'first_name', 'item_count_x', 'bb2', 'zip_code', 'k']
INNER = ['ia', 'inner_name', 'ic']
RULES = [[], [], ['writeonly'], ['internal'], ['temp'], ['readonly'],
         ['writeonly', 'readwrite'], ['writeonly', 'readonly'],
         ['readonly', 'writeonly'], ['internal', 'readwrite'],
         ['writeonly', 'temp'], ['writeonce', 'writeonly'],
         ['writeonly', 'writenonnull'], ['temp', 'writeonly']]
REFS = [[], ['writeonly'], ['internal'], ['readonly'],
        ['writeonly', 'readwrite']]


def hidden(rules):
    """(hidden by read rule, temporary)"""
    h = False
    for r in rules:
        h = {'writeonly': True, 'internal': True, 'readwrite': False}.get(r, h)
    return h, 'temp' in rules


def mark(t, rules, pre, base):
    if pre:
        for r in rules:
            t = getattr(t, r)
        return base(t)
    t = base(t)
    for r in rules:
        t = getattr(t, r)
    return t


KINDS = {
    'str': lambda t, i: t.str, 'list': lambda t, i: t.listof(str),
    'dict': lambda t, i: t.dictof(str), 'obj': lambda t, i: t.objof(i),
    'objs': lambda t, i: t.listof(i), 'objd': lambda t, i: t.dictof(i),
    'objll': lambda t, i: t.listof(t.listof(i)),
    'any': lambda t, i: t.any,
    'objnl': lambda t, i: t.listof(t.objof(i).nullable),
    'union': lambda t, i: t.union([int, str]),
    'ref': lambda t, i: t.linkto.objof('Ref'),
    'refs': lambda t, i: t.listof('Ref').linkto}


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        fields = []
        for i in range(draw(st.integers(2, 6))):
            kind = draw(st.sampled_from(sorted(KINDS)))
            rules = draw(st.sampled_from(
                REFS if kind in ('ref', 'refs') else RULES))
            fields.append({'name': NAMES[i], 'kind': kind, 'rules': rules,
                           'pre': draw(st.booleans()),
                           'null': draw(st.integers(0, 4)) == 0,
                           'n': draw(st.integers(0, 3))})
        return {'fields': fields,
                'inner': [{'rules': draw(st.sampled_from(RULES)),
                           'pre': draw(st.booleans()),
                           'null': draw(st.integers(0, 4)) == 0}
                          for _ in INNER],
                'deep': draw(st.booleans()),
                'iw': draw(st.sampled_from([None, False, True])),
                'on': draw(st.sampled_from([None, None, False, True])),
                'conf': draw(st.booleans()), 'iconf': draw(st.booleans()),
                'rr': draw(st.booleans()),
                'via': draw(st.sampled_from(['attr', 'update']))}
    return case()


def run(case):
    g = graph()
    t = T()
    ifields = {}
    for n, f in zip(INNER, case['inner']):
        ifields[n] = mark(t, f['rules'], f['pre'], lambda t: t.str)
    iconf = {'output_null': case['iconf']}
    Inner = jc('Inner', ifields, g, **iconf)
    if case['deep']:
        top = jc('Mid', {'mid_x': t.objof(Inner),
                         'mid_h': t.objof(Inner).writeonly}, g, **iconf)
    else:
        top = Inner
    Ref = jc('Ref', {'id': t.str.primary.required, 'rv': t.str,
                     'rh': t.str.writeonly}, g)
    fields = {}
    for f in case['fields']:
        fields[f['name']] = mark(
            t, f['rules'], f['pre'] and f['kind'] not in ('ref', 'refs'),
            lambda t: KINDS[f['kind']](t, top))
    cls = jc('Outer', fields, g, output_null=case['conf'])
    cnt = [0]
    secrets, iw = [], bool(case['iw'])
    skipped = [0]

    def marker(hid):
        cnt[0] += 1
        m = f'mk{cnt[0]}z'
        if hid:
            secrets.append(m)
        return m

    def on(conf):
        return conf if case['on'] is None else case['on']

    def mk_inner(hid):
        obj, out = Inner(), {}
        for n, f in zip(INNER, case['inner']):
            h, tmp = hidden(f['rules'])
            gone = tmp or (h and not iw)
            v = None if f['null'] else marker(hid or gone)
            setattr(obj, n, v)
            if gone:
                skipped[0] += 1
            elif v is not None or on(case['iconf']):
                out[camel(n)] = v
        return obj, out

    def mk_top(hid):
        if not case['deep']:
            return mk_inner(hid)
        x, xo = mk_inner(hid)
        h, ho = mk_inner(hid or not iw)
        obj = top()
        obj.update(mid_x=x, mid_h=h)
        out = {'midX': xo}
        if iw:
            out['midH'] = ho
        else:
            skipped[0] += 1
        return obj, out

    def mk_ref(hid):
        i, v, s = marker(hid), marker(hid), marker(hid or not iw)
        obj, out = Ref(id=i, rv=v), {'id': i, 'rv': v}
        obj.rh = s
        if iw:
            out['rh'] = s
        else:
            skipped[0] += 1
        return obj, out

    obj, want = cls(), {}
    for f in case['fields']:
        h, tmp = hidden(f['rules'])
        gone = tmp or (h and not iw)
        kind, name, n = f['kind'], f['name'], f['n']
        key = camel(name)
        if gone:
            skipped[0] += 1
        many = [None] * n
        if f['null']:
            v, out = None, None
        elif kind == 'str':
            v = out = marker(gone)
        elif kind in ('any', 'union'):
            v = out = marker(gone)
        elif kind == 'list':
            v = [marker(gone) for _ in many]
            out = list(v)
        elif kind == 'dict':
            v = {'k%d' % i: marker(gone) for i in range(n)}
            out = dict(v)
        elif kind == 'obj':
            v, out = mk_top(gone)
        elif kind in ('objs', 'objnl'):
            prs = [mk_top(gone) for _ in many]
            v, out = [p[0] for p in prs], [p[1] for p in prs]
            if kind == 'objnl':
                v.append(None)
                out.append(None)
        elif kind == 'objll':
            prs = [mk_top(gone) for _ in many]
            v, out = [[p[0]] for p in prs], [[p[1]] for p in prs]
        elif kind == 'objd':
            prs = {'k%d' % i: mk_top(gone) for i in range(n)}
            v = {k: p[0] for k, p in prs.items()}
            out = {k: p[1] for k, p in prs.items()}
        elif kind == 'ref':
            v, out = mk_ref(gone)
        else:
            prs = [mk_ref(gone) for _ in many]
            v, out = [p[0] for p in prs], [p[1] for p in prs]
        if case['via'] == 'attr':
            setattr(obj, name, v)
        else:
            obj.update(**{name: v})
        if gone:
            continue
        if kind == 'ref':
            if v is not None or on(case['conf']):
                want[key + 'Id'] = None if v is None else v.id
        if kind == 'refs':
            want[IDS[name]] = [] if v is None else [r.id for r in v]
        if out is not None or on(case['conf']):
            want[key] = out
    kw = {}
    if case['iw'] is not None:
        kw['ignore_writeonly'] = case['iw']
    if case['on'] is not None:
        kw['output_null'] = case['on']
    if case['rr']:
        kw['reverse_relationship'] = True
    got = obj.tojson(**kw)
    text = json.dumps(got)
    for s in secrets:
        check(f'"{s}"' not in text, 'hidden value', s, 'in output', text)
    # Ref and list reference keys depend on the class defaults only
    same(got, want, 'output')
    return skipped[0] > 0


IDS = {'aa': 'aaIds', 'first_name': 'firstNameIds',
       'item_count_x': 'itemCountXIds', 'bb2': 'bb2Ids',
       'zip_code': 'zipCodeIds', 'k': 'kIds'}

FAMILIES = [
    Family('output', strategy, run,
           'at least one value was hidden by writeonly, internal or temp',
           quick=4000, thorough=120000, shards=6, tshards=8),
]
