"""C05: one naming scheme per class, used consistently."""
from vp.core import Family, check, same, expect_raises
from vp.build import jc, T, graph, camel, vexc

STRATS = {
    'default': ({}, camel),
    'camelize': ({'output_key_strategy': 'camelize'}, camel),
    'identical': ({'output_key_strategy': 'identical'}, lambda s: s),
    'flag': ({'camelize_json_keys': False}, lambda s: s),
    'flagtrue': ({'camelize_json_keys': True}, camel),
    'prefix': ({'output_key_strategy': lambda s: 'p_' + s},
               lambda s: 'p_' + s),
    'upper': ({'output_key_strategy': lambda s: s.upper()},
              lambda s: s.upper()),
    'rev': ({'output_key_strategy': lambda s: s[::-1] + 'q'},
            lambda s: s[::-1] + 'q')}
KINDS = ['obj', 'objs', 'objd', 'objll', 'ref', 'refs']
SCALS = ['aa', 'first_name', 'item_count_x', 'zip_code2']
IDNAME = {'ref': 'sub_part_id', 'refs': 'sub_part_ids'}


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def tree(draw, depth):
        d = {'s': {k: [draw(st.booleans()), draw(st.one_of(
            st.none(), st.sampled_from(['x', 'yy']), st.just(0)))]
            for k in draw(st.lists(st.sampled_from(SCALS), unique=True,
                                   max_size=4))},
            'c': draw(st.booleans()), 'd': draw(st.booleans()),
            'm': {k: draw(st.integers(0, 9)) for k in draw(st.lists(
                st.sampled_from(['a_b', 'aB', 'X y', 'first_name']),
                unique=True, max_size=2))},
            'kids': []}
        if depth:
            d['kids'] = draw(st.lists(tree(depth - 1), max_size=2))
        return d
    return st.fixed_dictionaries({
        'strat': st.tuples(*[st.sampled_from(sorted(STRATS))
                             for _ in range(3)]),
        'kind': st.tuples(*[st.sampled_from(KINDS) for _ in range(2)]),
        'refname': st.booleans(),
        'tree': tree(2)})


def run(case):
    g = graph()
    t = T()
    key = [STRATS[s][1] for s in case['strat']]
    classes = [None] * 3
    for lvl in (2, 1, 0):
        fs = {'id': t.int.primary.required}
        fs.update({k: t.str for k in SCALS})
        fs['the_map'] = t.dictof(int)
        if lvl < 2:
            n = f'L{lvl + 1}'
            fs['sub_part' + ('s' if case['kind'][lvl] == 'refs' else '')] = {
                'obj': lambda: t.objof(n), 'objs': lambda: t.listof(n),
                'objd': lambda: t.dictof(n),
                'objll': lambda: t.listof(t.listof(n)),
                'ref': lambda: t.linkto.objof(n),
                'refs': lambda: t.listof(n).linkto}[case['kind'][lvl]]()
        kw = dict(STRATS[case['strat'][lvl]][0])
        if case['refname']:
            kw['ref_name_strategy'] = lambda f: f.name + '_key'
        classes[lvl] = jc(f'L{lvl}', fs, g, **kw)
    cnt = [0]
    bad = []
    alt = [0]

    def mk(tr, lvl, path):
        """returns (input, expected output, reader)"""
        cnt[0] += 1
        pk = cnt[0]
        inp, out = {'id': pk}, {key[lvl]('id'): pk}
        attrs = {'id': pk}
        for k, (cam, v) in tr['s'].items():
            inp[key[lvl](k) if cam else k] = v
            alt[0] += key[lvl](k) != k
            attrs[k] = v
            if v is not None:
                out[key[lvl](k)] = v
            if v == 0:
                bad.append('.'.join(path + [key[lvl](k)]))
        if tr['m']:
            inp[key[lvl]('the_map') if tr['d'] else 'the_map'] = dict(tr['m'])
            out[key[lvl]('the_map')] = dict(tr['m'])
            attrs['the_map'] = dict(tr['m'])
        if lvl < 2 and tr['kids']:
            kind = case['kind'][lvl]
            name = 'sub_part' + ('s' if kind == 'refs' else '')
            jn = key[lvl](name)
            p = path + [jn]
            use = jn if tr['c'] else name
            idn = name + '_key' if case['refname'] else IDNAME.get(kind)
            if kind in ('obj', 'ref'):
                i, o, a = mk(tr['kids'][0], lvl + 1, p)
                inp[use], out[jn], attrs[name] = i, o, a
                if kind == 'ref':
                    out[key[lvl](idn)] = a['id']
                    attrs[idn] = a['id']
            elif kind in ('objs', 'refs', 'objll'):
                r = [mk(x, lvl + 1, p + [str(j)] + (
                    ['0'] if kind == 'objll' else []))
                    for j, x in enumerate(tr['kids'])]
                w = (lambda x: [x]) if kind == 'objll' else (lambda x: x)
                inp[use] = [w(x[0]) for x in r]
                out[jn] = [w(x[1]) for x in r]
                attrs[name] = [w(x[2]) for x in r]
                if kind == 'refs':
                    out[key[lvl](idn)] = [x[2]['id'] for x in r]
                    attrs[idn] = [x[2]['id'] for x in r]
            else:
                r = {f'k_{j}': mk(x, lvl + 1, p + [f'k_{j}'])
                     for j, x in enumerate(tr['kids'])}
                inp[use] = {k: x[0] for k, x in r.items()}
                out[jn] = {k: x[1] for k, x in r.items()}
                attrs[name] = {k: x[2] for k, x in r.items()}
        elif lvl < 2 and case['kind'][lvl] == 'refs':
            idn = 'sub_parts_key' if case['refname'] else 'sub_part_ids'
            out[key[lvl](idn)] = []
        return inp, out, attrs

    def read(x, want, what):
        if isinstance(want, dict) and 'id' in want:
            for k, v in want.items():
                read(getattr(x, k), v, f'{what}.{k}')
        elif isinstance(want, list):
            check(isinstance(x, list) and len(x) == len(want), what, x, want)
            for i, (a, b) in enumerate(zip(x, want)):
                read(a, b, f'{what}.{i}')
        elif isinstance(want, dict):
            check(isinstance(x, dict) and set(x) == set(want), what, x, want)
            for k in want:
                read(x[k], want[k], f'{what}.{k}')
        else:
            same(x, want, what)
    inp, out, attrs = mk(case['tree'], 0, [])
    obj = classes[0](**inp)
    read(obj, attrs, 'field')
    same(obj.tojson(), out, 'output keys')
    other = classes[0]()
    other.set(**inp)
    same(other.tojson(), out, 'output keys after set')
    if bad:
        e = expect_raises(vexc(), lambda: obj.validate(all_fields=True),
                          'validate')
        same(sorted(e.keypath_messages), sorted(bad), 'reported paths')
        e = expect_raises(vexc(), lambda: obj.validate(all_fields=False),
                          'validate')
        check(len(e.keypath_messages) == 1
              and set(e.keypath_messages) <= set(bad),
              'first error path', e.keypath_messages, bad)
    else:
        obj.validate()
    return alt[0] > 0 or bool(bad)


def ref_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'strat': st.sampled_from(sorted(STRATS)), 'refname': st.booleans(),
        'many': st.booleans(), 'alt': st.booleans(),
        'ids': st.lists(st.integers(0, 9), min_size=1, max_size=3,
                        unique=True),
        'how': st.sampled_from(['init', 'set', 'update', 'attr']),
        'name': st.sampled_from(['sub_part', 'box', 'main_category',
                                 'address'])})


PLURAL = {'sub_part': 'sub_parts', 'box': 'boxes',
          'main_category': 'main_categories', 'address': 'addresses'}


def run_ref(case):
    g = graph()
    t = T()
    kw = dict(STRATS[case['strat']][0])
    key = STRATS[case['strat']][1]
    name = PLURAL[case['name']] if case['many'] else case['name']
    if case['refname']:
        kw['ref_name_strategy'] = lambda f: f.name + '_key'
        idn = name + '_key'
    else:
        idn = case['name'] + ('_ids' if case['many'] else '_id')
    jc('Part', {'id': t.int.primary.required}, g)
    cls = jc('Whole', {'id': t.int.primary.required,
                       name: t.listof('Part').linkto if case['many']
                       else t.linkto.objof('Part')}, g, **kw)
    v = case['ids'] if case['many'] else case['ids'][0]
    k = key(idn) if case['alt'] else idn
    if case['how'] == 'init':
        obj = cls(id=1, **{k: v})
    else:
        obj = cls(id=1)
        if case['how'] == 'set':
            obj.set(**{k: v})
        elif case['how'] == 'update':
            obj.update(**{idn: v})
        else:
            setattr(obj, idn, v)
    got = getattr(obj, idn)
    same(list(got) if case['many'] else got, v, 'reference key', idn)
    same(obj.tojson().get(key(idn)), v, 'output reference key', key(idn))
    return True


FAMILIES = [
    Family('trees', strategy, run,
           'some key differs from its JSON name or some path is reported',
           quick=3000, thorough=80000, shards=6, tshards=7),
    Family('refkeys', ref_strategy, run_ref, 'always', quick=500,
           thorough=3000, shards=1, tshards=1)]
