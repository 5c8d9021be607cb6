"""C25: presence rules hold exactly, falsy values count as present."""
from vp.core import Family, Violation, check, same
from vp.build import jc, T, graph, vexc, camel

FN = ['aa', 'bb', 'first_name', 'dd']
TY = ['str', 'int', 'bool', 'float', 'list', 'dict', 'obj', 'ref', 'back']
VALS = {'str': ['', 'x'], 'int': [0, 5], 'bool': [False, True],
        'float': [0.0, 1.5], 'list': [[], ['a']], 'dict': [{}, {'k': 'v'}]}
RULES = ['none', 'required', 'present', 'with', 'without', 'without2',
         'required', 'none']
PLACE = ['root', 'one', 'many', 'dic']


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        fs = []
        for n in FN[:draw(st.integers(1, 4))]:
            r = draw(st.sampled_from(RULES))
            fs.append([n, draw(st.sampled_from(TY)), r,
                       draw(st.integers(0, 3)), draw(st.integers(0, 3))])
        objs = [{n: draw(st.sampled_from([None, None, 0, 1]))
                 for n in FN} for _ in range(3)]
        return {'fields': fs, 'objs': objs,
                'keys': [{n: draw(st.sampled_from([None, None, 'k1', '', 0]))
                          for n in FN} for _ in range(3)],
                'place': draw(st.sampled_from(PLACE)),
                'all': draw(st.booleans()),
                'eq': draw(st.booleans()),
                'old': draw(st.booleans())}
    return case()


def run(case):
    t = T()
    g = graph()
    fs = case['fields']
    names = [f[0] for f in fs]
    jc('Leaf', {'id': t.str.primary, 'v': t.int}, g)

    def ref(i):
        return names[i % len(names)]
    back, fields = {}, {}
    for n, ty, rule, r1, r2 in fs:
        c = {'str': lambda: t.str, 'int': lambda: t.int,
             'bool': lambda: t.bool, 'float': lambda: t.float,
             'list': lambda: t.listof(str), 'dict': lambda: t.dictof(str),
             'obj': lambda: t.objof('Leaf'),
             'ref': lambda: t.objof('Target').linkto,
             'back': lambda: t.objof('Source').linkedby('of_' + n)}[ty]()
        if ty == 'back':
            back['of_' + n] = t.objof('Holder').linkto
        fields[n] = {
            'none': lambda: c, 'required': lambda: c.required,
            'present': lambda: c.present,
            'with': lambda: c.presentwith(ref(r1)),
            'without': lambda: c.presentwithout(ref(r1)),
            'without2': lambda: c.presentwithout([ref(r1), ref(r2)])}[rule]()
    fields['id'] = t.str.primary
    H = jc('Holder', fields, g)
    Target = jc('Target', {'id': t.str.primary}, g)
    Source = jc('Source', {'id': t.str.primary, **back}, g)
    from jsonclasses.cgraph import CGraph
    Leaf = CGraph(g).fetch('Leaf').cls
    R = jc('Root', {'x': t.int, 'one': t.objof('Holder'),
                    'many': t.listof('Holder'), 'dic': t.dictof('Holder')}, g)
    place = case['place']
    n = {'root': 1, 'one': 1, 'many': 3, 'dic': 2}[place]
    holders, bad = [], []
    where = {'root': lambda i: '', 'one': lambda i: 'one.',
             'many': lambda i: f'many.{i}.', 'dic': lambda i: f'dic.k{i}.'}
    for i in range(n):
        h = H(id=f'h{i}')
        has = {}
        for f, ty, rule, r1, r2 in fs:
            v = case['objs'][i][f]
            key = case['keys'][i][f]
            if v is not None:
                if ty in VALS:
                    v = VALS[ty][v]
                elif ty == 'obj':
                    v = Leaf(id=f'l{i}{f}')
                elif ty == 'ref':
                    v = Target(id=f't{i}{f}')
                else:
                    v = Source(id=f's{i}{f}')
                setattr(h, f, v)
            elif ty == 'ref' and key is not None:
                setattr(h, f + '_id', key)
            has[f] = v is not None
        for f, ty, rule, r1, r2 in fs:
            key = case['keys'][i][f]
            if has[f] or rule == 'none':
                continue
            if rule == 'required':
                if ty == 'back' or (ty == 'ref' and key is not None):
                    continue
            elif rule == 'with' and not has[ref(r1)]:
                continue
            elif rule == 'without' and has[ref(r1)]:
                continue
            elif rule == 'without2' and (has[ref(r1)] or has[ref(r2)]):
                continue
            bad.append(where[place](i) + camel(f))
        holders.append(h)
    if place == 'root':
        root = holders[0]
    else:
        root = R()
        setattr(root, place, {
            'one': lambda: holders[0], 'many': lambda: list(holders),
            'dic': lambda: {f'k{i}': h for i, h in enumerate(holders)}
        }[place]())

    def errs(allf):
        try:
            root.validate(all_fields=allf)
            return []
        except vexc() as e:
            return list(e.keypath_messages)
    same(sorted(errs(True)), sorted(bad), 'missing values reported')
    got = errs(False)
    check(len(got) == (1 if bad else 0) and set(got) <= set(bad), 'first',
          got, bad)
    check(root.is_valid is (not bad), 'is_valid')
    return ('invalid,' if bad else 'valid,') + place if any(
        f[2] != 'none' for f in fs) else False


# --- items of collections and nonnull collections ------------------------------
def item_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['list', 'dict', 'listlist', 'dictlist',
                                 'objs', 'bools']),
        'nullable': st.booleans(), 'nonnull': st.booleans(),
        'required': st.booleans(), 'ann': st.booleans(),
        'vals': st.one_of(st.none(), st.lists(
            st.sampled_from([None, None, 0, 1]), max_size=4)),
        'given': st.booleans(), 'how': st.sampled_from(['init', 'set'])})


def run_item(case):
    t = T()
    g = graph()
    kind = case['kind']
    Leaf = jc('Leaf', {'v': t.int}, g)
    item = {'list': t.str, 'dict': t.int, 'listlist': t.listof(str),
            'dictlist': t.dictof(int), 'objs': t.objof('Leaf'),
            'bools': t.bool}[kind]
    if case['nullable']:
        item = item.nullable
    head = t.nonnull if case['nonnull'] else t
    c = head.dictof(item) if kind == 'dict' else head.listof(item)
    if case['required']:
        c = c.required
    cls = jc('Col', {'xs': c}, g)
    mk = {'list': ['', 'a'], 'dict': [0, 3], 'listlist': [[], ['x']],
          'dictlist': [{}, {'q': 0}], 'objs': [{}, {'v': 0}],
          'bools': [False, True]}[kind]
    vals = case['vals']
    if vals is not None:
        vals = [None if v is None else mk[v] for v in vals]
        if kind == 'dict':
            vals = {f'k{i}': v for i, v in enumerate(vals)}
    kw = {'xs': vals} if case['given'] or vals is not None else {}
    o = cls()
    empty = {} if kind == 'dict' else []
    if case['nonnull']:
        same(o.xs, empty, 'nonnull without input')
    else:
        check(o.xs is None, 'no input')
    if case['how'] == 'init':
        o = cls(**kw)
    else:
        o.set(**kw)
    if vals is None:
        if case['nonnull']:
            same(o.xs, empty, 'nonnull given null')
        else:
            check(o.xs is None, 'null', o.xs)
    else:
        check(len(o.xs) == len(vals), 'length', o.xs)
    bad = []
    if vals is None and case['required'] and not case['nonnull']:
        bad = ['xs']
    elif vals is not None and not case['nullable']:
        pairs = vals.items() if kind == 'dict' else enumerate(vals)
        bad = [f'xs.{k}' for k, v in pairs if v is None]
    try:
        o.validate(all_fields=True)
        got = []
    except vexc() as e:
        got = list(e.keypath_messages)
    same(sorted(got), sorted(bad), 'missing items')
    return (f'{kind},bad={bool(bad)}' if vals or case['nonnull']
            or case['required'] else False)


FAMILIES = [
    Family('rules', strategy, run, 'some field has a presence rule',
           quick=2500, thorough=60000, shards=4, tshards=8),
    Family('items', item_strategy, run_item,
           'a non-empty collection, nonnull or required', quick=1500,
           thorough=20000, shards=2, tshards=3)]
