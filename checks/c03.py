"""C03: unknown input keys are rejected when strict, ignored otherwise."""
from vp.core import Family, check, same, expect_raises
from vp.build import jc, T, graph, camel, vexc

KIND = ['obj', 'objs', 'objd', 'objll', 'lnk', 'lnks']
BAD = ['zz', 'First_name', 'firstname', 'FIRST_NAME', 'first-name', ' ', 'ids',
       'tojson', 'set', '_is_new', '_graph', 'is_new', 'cdef', 'validate',
       'first_nam', 'first_name_', '__class__', 'FirstName', 'first_name_id',
       'childs_id', 'child_x', 'nameFirst', '_operator', '日本', 'a b']

DOTTED = ['zz.a', 'zz.0.b', 'First_name.x', 'zz[0]', 'childs_id.0',
          'tojson.x', '_graph.a', 'first_name_.child_x.num']


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def tree(draw, depth):
        d = {'known': draw(st.lists(st.sampled_from(
            ['first_name', 'firstName', 'num', 'tag_list', 'tagList']),
            unique=True, max_size=3)),
            'bad': draw(st.lists(st.sampled_from(BAD), unique=True,
                                 max_size=draw(st.sampled_from(
                                     [0, 0, 0, 1, 2])))),
            'pk': draw(st.sampled_from([None, None, 'k1', 'k2'])),
            'kids': None, 'badfirst': draw(st.booleans())}
        if depth > 0:
            d['kids'] = draw(st.lists(tree(depth - 1), max_size=2))
        return d
    return st.fixed_dictionaries({
        'strict': st.tuples(*[st.sampled_from([True, False, False, None])
                              for _ in range(3)]),
        'fstrict': st.tuples(st.booleans(), st.booleans()),
        'kind': st.tuples(st.sampled_from(KIND), st.sampled_from(KIND)),
        'tree': tree(2), 'cam': st.booleans(),
        'dotted': st.lists(st.sampled_from(DOTTED), unique=True,
                           max_size=1),
        'how': st.sampled_from(['init', 'set', 'stored'])})


def build(case):
    g = graph()
    t = T()
    classes = [None] * 3
    for lvl in (2, 1, 0):
        fields = {'id': t.str.primary, 'first_name': t.str, 'num': t.int,
                  'tag_list': t.listof(str)}
        if lvl < 2:
            item = t.objof(f'L{lvl + 1}')
            if case['fstrict'][lvl]:
                item = item.strict
            kind = case['kind'][lvl]
            fields['child_x'] = {
                'obj': lambda: item, 'objs': lambda: t.listof(item),
                'objd': lambda: t.dictof(item),
                'lnk': lambda: item.linkto,
                'lnks': lambda: t.listof(item).linkto,
                'objll': lambda: t.listof(t.listof(item))}[kind]()
        kw = {}
        if case['strict'][lvl] is not None:
            kw['strict_input'] = case['strict'][lvl]
        classes[lvl] = jc(f'L{lvl}', fields, g, **kw)
    return classes


def fresh(cls, case):
    obj = cls(first_name='old', num=9)
    if case['how'] == 'stored':
        obj._mark_not_new()
    return obj


def run(case):
    classes = build(case)
    offending, nbad, seen = [], [0], []

    def is_strict(lvl):
        if lvl > 0 and case['fstrict'][lvl - 1]:
            return True
        s = case['strict'][lvl]
        return True if s is None else s

    def val(k):
        return {'first_name': 'a', 'firstName': 'b', 'num': 3,
                'tag_list': ['x'], 'tagList': ['y']}[k]

    def mk(tr, lvl, path, strip):
        out = {}
        bad = {} if strip else {b: 1 for b in tr['bad']
                                if not (lvl == 2 and b == 'child_x') or True}
        if not strip:
            if lvl < 2:
                bad.pop('child_x', None)
            nbad[0] += len(bad)
            if is_strict(lvl):
                offending.extend('.'.join(path + [b]) for b in bad)
        known = {}
        if tr['pk'] and lvl:
            known['id'] = tr['pk']
            if not strip:
                seen.append((lvl, tr['pk']))
        for k in tr['known']:
            if k == 'firstName' and 'first_name' in known:
                continue
            if k == 'tagList' and 'tag_list' in known:
                continue
            if k == 'first_name' and 'firstName' in known:
                continue
            if k == 'tag_list' and 'tagList' in known:
                continue
            known[k] = val(k)
        if tr['kids'] is not None and lvl < 2 and tr['kids']:
            kind = case['kind'][lvl]
            key = 'childX' if case['cam'] else 'child_x'
            p = path + ['child_x']
            if kind in ('obj', 'lnk'):
                known[key] = mk(tr['kids'][0], lvl + 1, p, strip)
            elif kind in ('objs', 'lnks'):
                known[key] = [mk(x, lvl + 1, p + [str(i)], strip)
                              for i, x in enumerate(tr['kids'])]
            elif kind == 'objll':
                known[key] = [[mk(x, lvl + 1, p + [str(i), '0'], strip)]
                              for i, x in enumerate(tr['kids'])]
            else:
                known[key] = {f'k{i}': mk(x, lvl + 1, p + [f'k{i}'], strip)
                              for i, x in enumerate(tr['kids'])}
        for part in ((bad, known) if tr['badfirst'] else (known, bad)):
            out.update(part)
        return out
    data = mk(case['tree'], 0, [], False)
    clean = mk(case['tree'], 0, [], True)
    cls = classes[0]
    for d in case['dotted']:
        data[d] = 1
        nbad[0] += 1
        if is_strict(0):
            offending.append(d)
    base = fresh(cls, case)
    before = base.tojson()

    def act():
        return cls(**data) if case['how'] == 'init' else base.set(**data)
    if offending:
        e = expect_raises(vexc(), act, 'unknown keys', offending)
        got = set(e.keypath_messages)
        check(got, 'no key path reported')

        def norm(p):
            head = p.split('.')
            return '.'.join(camel(x) if x == 'child_x' else x for x in head)
        check({norm(p) for p in got} <= {norm(p) for p in offending},
              'reported', got, 'offending', offending)
        if case['how'] != 'init' and any(
                '.' not in p and '[' not in p for p in offending):
            same(base.tojson(), before, 'object changed by rejected set')
        return 'rejected' + (
            ',repeated' if len(set(seen)) < len(seen) else '')
    obj = act()
    ref = cls(**clean) if case['how'] == 'init' else fresh(
        cls, case).set(**clean)
    same(obj.tojson(), ref.tojson(), 'unknown keys had an effect')
    check(obj.is_new is (case['how'] != 'stored') and callable(obj.tojson)
          and type(obj) is cls, 'unknown keys changed internals')
    same({k for k in vars(obj) if not k.startswith('_')},
         {k for k in vars(ref) if not k.startswith('_')}, 'attributes')
    return 'ignored' if nbad[0] else False


FAMILIES = [
    Family('keys', strategy, run,
           'the input has at least one unknown key at some depth',
           quick=4000, thorough=120000, shards=6, tshards=8)]
