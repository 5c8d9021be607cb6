"""C07: validation reports every violation, and only violations, by path."""
from vp.core import Family, Violation, check, same
from vp.build import jc, T, graph, vexc, camel

FN = ['aa', 'first_name', 'count_two', 'b2', 'zip_code_x']
KINDS = ['leaf', 'leaf', 'req', 'list', 'dict', 'deep', 'obj', 'objreq',
         'objs', 'objd', 'two', 'limlist', 'limdict', 'limobjs']


def strategy(maxobjs=4):
    from hypothesis import strategies as st
    num = st.integers(-3, 3)

    @st.composite
    def case(draw):
        nc = draw(st.integers(1, 3))
        classes = []
        for c in range(nc):
            fs = []
            for n in FN[:draw(st.integers(1, 4))]:
                k = draw(st.sampled_from(KINDS))
                f = [n, k]
                if 'obj' in k:
                    f.append(draw(st.integers(0, nc - 1)))
                fs.append(f)
            classes.append({'conf': draw(st.sampled_from(
                [None, None, True, False])), 'fields': fs,
                'pk': draw(st.booleans())})
        ids = draw(st.sampled_from([99, 99, 1, 2]))
        objs = [0] + draw(st.lists(st.integers(0, nc - 1),
                                   max_size=maxobjs - 1))
        pool = {}
        for i, c in enumerate(objs):
            pool.setdefault(c, []).append(i)
        vals = []
        for i, c in enumerate(objs):
            row = []
            for f in classes[c]['fields']:
                k = f[1]
                if k in ('leaf', 'two'):
                    v = draw(st.one_of(st.none(), num))
                elif k == 'req':
                    v = draw(st.sampled_from([None, 'x', 'y', '']))
                elif k in ('list', 'limlist'):
                    v = draw(st.one_of(st.none(), st.lists(
                        st.one_of(num, num, st.none()), max_size=4)))
                elif k in ('dict', 'limdict'):
                    v = draw(st.one_of(st.none(), st.dictionaries(
                        st.sampled_from(['k', 'a_b', 'aB', 'x']), num,
                        max_size=3)))
                elif k == 'deep':
                    v = draw(st.one_of(st.none(), st.lists(
                        st.dictionaries(st.sampled_from(['p', 'q_r']), num,
                                        max_size=2), max_size=2)))
                else:
                    choices = pool.get(f[2], [])
                    one = st.sampled_from(choices) if choices else None
                    if k in ('obj', 'objreq'):
                        v = draw(st.one_of(st.none(), one) if one
                                 else st.none())
                    elif k in ('objs', 'limobjs'):
                        v = draw(st.lists(one, max_size=3)) if one else []
                    else:
                        v = draw(st.dictionaries(
                            st.sampled_from(['k', 'a_b']), one, max_size=2)
                        ) if one else {}
                row.append(v)
            vals.append(row)
        return {'classes': classes, 'objs': objs, 'vals': vals, 'ids': ids,
                'mode': draw(st.sampled_from(
                    [None, True, True, False, 'save', 'saveall'])),
                'fix': draw(st.booleans())}
    return case()


def msg(v):
    return f'negative {v}'


LONG = 'too many'


def odd(v):
    return f'odd {v}'


def build(case, fail=None):
    t = T()
    g = graph()
    leaf = t.int.validate(lambda v: msg(v) if v < 0 else None)
    names = [f'C{i}x' for i in range(len(case['classes']))]
    out = []
    for i, c in enumerate(case['classes']):
        fields = {}
        if c['pk']:
            fields['id'] = t.str.primary
        for f in c['fields']:
            k = f[1]
            fields[f[0]] = {
                'leaf': lambda: leaf,
                'two': lambda: leaf.validate(
                    lambda v: odd(v) if v % 2 else None),
                'req': lambda: t.str.required,
                'list': lambda: t.listof(leaf),
                'dict': lambda: t.dictof(leaf),
                'deep': lambda: t.listof(t.dictof(leaf)),
                'obj': lambda: t.objof(names[f[2]]),
                'objreq': lambda: t.objof(names[f[2]]).required,
                'objs': lambda: t.listof(names[f[2]]),
                'objd': lambda: t.dictof(names[f[2]]),
                'limlist': lambda: t.listof(leaf).maxlength(2),
                'limdict': lambda: t.dictof(leaf).validate(
                    lambda v: LONG if len(v) > 1 else None),
                'limobjs': lambda: t.listof(names[f[2]]).maxlength(1)}[k]()
        conf = {} if c['conf'] is None else {'validate_all_fields': c['conf']}
        out.append(jc(names[i], fields, g, **conf))
    return out


def errors(case, i, path, allf, seen):
    """Ordered list of (path, [messages]) for object i."""
    if i in seen:
        return []
    seen.add(i)
    c = case['classes'][case['objs'][i]]
    cls_all = allf if allf is not None else bool(c['conf'])
    out = []

    def leaf(v, p, two=False, required=False):
        if v is None:
            return [(p, ['value required'])] if required else []
        ms = []
        if v < 0:
            ms.append(msg(v))
        if two and v % 2:
            ms.append(odd(v))
        return [(p, ms)] if ms else []

    def col(items, p, sub):
        res = []
        for key, v in items:
            res += sub(v, f'{p}.{key}')
            if res and not cls_all:
                return res
        return res
    for f, v in zip(c['fields'], case['vals'][i]):
        p = (path + '.' if path else '') + camel(f[0])
        k = f[1]
        lim = 0
        if k.startswith('lim'):
            # a limit on the size stands after the items in the chain
            k = k[3:]
            lim = {'list': 2, 'dict': 1, 'objs': 1}[k]
        if k in ('leaf', 'two'):
            e = leaf(v, p, k == 'two')
        elif k == 'req':
            e = [(p, ['value required'])] if v is None else []
        elif k == 'list':
            e = col(enumerate(v or []), p,
                    lambda v, q: leaf(v, q, required=True))
        elif k == 'dict':
            e = col((v or {}).items(), p, lambda v, q: leaf(v, q))
        elif k == 'deep':
            e = col(enumerate(v or []), p, lambda d, q: col(
                d.items(), q, lambda v, r: leaf(v, r)))
        elif k in ('obj', 'objreq'):
            if v is None:
                e = [(p, ['value required'])] if k == 'objreq' else []
            else:
                e = errors(case, v, p, allf, seen)
        elif k == 'objs':
            e = col(enumerate(v), p,
                    lambda j, q: errors(case, j, q, allf, seen))
        else:
            e = col(v.items(), p,
                    lambda j, q: errors(case, j, q, allf, seen))
        if lim and len(v or []) > lim and (allf or not e):
            e.append((p, [LONG, 'length of value is not less than or equal '
                          f'{lim}']))
        out += e
        if out and not cls_all:
            return out
    return out


def make(case):
    classes = build(case)
    objs = []
    for n, c in enumerate(case['objs']):
        o = classes[c]()
        if case['classes'][c]['pk']:
            o.id = f'o{n % case.get("ids", 99)}'
        objs.append(o)
    for o, c, row in zip(objs, case['objs'], case['vals']):
        for f, v in zip(case['classes'][c]['fields'], row):
            put(o, f, v, objs)
    return objs


def put(o, f, v, objs):
    k = f[1]
    if v is None:
        return
    if k in ('obj', 'objreq'):
        v = objs[v]
    elif k in ('objs', 'limobjs'):
        v = [objs[j] for j in v]
    elif k == 'objd':
        v = {q: objs[j] for q, j in v.items()}
    setattr(o, f[0], v)


def compare(case, o):
    mode = case['mode']
    allf = {'save': False, 'saveall': True}.get(mode, mode)
    want = errors(case, 0, '', allf, set())
    try:
        if mode == 'save':
            o.save()
        elif mode == 'saveall':
            o.save(validate_all_fields=True)
        elif mode is None:
            o.validate()
        else:
            o.validate(all_fields=mode)
        got = None
    except vexc() as e:
        got = dict(e.keypath_messages)
        check(e.root is o, 'the exception names another root object')
        for p, m in got.items():
            check(p in e.message and m in e.message, 'text lacks', p)
        check(str(e) == e.message, 'str')
    if not want:
        check(got is None, 'valid object rejected:', got)
    else:
        check(got is not None, 'invalid object accepted; errors', want)
        same(sorted(got), sorted(p for p, _ in want), 'reported paths')
        for p, ms in want:
            check(got[p] in ms, 'message', got[p], 'for', p, 'want', ms)
    same(o.is_valid, not errors(case, 0, '', False, set()), 'is_valid')
    return want


def run(case):
    o = make(case)[0]
    want = compare(case, o)
    if case['fix'] and want:
        # repairing exactly the reported fields of leaves makes them go away
        path = want[0][0]
        i, row, n = locate(case, path)
        if i is not None and case['classes'][case['objs'][i]]['fields'][n][1] \
                in ('leaf', 'two', 'req'):
            f = case['classes'][case['objs'][i]]['fields'][n]
            v = 'ok' if f[1] == 'req' else 2
            row[n] = v
            o2 = o
            for part in walk(case, path):
                o2 = part(o2)
            setattr(o2, f[0], v)
            compare(case, o)
    deep = any('.' in p for p, _ in want)
    return f"{'several' if len(want) > 1 else 'one' if want else 'valid'}," \
        f"{'nested' if deep else 'flat'}" if want else False


def _steps(case, path):
    parts = path.split('.')
    i, steps = 0, []
    while True:
        c = case['classes'][case['objs'][i]]
        n = next(n for n, f in enumerate(c['fields'])
                 if camel(f[0]) == parts[0])
        f, v = c['fields'][n], case['vals'][i][n]
        k = f[1]
        if k in ('obj', 'objreq') and len(parts) > 1:
            steps.append(lambda o, a=f[0]: getattr(o, a))
            i, parts = v, parts[1:]
        elif k in ('objs', 'limobjs') and len(parts) > 1:
            j = int(parts[1])
            steps.append(lambda o, a=f[0], j=j: getattr(o, a)[j])
            i, parts = v[j], parts[2:]
        elif k == 'objd':
            steps.append(lambda o, a=f[0], j=parts[1]: getattr(o, a)[j])
            i, parts = v[parts[1]], parts[2:]
        else:
            return i, n, steps


def locate(case, path):
    i, n, _ = _steps(case, path)
    return i, case['vals'][i], n


def walk(case, path):
    return _steps(case, path)[2]


# ------------------------------------------------------- errors from input
def in_strategy():
    from hypothesis import strategies as st
    good = st.sampled_from(['2020-01-02', None])
    val = st.one_of(good, good, st.sampled_from(['zz', '2020-13-01', '']))

    def node(depth):
        d = {'when_at': val, 'tag': st.sampled_from(['RED', 'BLUE', None,
                                                     'NOPE', 'RED'])}
        if depth:
            sub = node(depth - 1)
            d['sub_one'] = st.one_of(st.none(), sub)
            d['all_subs'] = st.lists(sub, max_size=2)
            d['by_key'] = st.dictionaries(st.sampled_from(['a_b', 'k']), sub,
                                          max_size=2)
            d['days'] = st.lists(val.filter(lambda x: x is not None),
                                 max_size=3)
        return st.fixed_dictionaries({}, optional=d)
    return st.fixed_dictionaries({'input': node(2),
                                  'set': st.booleans()})


_in = {}


def run_in(case):
    t = T()
    if not _in:
        from enum import Enum
        E = Enum('Eo', {'RED': 1, 'BLUE': 2})
        _in['A'] = jc('A', {
            'when_at': t.date, 'tag': t.enum(E),
            'sub_one': t.objof('A'), 'all_subs': t.listof('A'),
            'by_key': t.dictof('A'), 'days': t.listof(t.date)}, graph())
    A = _in['A']
    bad = []

    def is_bad(v):
        return v in ('zz', '2020-13-01', '')

    def walk_in(d, path):
        def p(k):
            return (path + '.' if path else '') + camel(k)
        if is_bad(d.get('when_at')):
            bad.append(p('when_at'))
        if d.get('tag') == 'NOPE':
            bad.append(p('tag'))
        for i, v in enumerate(d.get('days') or []):
            if is_bad(v):
                bad.append(p('days') + f'.{i}')
        if d.get('sub_one'):
            walk_in(d['sub_one'], p('sub_one'))
        for i, s in enumerate(d.get('all_subs') or []):
            walk_in(s, p('all_subs') + f'.{i}')
        for k, s in (d.get('by_key') or {}).items():
            walk_in(s, p('by_key') + f'.{k}')
    walk_in(case['input'], '')
    try:
        o = A().set(**case['input']) if case['set'] else A(**case['input'])
        got = None
    except vexc() as e:
        got = sorted(e.keypath_messages)
    if bad:
        check(got and all(p in bad for p in got), 'input errors reported at',
              got, 'offending', bad)
    else:
        check(got is None, 'input rejected at', got)
        check(o.is_valid, 'accepted input is not valid')
    return bool(bad)


FAMILIES = [
    Family('trees', strategy, run,
           'the object graph has at least one invalid field', quick=5000,
           thorough=120000, shards=4, tshards=8),
    Family('input', in_strategy, run_in,
           'the input holds at least one unreadable value', quick=2500,
           thorough=40000, shards=2, tshards=4)]
