"""C01: write rules hold for every untrusted write, at any depth."""
from vp.core import Family, Violation, check, same
from vp.build import jc, T, graph, camel

NAMES = ['aa', 'first_name', 'item_count_x', 'bb2', 'zip_code', 'k']
INNER = ['ia', 'inner_name', 'ic']
RULES = [[], ['readonly'], ['internal'], ['writeonce'], ['writenonnull'],
         ['writeonly'], ['readonly', 'readwrite'], ['writeonce', 'readonly'],
         ['readonly', 'writeonce'], ['internal', 'writenonnull'],
         ['writeonce', 'readwrite'], ['readwrite'], ['temp', 'readonly'],
         ['readonly', 'temp'], ['writeonce', 'writenonnull'],
         ['writenonnull', 'readonly']]


def effective(rules):
    w = 'any'
    for r in rules:
        w = {'readonly': 'no', 'internal': 'no', 'writeonce': 'once',
             'writenonnull': 'nonnull', 'readwrite': 'any'}.get(r, w)
    return w


def chain(rules, kind, default, pre, inner=None):
    t = T()
    if pre:
        for r in rules:
            t = getattr(t, r)
    t = {'int': lambda: t.int, 'str': lambda: t.str, 'bool': lambda: t.bool,
         'list': lambda: t.listof(int), 'dict': lambda: t.dictof(int),
         'obj': lambda: t.objof(inner), 'objs': lambda: t.listof(inner),
         'objd': lambda: t.dictof(inner)}[kind]()
    if not pre:
        for r in rules:
            t = getattr(t, r)
    if default is not None:
        t = t.default(default)
    return t


def strategy():
    from hypothesis import strategies as st
    ival = st.one_of(st.none(), st.integers(-3, 9))
    scal = {'int': ival, 'str': st.one_of(st.none(), st.sampled_from('abc')),
            'bool': st.one_of(st.none(), st.booleans())}
    inner_fields = st.lists(st.fixed_dictionaries({
        'rules': st.sampled_from(RULES), 'pre': st.booleans()}),
        min_size=3, max_size=3)

    def innerval():
        return st.dictionaries(st.sampled_from(INNER), ival, max_size=3)

    def val(kind):
        if kind in scal:
            return scal[kind]
        return st.one_of(st.none(), {
            'list': st.lists(st.integers(0, 9), max_size=3),
            'dict': st.dictionaries(st.sampled_from('xyz'),
                                    st.integers(0, 9), max_size=3),
            'obj': innerval(), 'objs': st.lists(innerval(), max_size=2),
            'objd': st.dictionaries(st.sampled_from('xyz'), innerval(),
                                    max_size=2)}[kind])

    @st.composite
    def case(draw):
        n = draw(st.integers(2, 5))
        fields = []
        for i in range(n):
            kind = draw(st.sampled_from(
                ['int', 'str', 'bool', 'int', 'list', 'dict', 'obj', 'objs',
                 'objd']))
            default = None
            if kind in scal and draw(st.integers(0, 3)) == 0:
                default = draw(scal[kind].filter(lambda v: v is not None))
            fields.append({'name': NAMES[i], 'kind': kind,
                           'rules': draw(st.sampled_from(RULES)),
                           'default': default, 'pre': draw(st.booleans())})
        inner = draw(inner_fields)
        kinds = {f['name']: f['kind'] for f in fields}

        def kw():
            ks = draw(st.lists(st.sampled_from(sorted(kinds)), unique=True,
                               max_size=n))
            return [[k, draw(st.booleans()), draw(val(kinds[k]))] for k in ks]
        ops = []
        for _ in range(draw(st.integers(1, 6))):
            op = draw(st.sampled_from(['set', 'set', 'set', 'assign',
                                       'update', 'path', 'path', 'new']))
            if op in ('set', 'new'):
                ops.append([op, kw()])
            elif op in ('assign', 'update'):
                k = draw(st.sampled_from(
                    [f['name'] for f in fields
                     if f['kind'] not in ('obj', 'objs', 'objd')] or [None]))
                if k is not None:
                    ops.append([op, k, draw(val(kinds[k]))])
            else:
                k = draw(st.sampled_from(sorted(kinds)))
                ops.append([op, k, draw(st.sampled_from(INNER)),
                            draw(st.integers(0, 2)),
                            draw(st.sampled_from('xyz')),
                            draw(st.integers(0, 9)), draw(st.booleans())])
        return {'fields': fields, 'inner': inner, 'init': kw(), 'ops': ops,
                'persisted': draw(st.booleans())}
    return case()


def run(case):
    g = graph()
    Inner = jc('Inner', {n: chain(f['rules'], 'int', None, f['pre'])
                         for n, f in zip(INNER, case['inner'])}, g)
    cls = jc('Outer', {f['name']: chain(f['rules'], f['kind'], f['default'],
                                        f['pre'], Inner)
                       for f in case['fields']}, g)
    spec = {f['name']: f for f in case['fields']}
    rule = {k: effective(f['rules']) for k, f in spec.items()}
    irule = {n: effective(f['rules']) for n, f in zip(INNER, case['inner'])}
    hit = [False]

    def mk_inner(d):
        out = {n: None for n in INNER}
        write_inner(out, d)
        return out

    def write_inner(cur, d):
        for k, v in d.items():
            r = irule[k]
            if r == 'no' or (r == 'once' and cur[k] is not None) or \
                    (r == 'nonnull' and v is None):
                hit[0] = True
                continue
            cur[k] = v

    def conv(kind, v):
        if v is None:
            return None
        if kind == 'obj':
            return mk_inner(v)
        if kind == 'objs':
            return [mk_inner(x) for x in v]
        if kind == 'objd':
            return {k: mk_inner(x) for k, x in v.items()}
        if kind == 'list':
            return list(v)
        if kind == 'dict':
            return dict(v)
        return v

    def write(model, kw, fresh):
        given = {k: v for k, _, v in kw}
        for k, f in spec.items():
            if k in given:
                v, r = given[k], rule[k]
                if not (r == 'no' or (r == 'once' and model[k] is not None)
                        or (r == 'nonnull' and v is None)):
                    nv = conv(f['kind'], v)
                    if nv is None and f['default'] is not None:
                        nv = f['default']
                    model[k] = nv
                    continue
                hit[0] = True
            if fresh:
                model[k] = f['default']

    def snap(v):
        if isinstance(v, Inner):
            return {n: getattr(v, n) for n in INNER}
        if isinstance(v, list):
            return [snap(x) for x in v]
        if isinstance(v, dict):
            return {k: snap(x) for k, x in v.items()}
        return v

    def compare(obj, model, what):
        for k in spec:
            same(snap(getattr(obj, k)), model[k], what, k, spec[k]['rules'])

    def inp(kw):
        # nested keys follow the same spelling choice as the outer key
        def nested(v, cam):
            if isinstance(v, dict):
                return {(camel(k) if cam and k in INNER else k):
                        nested(x, cam) for k, x in v.items()}
            if isinstance(v, list):
                return [nested(x, cam) for x in v]
            return v
        return {(camel(k) if cam else k): nested(v, cam) for k, cam, v in kw}

    def create(kw):
        model = {k: None for k in spec}
        write(model, kw, True)
        obj = cls(**inp(kw))
        if case['persisted']:
            obj._mark_unmodified()
        compare(obj, model, 'after init')
        return obj, model

    obj, model = create(case['init'])
    for op in case['ops']:
        if op[0] == 'new':
            obj, model = create(op[1])
        elif op[0] == 'set':
            write(model, op[1], False)
            ret = obj.set(**inp(op[1]))
            check(ret is obj, 'set does not return the object')
        elif op[0] == 'assign':
            setattr(obj, op[1], op[2])
            model[op[1]] = conv(spec[op[1]]['kind'], op[2])
        elif op[0] == 'update':
            obj.update(**{op[1]: op[2]})
            model[op[1]] = conv(spec[op[1]]['kind'], op[2])
        else:
            _, k, ik, idx, dk, v, br = op
            kind, cur = spec[k]['kind'], model[k]
            if kind in ('int', 'str', 'bool') or cur is None:
                continue
            if kind == 'obj':
                steps = [k, ik]
            elif kind == 'objs':
                if idx >= len(cur):
                    continue
                steps = [k, str(idx), ik]
            elif kind == 'objd':
                if dk not in cur:
                    continue
                steps = [k, dk, ik]
            elif kind == 'list':
                if idx >= len(cur):
                    continue
                steps = [k, str(idx)]
            else:
                steps = [k, dk]
            path = steps[0] + ''.join(f'[{s}]' for s in steps[1:]) if br \
                else '.'.join(steps)
            if rule[k] in ('no', 'once'):
                hit[0] = True
            elif kind == 'obj':
                write_inner(cur, {ik: v})
            elif kind == 'objs':
                write_inner(cur[idx], {ik: v})
            elif kind == 'objd':
                write_inner(cur[dk], {ik: v})
            elif kind == 'list':
                cur[idx] = v
            else:
                cur[dk] = v
            obj.set(**{path: v})
        compare(obj, model, f'after {op[0]}')
    return hit[0]


def ref_strategy():
    from hypothesis import strategies as st
    rid = st.integers(0, 4)
    one = st.one_of(
        st.tuples(st.just('id'), st.booleans(), rid),
        st.tuples(st.just('obj'), st.booleans(), rid))
    return st.fixed_dictionaries({
        'rule': st.sampled_from([[], ['readonly'], ['internal'],
                                 ['writeonce'], ['writenonnull'],
                                 ['readonly', 'readwrite'], ['writeonly']]),
        'many': st.booleans(),
        'form': st.sampled_from(['id', 'obj']),
        'name': st.sampled_from(['author', 'main_owner']),
        'writes': st.lists(st.tuples(
            st.booleans(), st.one_of(st.none(), st.lists(
                rid, min_size=1, max_size=3, unique=True))),
            min_size=1, max_size=5)})


def run_ref(case):
    g = graph()
    t = T()
    name = case['name'] + ('s' if case['many'] else '')
    f = t.listof('Ref') if case['many'] else t.objof('Ref')
    for r in case['rule']:
        f = getattr(f, r)
    f = f.linkto
    Ref = jc('Ref', {'id': t.int.primary.required}, g)
    cls = jc('Host', {'id': t.int.primary.required, name: f}, g)
    idname = case['name'] + ('_ids' if case['many'] else '_id')
    w = effective(case['rule'])
    cur = [] if case['many'] else None
    obj = None
    hit = False
    for cam, ids in case['writes']:
        v = ids if case['many'] or ids is None else ids[0]
        if case['form'] == 'id':
            key, val = idname, v
        else:
            key = name
            val = None if ids is None else [
                {'id': i} for i in ids] if case['many'] else {'id': v}
        key = camel(key) if cam else key
        blocked = (w == 'no' or (w == 'once' and cur not in (None, []))
                   or (w == 'nonnull' and v is None))
        if blocked:
            hit = True
        else:
            cur = v if v is not None or not case['many'] else []
        if obj is None:
            obj = cls(id=100, **{key: val})
        else:
            obj.set(**{key: val})
        got = getattr(obj, idname)
        if case['form'] == 'id' and v is None and not blocked:
            # what a null key does when it may be written is not this rule
            cur = list(got) if case['many'] else got
        same(list(got) if case['many'] else got, cur, 'reference key after',
             key, val)
        refs = getattr(obj, name)
        if case['form'] == 'obj':
            if case['many']:
                same([r.id for r in refs or []], cur, 'references')
            else:
                same(None if refs is None else refs.id, cur, 'reference')
    return hit


FAMILIES = [
    Family('fields', strategy, run,
           'at least one write was refused by a rule (top level, nested or '
           'by key path)', quick=4000, thorough=120000, shards=5, tshards=7),
    Family('references', ref_strategy, run_ref,
           'a reference write was refused by a rule', quick=600,
           thorough=4000, shards=1, tshards=1),
]
