"""C16: permission guards of classes and fields hold for every operator."""
from vp.core import Family, Violation, check, same
from vp.build import jc, T, graph, vexc

ACTIONS = ['create', 'update', 'delete', 'read']


def guard_strategy(st):
    plain = st.one_of(
        st.tuples(st.just('const'), st.sampled_from(
            [True, True, None, None, False, 'no way', ''])),
        st.tuples(st.just('level'), st.integers(0, 3)),
        st.tuples(st.just('own'), st.just(0)),
        st.tuples(st.just('T'), st.sampled_from(
            ['isthis', 'isobjof', 'owner', 'ownr', 'eq'])),
        st.tuples(st.sampled_from(['lvl', 'elv']), st.integers(0, 3)))
    return st.one_of(plain, plain, plain, st.tuples(
        st.just('or'), st.lists(plain, min_size=1, max_size=3))).map(
            lambda g: [g[0], [list(x) for x in g[1]] if g[0] == 'or'
                       else g[1]])


# a guard's verdict: None = allowed, else the message (True: unspecified)
def verdict(g, op, obj):
    """op, obj: dicts {cls, id, level, owner, self}."""
    k, a = g
    if k == 'const':
        return None if a is True or a is None else (
            a if isinstance(a, str) else True)
    if k == 'level':
        return None if op['level'] >= a else True
    if k == 'lvl':
        return None if op['level'] >= a else True
    if k == 'elv':
        return None if a <= op['level'] <= a + 1 else True
    if k == 'own':
        return None if owns(op, obj) else 'not owner'
    if k == 'T':
        if a == 'isthis':
            ok = op['n'] == obj['n'] or (
                op['cls'] == obj['cls'] and op['id'] == obj['id'] and
                op['id'] is not None)
        elif a == 'isobjof':
            ok = op['cls'] == 'U'
        elif a in ('owner', 'ownr'):
            ok = owns(op, obj)
        else:
            ok = op['level'] == obj['level']
        return None if ok else True
    return None if any(verdict(x, op, obj) is None for x in a) else True


def owns(op, obj):
    o = obj['owner']
    return o is not None and op['cls'] == 'U' and op['id'] == o and (
        op['id'] is not None)


def chain(g, names):
    """A types chain for guards that have one, else None."""
    t = T()
    k, a = g
    if k == 'T':
        return {'isthis': lambda: t.getop.isthis,
                'isobjof': lambda: t.getop.isobjof(names['U']),
                'owner': lambda: t.getop.isobj(t.this.fval('owner')),
                'ownr': lambda: t.this.fval('owner').isobj(t.getop),
                'eq': lambda: t.getop.fval('level').eq(
                    t.this.fval('level'))}[a]()
    if k == 'lvl':
        return t.getop.fval('level').min(a)
    if k == 'elv':      # refused on the way or in the end
        return t.getop.fval('level').min(a).add(1).max(a + 2)
    if k == 'or':
        subs = []
        for x in a:
            c = chain(x, names)
            if c is None:
                # inside oneisvalid a callable sees (value, ctx)
                c = nested_callable(x)
            subs.append(c)
        return t.oneisvalid(subs)
    return None


def decide(g, op, obj):
    k, a = g
    if k == 'const':
        return a
    if k == 'level':
        return op.level >= a
    ok = obj.owner_id is not None and type(op).__name__ == 'Uu' and (
        obj.owner_id == op.id)
    return True if ok else 'not owner'


def nested_callable(g):
    return lambda val, ctx: decide(g, ctx.operator, ctx.owner)


# --- class guards -----------------------------------------------------------
def class_strategy():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        gs = guard_strategy(st)
        odd = st.tuples(st.just('const'), st.sampled_from(
            [0, 1, [], {}, 0.0])).map(list)
        gs = st.one_of(gs, gs, gs, gs, odd)
        guards = {a: draw(st.lists(gs, min_size=1, max_size=3))
                  for a in draw(st.lists(st.sampled_from(ACTIONS),
                                         unique=True, min_size=1))}
        objs = [[c, draw(st.sampled_from([None, 'k1', 'k2', 'k3'])),
                 draw(st.integers(0, 3))]
                for c in draw(st.lists(st.sampled_from('UD'), min_size=1,
                                       max_size=4))]
        step = st.one_of(
            st.tuples(st.just('op'), st.integers(-1, 4)),
            st.tuples(st.sampled_from(
                ['save', 'saveskip', 'delete', 'tojson']), st.just(0)),
            st.tuples(st.just('level'), st.integers(0, 3)),
            st.tuples(st.just('owner'), st.sampled_from(
                [None, 'k1', 'k2', 'k3'])),
            st.tuples(st.just('old'), st.just(0)))
        return {'guards': guards, 'single': draw(st.booleans()),
                'objs': objs, 'id': draw(st.sampled_from([None, 'k1', 'k2'])),
                'steps': [['op', draw(st.integers(-1, 4))]] + [
                    list(s) for s in draw(st.lists(step, min_size=1,
                                                   max_size=10))]}
    return case()


def class_guard(g, names):
    c = chain(g, names)
    if c is not None:
        return c
    return lambda obj, op: decide(g, op, obj)


def run_class(case):
    from jsonclasses.excs import UnauthorizedActionException as No
    t = T()
    g = graph()
    names = {'U': 'Uu', 'D': 'Dd'}
    conf = {}
    for a, gs in case['guards'].items():
        fs = [class_guard(x, names) for x in gs]
        conf[f'can_{a}'] = fs[0] if len(fs) == 1 and case['single'] else fs
    log = []
    for a in ('create', 'update', 'delete'):
        conf[f'on_{a}'] = (lambda a: lambda o: log.append(a))(a)
    U = jc('Uu', {'id': t.str.primary, 'level': t.int}, g)
    D = jc('Dd', {'id': t.str.primary, 'level': t.int,
                  'owner': t.objof('Uu').linkto}, g, **conf)
    D._database_write = lambda self: log.append('write')
    D._orm_delete = lambda self: log.append('erase')
    obj = D(id=case['id'], level=1)
    m = {'cls': 'D', 'id': case['id'], 'level': 1, 'owner': None, 'n': -1}
    ops, models = [obj], [m]
    for n, (c, k, lv) in enumerate(case['objs']):
        ops.append((U if c == 'U' else D)(id=k, level=lv))
        models.append({'cls': c, 'id': k, 'level': lv, 'owner': None, 'n': n})
    new, opi = True, None
    denied = granted = 0
    for name, a in case['steps']:
        if name == 'op':
            opi = None if a < 0 else a % len(ops)
            check(obj.opby(None if opi is None else ops[opi]) is obj, 'opby')
            continue
        if name == 'level':
            obj.level = m['level'] = a
            continue
        if name == 'owner':
            obj.owner_id = m['owner'] = a
            continue
        if name == 'old':
            obj._mark_unmodified()
            new = False
            continue
        act = {'save': 'create' if new else 'update',
               'saveskip': 'create' if new else 'update',
               'delete': 'delete', 'tojson': 'read'}[name]
        gs = case['guards'].get(act, [])
        want = None
        if gs and opi is None:
            want = 'no operator'
        elif gs:
            for x in gs:
                want = verdict(x, models[opi], m)
                if want is not None:
                    break
        log.clear()
        before = [obj.id, obj.level, obj.owner_id, obj.modified_fields]
        fn = {'save': obj.save, 'delete': obj.delete, 'tojson': obj.tojson,
              'saveskip': lambda: obj.save(skip_validation=True)}[name]
        try:
            out = fn()
        except No as e:
            check(want is not None, name, 'refused for', opi, str(e), gs)
            if isinstance(want, str):
                check(want in str(e), name, 'message', e, 'want', want)
            same(log, [], name, 'effects of a refused', act)
            denied += 1
        else:
            check(want is None, name, 'allowed for operator', opi, 'guards',
                  gs, 'object', m)
            granted += bool(gs)
            if name == 'tojson':
                want_out = {'level': m['level']}
                if m['id'] is not None:
                    want_out['id'] = m['id']
                if m['owner'] is not None:
                    want_out['ownerId'] = m['owner']
                same(out, want_out, 'output')
                same(log, [], 'effects of reading')
            elif name == 'delete':
                same(log, ['delete', 'erase'], 'effects of delete')
            else:
                same(log, [act, 'write'], 'effects of save')
        same([obj.id, obj.level, obj.owner_id, obj.modified_fields], before,
             'object after', name)
    return ','.join((['denied'] if denied else []) +
                    (['granted'] if granted else []))


# --- field guards -----------------------------------------------------------
def field_strategy():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        def fields():
            out = []
            for i in range(draw(st.integers(1, 4))):
                kind = draw(st.sampled_from(
                    ['canc', 'canu', 'canw', 'canr', 'canr', 'none']))
                g = draw(guard_strategy(st))
                out.append([f'f{i}', kind, g, draw(st.integers(1, 4)),
                            draw(st.sampled_from(['int', 'list', 'obj']))])
            return out
        objs = [[c, draw(st.sampled_from([None, 'k1', 'k2'])),
                 draw(st.integers(0, 3))]
                for c in draw(st.lists(st.sampled_from('UD'), min_size=1,
                                       max_size=4))]
        step = st.one_of(
            st.tuples(st.just('op'), st.integers(-1, 4), st.just(0)),
            st.tuples(st.sampled_from(['validate', 'tojson', 'tojson']),
                      st.booleans(), st.just(0)),
            st.tuples(st.sampled_from(['write', 'cwrite', 'rewrite']),
                      st.integers(0, 3), st.integers(1, 9)),
            st.tuples(st.just('level'), st.integers(0, 3),
                      st.integers(0, 2)),
            st.tuples(st.just('owner'), st.sampled_from(
                [None, 'k1', 'k2']), st.integers(0, 2)),
            st.tuples(st.just('old'), st.just(0), st.just(0)))
        return {'fields': fields(), 'child': fields(), 'objs': objs,
                'where': draw(st.sampled_from(['one', 'many', 'map'])),
                'init': draw(st.booleans()),
                'steps': [['op', draw(st.integers(-1, 4)), 0]] + [
                    list(s) for s in draw(st.lists(step, min_size=1,
                                                   max_size=10))]}
    return case()


def field_guard(g, nargs, names, bad):
    c = chain(g, names)
    if c is not None:
        return c

    def f4(op, owner, val, ctx):
        if ctx.operator is not op or ctx.val is not val or (
                ctx.owner is not owner):
            bad.append('context mismatch')
        return decide(g, op, owner)
    if g[0] == 'own':
        nargs = max(nargs, 2)
    if nargs == 1:
        return lambda op: decide(g, op, None)
    if nargs == 2:
        return lambda op, owner: decide(g, op, owner)
    if nargs == 3:
        return lambda op, owner, val: f3(g, op, owner, val, bad)
    return f4


def f3(g, op, owner, val, bad):
    if all(val is not v for v in vars(owner).values()):
        bad.append(f'value {val!r} is not of the owner')
    return decide(g, op, owner)


def run_field(case):
    V = vexc()
    t = T()
    g = graph()
    names = {'U': 'Uu', 'D': 'Dd'}
    bad = []

    def ftype(k):
        return {'int': lambda: t.int, 'list': lambda: t.listof(int),
                'obj': lambda: t.objof('Leaf')}[k]()

    def mk(fs):
        out = {}
        for n, kind, gd, na, ty in fs:
            x = ftype(ty)
            if kind != 'none':
                x = getattr(x, kind)(field_guard(
                    gd, na, names, bad if kind != 'canr' else []))
            out[n] = x
        return out

    def value(ty, v):
        return {'int': lambda: v, 'list': lambda: [v],
                'obj': lambda: Leaf(v=v)}[ty]()
    Leaf = jc('Leaf', {'v': t.int}, g)
    U = jc('Uu', {'id': t.str.primary, 'level': t.int}, g)
    D = jc('Dd', {'id': t.str.primary, 'level': t.int,
                  'owner': t.objof('Uu').linkto}, g)
    base = {'level': t.int, 'owner': t.objof('Uu').linkto}
    jc('Kid', {'id': t.str.primary, **base, **mk(case['child'])}, g)
    wh = case['where']
    R = jc('Root', {'id': t.str.primary, **base, **mk(case['fields']),
                    'kid': {'one': t.objof('Kid'), 'many': t.listof('Kid'),
                            'map': t.dictof('Kid')}[wh]}, g)
    kid = {'id': 'c', 'level': 2}
    obj = R(id='r', level=1, kid={'one': lambda: kid, 'many': lambda: [kid],
                                  'map': lambda: {'q': kid}}[wh]())
    c = {'one': lambda: obj.kid, 'many': lambda: obj.kid[0],
         'map': lambda: obj.kid['q']}[wh]()
    cpath = {'one': 'kid', 'many': 'kid.0', 'map': 'kid.q'}[wh]
    real = {'r': obj, 'c': c}
    fs = {'r': case['fields'], 'c': case['child']}
    M = {'r': {'cls': 'R', 'id': 'r', 'level': 1, 'owner': None, 'n': -1},
         'c': {'cls': 'K', 'id': 'c', 'level': 2, 'owner': None, 'n': -2}}
    vals = {'r': {}, 'c': {}}
    if case['init']:
        for w in 'rc':
            for f in fs[w]:
                vals[w][f[0]] = 1
                setattr(real[w], f[0], value(f[4], 1))
    ops, models = [], []
    for n, (k, i, lv) in enumerate(case['objs']):
        ops.append((U if k == 'U' else D)(id=i, level=lv))
        models.append({'cls': k, 'id': i, 'level': lv, 'owner': None, 'n': n})
    new, opi = True, None
    dirty = {'r': set(), 'c': set()}
    touched = []
    checks = 0
    for name, a, b in case['steps']:
        if name == 'op':
            opi = None if a < 0 else a % len(ops)
            obj.opby(None if opi is None else ops[opi])
        elif name == 'level':
            for w in ['rc', 'r', 'c'][b]:
                real[w].level = M[w]['level'] = a
        elif name == 'owner':
            for w in ['rc', 'r', 'c'][b]:
                real[w].owner_id = M[w]['owner'] = a
        elif name == 'old':
            obj._mark_unmodified()
            c._mark_unmodified()
            new = False
            dirty = {'r': set(), 'c': set()}
        elif name in ('write', 'cwrite'):
            w = 'r' if name == 'write' else 'c'
            f = fs[w][a % len(fs[w])]
            if vals[w].get(f[0]) != b:
                vals[w][f[0]] = b
                setattr(real[w], f[0], value(f[4], b))
                dirty[w].add(f[0])
                if w == 'c' and not new:
                    # an embedded object changed in place is revalidated
                    # when its holder is touched too
                    obj.kid = {'one': lambda: None, 'many': lambda: [],
                               'map': lambda: {}}[wh]()
                    obj.kid = {'one': lambda: c, 'many': lambda: [c],
                               'map': lambda: {'q': c}}[wh]()
        elif name == 'rewrite':
            f = fs['r'][a % len(fs['r'])]
            if f[4] != 'obj' and f[0] in vals['r']:
                setattr(obj, f[0], value(f[4], vals['r'][f[0]]))
        elif name == 'validate':
            want = {}
            for w in 'rc':
                if w == 'c' and not new and 'kid' not in obj.modified_fields:
                    continue
                for f in fs[w]:
                    if f[1] not in ('canw', 'canc' if new else 'canu'):
                        continue
                    if not new and f[0] not in dirty[w]:
                        continue
                    v = ('operator not present' if opi is None else
                         verdict(f[2], models[opi], M[w]))
                    if v is not None:
                        want[f[0] if w == 'r' else f'{cpath}.{f[0]}'] = v
            checks += 1
            try:
                obj.validate(all_fields=a)
            except V as e:
                got = e.keypath_messages
                check(set(got) <= set(want) and got, 'reported', got, 'want',
                      want)
                if a:
                    same(set(got), set(want), 'refused fields')
                for k, msg in got.items():
                    if isinstance(want[k], str):
                        check(want[k] in msg, k, 'message', msg, 'want',
                              want[k])
            else:
                same(want, {}, 'permitted, operator', opi)
        else:
            out = obj.tojson(output_null=a)
            jk = out['kid']
            jk = {'one': lambda: jk, 'many': lambda: jk[0],
                  'map': lambda: jk['q']}[wh]()
            for w, js in (('r', out), ('c', jk)):
                for f in fs[w]:
                    v = vals[w].get(f[0])
                    show = f[1] != 'canr' or (
                        opi is not None and
                        verdict(f[2], models[opi], M[w]) is None)
                    wantv = None
                    if v is not None and show:
                        wantv = {'int': v, 'list': [v],
                                 'obj': {'v': v}}[f[4]]
                    if wantv is None and not a:
                        check(f[0] not in js, w, f[0], 'in output', js)
                    else:
                        same(js[f[0]], wantv, w, f[0], 'output for', opi)
            checks += 1
        check(not bad, bad)
    return checks > 0 and any(f[1] != 'none' for w in 'rc' for f in fs[w])


# --- guards that look at linked objects -------------------------------------
def linked_strategy():
    from hypothesis import strategies as st
    key = st.sampled_from(['k1', 'k2', 'k3'])
    return st.fixed_dictionaries({
        'owner': st.one_of(st.none(), key), 'loaded': st.booleans(),
        'pals': st.one_of(st.none(), st.lists(key, unique=True,
                                              max_size=3)),
        'fan': st.one_of(st.none(), key),
        'guards': st.lists(st.tuples(
            st.sampled_from(['len', 'at', 'owner', 'level', 'fan']),
            st.integers(0, 3)).map(list), min_size=1, max_size=4),
        'ops': st.lists(st.one_of(key, key, key, st.just('k4')), min_size=1,
                        max_size=3, unique=True),
        'whole': st.booleans()})


def run_linked(case):
    from jsonclasses.excs import UnauthorizedActionException as No
    t = T()
    g = graph()
    objs = {}
    hit = 0

    def chain(k, a):
        this = t.this
        return {'len': lambda: this.fval('pals').len.min(a),
                'at': lambda: t.getop.isobj(this.fval('pals').at(a)),
                'owner': lambda: t.getop.isobj(this.fval('owner')),
                'level': lambda: this.fobj('owner').fval('level').min(a),
                'fan': lambda: this.fval('fan').isobj(t.getop)}[k]()
    pals = case['pals']
    gs = [(k, a) for k, a in case['guards']
          if k != 'at' or (pals and a < len(pals))]
    gs = [(k, a) for k, a in gs if k != 'level' or case['loaded'] or
          case['owner'] is None]
    if not gs:
        return False
    U = jc('Uu', {'id': t.str.primary, 'level': t.int,
                  'ofan': t.objof('Dd').linkto}, g)
    fs = {f'f{i}': t.int.canr(chain(k, a)) for i, (k, a) in enumerate(gs)}
    D = jc('Dd', {'id': t.str.primary, 'owner': t.objof('Uu').linkto,
                  'pals': t.listof('Uu').linkto,
                  'fan': t.objof('Uu').linkedby('ofan'), **fs}, g,
           **({'can_read': [chain(k, a) for k, a in gs]}
              if case['whole'] else {}))
    for n, k in enumerate(['k1', 'k2', 'k3', 'k4']):
        objs[k] = U(id=k, level=n)
    d = D(id='d', **{n: 5 for n in fs})
    D.include = lambda self, name: self
    if case['owner'] is not None:
        if case['loaded']:
            d.owner = objs[case['owner']]
        else:
            d.owner_id = case['owner']
    if pals is not None:
        d.pals = [objs[k] for k in pals]
    if case['fan'] is not None:
        d.fan = objs[case['fan']]

    def ok(k, a, op):
        if k == 'len':
            return pals is None or len(pals) >= a
        if k == 'at':
            return pals[a] == op
        if k == 'owner':
            return case['owner'] == op
        if k == 'fan':
            return case['fan'] == op
        return case['owner'] is None or objs[case['owner']].level >= a
    for op in case['ops']:
        want = [ok(k, a, op) for k, a in gs]
        hit += not all(want) and any(want)
        try:
            out = d.opby(objs[op]).tojson()
        except No:
            check(case['whole'] and not all(want), op, 'refused, guards', gs,
                  want)
            continue
        check(not case['whole'] or all(want), op, 'may read, guards', gs,
              want)
        same([out.get(f'f{i}') for i in range(len(gs))],
             [5 if w else None for w in want], 'fields', gs, 'for', op)
    return 'some of several' if hit else True


FAMILIES = [
    Family('linked', linked_strategy, run_linked,
           'a guard that looks at linked objects was judged', quick=700,
           thorough=20000, shards=1, tshards=4),
    Family('classes', class_strategy, run_class,
           'a guarded action was attempted', quick=2200, thorough=50000,
           shards=3, tshards=6),
    Family('fields', field_strategy, run_field,
           'a guarded field was validated or output', quick=1700,
           thorough=40000, shards=3, tshards=6)]
