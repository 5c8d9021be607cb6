"""C17: saving and deleting run their stages in order and stop at a failure."""
from vp import rel
from vp.core import Family, Violation, check, same
from vp.build import jc, T, graph, vexc


class Boom(Exception):
    pass


STAGES = ['guard', 'hook0', 'hook1', 'validate', 'serialize', 'write']


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        step = st.one_of(
            st.tuples(st.sampled_from(['save', 'save', 'save', 'delete']),
                      st.sampled_from([None, None] + STAGES),
                      st.sampled_from(['plain', 'all', 'skip'])),
            st.tuples(st.just('write'), st.integers(-3, 3), st.just(0)),
            st.tuples(st.just('req'), st.sampled_from([None, 'x']),
                      st.just(0)),
            st.tuples(st.just('op'), st.integers(0, 2), st.just(0)),
            st.tuples(st.just('old'), st.just(0), st.just(0)))
        return {'guards': draw(st.lists(st.sampled_from(
                    ['create', 'update', 'delete']), unique=True)),
                'hooks': {a: draw(st.lists(st.integers(1, 2), max_size=2))
                          for a in ('create', 'update', 'delete')},
                'bump': draw(st.booleans()),
                'steps': [list(s) for s in draw(st.lists(
                    step, min_size=1, max_size=10))]}
    return case()


def run(case):
    from jsonclasses.excs import UnauthorizedActionException as No
    V = vexc()
    t = T()
    log = []
    fail = [None]
    conf = {}

    def stage(name, *info):
        log.append([name, *info])
        if fail[0] == name:
            raise Boom(name)

    def hook(act, i, n):
        if n == 1:
            def f(o):
                stage(f'hook{i}', act, o is obj)
                if case['bump']:
                    o.n = (o.n or 0) + 1
        else:
            def f(o, op):
                stage(f'hook{i}', act, o is obj, op)
                if case['bump']:
                    o.n = (o.n or 0) + 1
        return f
    for a in case['guards']:
        conf[f'can_{a}'] = (lambda a: lambda o, op: stage(
            'guard', a, o is obj, op))(a)
    for a, ns in case['hooks'].items():
        fs = [hook(a, i, n) for i, n in enumerate(ns)]
        if fs:
            conf[f'on_{a}'] = fs[0] if len(fs) == 1 else fs

    def val(v):
        stage('validate', v)
        return v >= 0

    def ser(v):
        stage('serialize', v)
        return (v or 0) + 100
    C = jc('Life', {'n': t.int.validate(val), 'r': t.str.required,
                    's': t.int.setonsave(ser)}, graph(), **conf)
    C._database_write = lambda self: stage('write', self.n, self.s)
    C._orm_delete = lambda self: stage('write', 'delete')
    obj = C(n=0, r='x')
    m = {'n': 0, 'r': 'x', 's': None}
    new, op, failed, mod = True, None, 0, set()
    for name, a, b in case['steps']:
        if name == 'write':
            if a != m['n']:
                mod.add('n')
            obj.n = m['n'] = a
            continue
        if name == 'req':
            if a != m['r']:
                mod.add('r')
            obj.r = m['r'] = a
            continue
        if name == 'op':
            op = f'operator{a}' if a else None
            obj.opby(op)
            continue
        if name == 'old':
            obj._mark_unmodified()
            new = False
            mod = set()
            continue
        act = 'delete' if name == 'delete' else 'create' if new else 'update'
        log.clear()
        fail[0] = a
        want, res = [], 'ok'

        def go(name, *info):
            want.append([name, *info])
            return fail[0] == name

        def expect():
            if act in case['guards']:
                if op is None:
                    return 'No'
                if go('guard', act, True, op):
                    return 'Boom'
            for i, k in enumerate(case['hooks'][act]):
                if go(f'hook{i}', act, True, *([op] if k == 2 else [])):
                    return 'Boom'
                if case['bump']:
                    m['n'] = (m['n'] or 0) + 1
                    if not new:
                        mod.add('n')
            if act == 'delete':
                return 'Boom' if go('write', 'delete') else 'ok'
            if b != 'skip':
                bad = []
                if (new or 'n' in mod) and m['n'] is not None:
                    if go('validate', m['n']):
                        return 'Boom'
                    if m['n'] < 0:
                        bad.append('n')
                if (new or 'r' in mod) and m['r'] is None:
                    bad.append('r')
                if bad:
                    return bad if b == 'all' else bad[:1]
            if new or mod:
                if go('serialize', m['s']):
                    return 'Boom'
                m['s'] = (m['s'] or 0) + 100
                if not new:
                    mod.add('s')
            if go('write', m['n'], m['s']):
                return 'Boom'
            return 'ok'
        res = expect()
        try:
            if name == 'delete':
                out = obj.delete()
            else:
                out = obj.save(validate_all_fields=b == 'all',
                               skip_validation=b == 'skip')
            got = 'ok'
            check(out is obj, name, 'returned', out)
        except Boom:
            got = 'Boom'
        except No:
            got = 'No'
        except V as e:
            got = sorted(e.keypath_messages)
        same(got, res, name, 'outcome')
        same(log, want, name, 'stages')
        same([obj.n, obj.r, obj.s, obj.is_new], [m['n'], m['r'], m['s'], new],
             'state after', name)
        if not new:
            same(set(obj.modified_fields), mod, 'modified after', name)
        failed += res != 'ok'
    return 'failed' if failed else any(
        s[0] in ('save', 'delete') for s in case['steps'])


# --- objects unlinked since the last save are saved too ---------------------
def after(w, i, f, op):
    if op[0] != 'save':
        return
    pools = [j for j in range(len(w.objs)) if any(w.pool[j].values())]
    if pools:
        i = pools[op[2] % len(pools)]
    x = w.objs[i]
    if op[1] % 2 == 0:
        for o in w.objs:
            o._mark_not_new()
    want, todo = set(), [i]
    while todo:
        j = todo.pop()
        if j in want:
            continue
        want.add(j)
        for ys in w.pool[j].values():
            todo += ys
    log = []
    for cls in {w.A, w.B}:
        cls._database_write = lambda self: log.append(w.idx[id(self)])
    check(x.save() is x, 'save returned another object')
    check(log and log[0] == i, 'saving', i, 'wrote', log)
    same(set(log), want, 'objects written when saving', i)
    for j in want:
        for f, ys in w.pool[j].items():
            ys.clear()
        left = [y for v in w.objs[j].unlinked_objects.values() for y in v]
        check(not left, 'unlinked objects of', j, 'left after save')
    w.saves = getattr(w, 'saves', 0) + (len(want) > 1)


def run_unlinked(case):
    w = rel.run(case, after)
    return getattr(w, 'saves', 0) > 0


# --- a failure among the unlinked objects ------------------------------------
def pool_strategy():
    from hypothesis import strategies as st
    item = st.fixed_dictionaries({
        'n': st.sampled_from([1, 1, 2, -1]), 'stored': st.booleans(),
        'touch': st.sampled_from([None, None, 3, -2]),
        'keep': st.sampled_from([False, False, True])})
    return st.fixed_dictionaries({
        'items': st.lists(item, min_size=1, max_size=4),
        'how': st.sampled_from(['one', 'many', 'assign', 'reverse']),
        'mode': st.sampled_from(['plain', 'all', 'skip'])})


def run_pool(case):
    V = vexc()
    t = T()
    g = graph()
    log = []
    U = jc('Un', {'id': t.int.primary, 'ps': t.listof('Pn').linkedby('u')}, g)
    P = jc('Pn', {'id': t.int.primary, 'n': t.int.validate(lambda v: v >= 0),
                  'm': t.int.required, 'u': t.objof('Un').linkto}, g,
           on_create=lambda o: log.append(['create', o.id]),
           on_update=lambda o: log.append(['update', o.id]))
    U._database_write = P._database_write = lambda self: log.append(
        ['write', type(self).__name__, self.id])
    root = U(id=1, ps=[])
    root._mark_unmodified()
    ps = [P(id=i, n=it['n'], m=1) for i, it in enumerate(case['items'])]
    root.ps.extend(ps)
    for p, it in zip(ps, case['items']):
        if it['stored']:
            p._mark_unmodified()
        if it['touch'] is not None:
            p.n = it['touch']
    gone = [p for p, it in zip(ps, case['items']) if not it['keep']]
    kept = [p for p, it in zip(ps, case['items']) if it['keep']]
    if case['how'] == 'assign':
        root.ps = kept
    elif case['how'] == 'many':
        root.ps[:] = kept
    elif case['how'] == 'reverse':
        for p in reversed(gone):
            root.ps.remove(p)
    else:
        for p in gone:
            p.u = None

    def bad(p):
        it = case['items'][p.id]
        return p.n < 0 and (not it['stored'] or (
            it['touch'] is not None and it['touch'] != it['n']))
    log.clear()
    try:
        root.save(validate_all_fields=case['mode'] == 'all',
                  skip_validation=case['mode'] == 'skip')
        ok = True
    except V as e:
        ok = False
        check(all('n' == k.split('.')[-1] for k in e.keypath_messages),
              'reported', e.keypath_messages)
    written = [e[1:] for e in log if e[0] == 'write']
    if case['mode'] == 'skip':
        check(ok, 'validated although told to skip')
    elif any(bad(p) for p in kept):
        check(not ok and not written, 'an object linked to the saved one is '
              'invalid, wrote', written)
    else:
        check(ok == (not any(bad(p) for p in gone)), 'save of unlinked',
              'objects with n', [p.n for p in gone], 'ok' if ok else 'failed')
        check(written[0] == ['Un', 1], 'first write', written)
        for p in gone:
            if bad(p):
                check(['Pn', p.id] not in written, 'invalid object', p.id,
                      'written:', written)
    if ok:
        got = sorted({i for k, i in written if k == 'Pn'})
        same(got, sorted(p.id for p in gone), 'unlinked objects written')
        for p in gone:
            kind = 'update' if case['items'][p.id]['stored'] else 'create'
            seq = [e[0] for e in log if e[-1] == p.id and e[1:2] != ['Un']]
            same(seq[:2], [kind, 'write'], 'stages of unlinked', p.id)
    if not gone:
        return False
    return 'bad' if any(bad(p) for p in gone) else True


FAMILIES = [
    Family('stages', strategy, run, 'a save or delete was attempted',
           quick=2500, thorough=60000, shards=3, tshards=6),
    Family('unlinked', lambda: rel.strategy(['save'] * 6), run_unlinked,
           'a save reached an unlinked object', quick=1500, thorough=30000,
           shards=2, tshards=4),
    Family('unlinked_invalid', pool_strategy, run_pool,
           'an object was unlinked before the save', quick=1000,
           thorough=20000, shards=1, tshards=2)]
