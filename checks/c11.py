"""C11: previous values are the last clean state, and reset restores it."""
import copy
from vp import coll
from vp.core import Family, check, same, expect_raises


class Hooks:
    results = False

    def __call__(self, obj, st, op):
        prev = obj.previous_values
        if st['new']:
            same(prev, {}, 'previous values of a new object')
            return
        changed = {f for f in coll.FIELDS
                   if st['model'][f] != st['clean'][f]}
        check(changed <= set(prev), 'changed', sorted(changed), 'recorded',
              sorted(prev), 'after', op)
        check(set(prev) <= st['touched'], 'recorded', sorted(prev),
              'touched', sorted(st['touched']))
        for f, v in prev.items():
            same(coll.plain(v), st['clean'][f], 'previous value of', f,
                 'after', op)

    def reset(self, obj, st):
        from jsonclasses.excs import JSONClassResetError
        if st['new']:
            expect_raises(JSONClassResetError, obj.reset, 'reset when new')
            return
        obj.reset()
        st['resets'] += bool(st['model'] != st['clean'])
        st['model'].update(copy.deepcopy(st['clean']))
        st.update(touched=set(), paths=set(), shifted=set())
        for f in coll.FIELDS:
            same(coll.plain(getattr(obj, f)), st['clean'][f], 'reset', f)
        check(not obj.is_modified and not obj.modified_fields,
              'modified after reset', obj.modified_fields)
        same(obj.previous_values, {}, 'previous values after reset')


def strategy():
    return coll.strategy(('reset', 'reset'))


def run(case):
    st = coll.run(case, True, Hooks())
    return 'reset' if st['resets'] else st['muts'] > 0 and not case['new']


class Off:
    results = False

    def __call__(self, obj, st, op):
        same(obj.previous_values, {}, 'previous values while disabled')

    def reset(self, obj, st):
        from jsonclasses.excs import JSONClassResetNotEnabledError
        expect_raises(JSONClassResetNotEnabledError, obj.reset,
                      'reset while disabled')


def run_off(case):
    coll.run(case, False, Off())
    return any(o[0] == 'reset' for o in case['ops'])


# --- the key an object is stored under -----------------------------------------
def ident_strategy():
    from hypothesis import strategies as st
    op = st.tuples(st.sampled_from(
        ['id', 'id', 'setid', 'name', 'same', 'save', 'reset', 'new']),
        st.integers(0, 3)).map(list)
    return st.fixed_dictionaries({
        'ty': st.sampled_from(['str', 'int']), 'reset': st.booleans(),
        'deep': st.booleans(), 'none': st.booleans(),
        'ops': st.lists(op, min_size=1, max_size=10)})


def run_ident(case):
    from vp.build import jc, T, graph
    t = T()
    pk = getattr(t, case['ty']).primary
    cls = jc('Ident', {'doc_id': pk, 'name': t.str}, graph(),
             reset_all_fields=case['reset'])
    if case['deep']:
        cls = jc('Sub', {'z': t.int}, cls.cdef.jconf.cgraph.name,
                 bases=(cls,), reset_all_fields=case['reset'])
    pool = ['a', 'b', 'c', ''] if case['ty'] == 'str' else [1, 2, 3, 0]
    cur = None if case['none'] else pool[0]
    o = cls(doc_id=cur, name='n')
    new, kept, name, kname = True, None, 'n', None
    moved = 0
    for op, i in case['ops']:
        if op in ('id', 'setid'):
            cur = pool[i]
            if op == 'id':
                o.doc_id = cur
            else:
                o.set(doc_id=cur)
        elif op == 'name':
            name = f'm{i}'
            o.name = name
        elif op == 'same':
            o.doc_id = cur
        elif op == 'save':
            o._mark_unmodified()
            new, kept, kname = False, cur, name
        elif op == 'new':
            o._mark_new()
            new = True
        elif not new and case['reset']:
            o.reset()
            cur, name = kept, kname
        same(o._id, cur, 'key')
        same(o._previous_id, cur if new else kept, 'stored key after', op)
        same([o.doc_id, o.name], [cur, name], 'values after', op)
        if new:
            continue
        check(o.is_new is False, 'is_new')
        if cur != kept:
            moved += 1
            check('doc_id' in o.modified_fields, 'key change not noted')
            same(o.previous_values['doc_id'], kept, 'previous key')
    return moved > 0


FAMILIES = [
    Family('ident', ident_strategy, run_ident,
           'the key of a stored object was changed', quick=800,
           thorough=10000, shards=1, tshards=2),
    Family('history', strategy, run,
           'the object was changed, most often also reset', quick=3500,
           thorough=80000, shards=4, tshards=8),
    Family('disabled', strategy, run_off, 'a reset is attempted', quick=500,
           thorough=5000, shards=1, tshards=2)]
