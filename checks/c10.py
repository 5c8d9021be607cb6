"""C10: modification tracking never misses and never invents a change."""
from vp import coll
from vp.core import Family, check, same


class Hooks:
    results = False

    def __call__(self, obj, st, op):
        got = set(obj.modified_fields)
        heads = {p.split('.')[0] for p in got}
        if st['new']:
            check(obj.is_new and not obj.is_modified and not got,
                  'a new object claims modification', got)
            same(obj.previous_values, {}, 'previous values of a new object')
            return
        check(not obj.is_new, 'object is new')
        changed = {f for f in coll.FIELDS
                   if st['model'][f] != st['clean'][f]}
        check(changed <= heads, 'changed', sorted(changed), 'reported',
              sorted(got), 'after', op)
        check(heads <= st['touched'], 'reported', sorted(got),
              'but only touched', sorted(st['touched']), 'after', op)
        same(obj.is_modified, bool(got), 'is_modified')
        check(st['paths'] <= got, 'paths changed', sorted(st['paths']),
              'reported', sorted(got))
        same(sorted(obj.persisted_modified_fields),
             sorted(p for p in got if p.split('.')[0] not in coll.TEMP),
             'persisted modified fields')


def run(case):
    st = coll.run(case, False, Hooks())
    return st['muts'] > 0 and not case['new']


def run_reset(case):
    st = coll.run(case, True, Hooks())
    return st['muts'] > 0 and not case['new']


FAMILIES = [
    Family('history', coll.strategy, run,
           'an existing object is really changed', quick=3500,
           thorough=80000, shards=4, tshards=8),
    Family('history_resettable', coll.strategy, run_reset,
           'an existing object is really changed', quick=1200,
           thorough=20000, shards=2, tshards=4)]
