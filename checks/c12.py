"""C12: owned lists and dicts behave like the built-ins."""
from vp import coll
from vp.core import Family, check, same


class Hooks:
    results = True

    def __call__(self, obj, st, op):
        from jsonclasses.olist import OwnedList
        from jsonclasses.odict import OwnedDict

        def walk(v, path):
            if isinstance(v, list):
                check(isinstance(v, OwnedList) and v.owner is obj,
                      'a list at', path, 'is not monitored after', op)
                for i, x in enumerate(v):
                    walk(x, f'{path}.{i}')
            elif isinstance(v, dict):
                check(isinstance(v, OwnedDict) and v.owner is obj,
                      'a dict at', path, 'is not monitored after', op)
                for k, x in v.items():
                    walk(x, f'{path}.{k}')
        seen = {}

        def alias(v, path):
            if isinstance(v, (list, dict)):
                check(id(v) not in seen, 'containers at', path, 'and',
                      seen.get(id(v)), 'are the same')
                seen[id(v)] = path
                for k, x in (enumerate(v) if isinstance(v, list)
                             else v.items()):
                    alias(x, f'{path}.{k}')
        for f in coll.FIELDS:
            walk(getattr(obj, f), f)
            alias(getattr(obj, f), f)


def run(case):
    st = coll.run(case, False, Hooks())
    return st['muts'] > 0


# ------------------------------------------------ stand alone notifications
class Owner:
    def __init__(self):
        self.log = []

    def __olist_add__(self, olist, idx, val):
        self.log.append(('add', idx, val))

    def __olist_del__(self, olist, val):
        self.log.append(('del', None, val))

    def __olist_sor__(self, olist):
        self.log.append(('sor',))

    def __olist_will_change__(self, olist):
        self.log.append(('will', list(olist)))

    def __odict_add__(self, odict, key, val):
        self.log.append(('add', key, val))

    def __odict_del__(self, odict, val):
        self.log.append(('del', None, val))

    def __odict_will_change__(self, odict):
        self.log.append(('will', dict(odict)))


def n_strategy():
    from hypothesis import strategies as st
    small = st.integers(0, 4)
    op = st.tuples(st.integers(0, 40), st.integers(-4, 5),
                   st.integers(-4, 5),
                   st.sampled_from(['a', 'b', 'c']), small,
                   st.lists(small, max_size=3)).map(list)
    return st.tuples(st.sampled_from(['list', 'dict']),
                     st.lists(small, max_size=4),
                     st.lists(op, min_size=1, max_size=6)).map(list)


def run_n(case):
    from jsonclasses.outils import to_owned_list, to_owned_dict
    kind, init, ops = case
    owner = Owner()
    if kind == 'list':
        model = list(init)
        real = to_owned_list(owner, init, 'x')
    else:
        model = dict(zip('abcd', init))
        real = to_owned_dict(owner, dict(model), 'x')
    events = 0
    for n, a, b, k, v, vs in ops:
        before = model.copy()
        owner.log = []
        if kind == 'list':
            name = coll.LISTOPS[n % len(coll.LISTOPS)]
            want = coll.list_op(name, model, a, b, v, vs, False)
            got = coll.list_op(name, real, a, b, v, vs, True)
        else:
            name = coll.DICTOPS[n % len(coll.DICTOPS)]
            want = coll.dict_op(name, model, k, v, vs, False)
            got = coll.dict_op(name, real, k, v, vs, True)
        same(got, want, name, 'on', before)
        same(coll.plain(real), model, name, 'on', before, 'contents')
        log = owner.log
        if want[0] == 'exc' and before == model:
            check(not [e for e in log if e[0] in ('add', 'del', 'sor')],
                  name, 'failed but notified', log)
            continue
        if before != model:
            check(log and log[0][0] == 'will', name,
                  'changed the contents without notice first', log)
            same(log[0][1], before, 'contents at the notice')
            check(len(log) > 1, name, 'changed the contents unnoticed')
        adds = [e[2] for e in log if e[0] == "add"]
        dels = [e[2] for e in log if e[0] == "del"]
        old = list(before) if kind == 'list' else list(before.values())
        new = list(model) if kind == 'list' else list(model.values())
        same(sorted(old + adds, key=repr), sorted(new + dels, key=repr), name, 'on', before,
             'notifications', log)
        for e in log:
            if e[0] == 'add':
                events += 1
                if kind == 'dict':
                    same(model[e[1]], e[2], name, 'key of', e)
                elif name != 'imul' or True:
                    check(0 <= e[1] < len(model) and model[e[1]] == e[2],
                          name, 'on', before, 'index of', e, 'now', model)
        if name == 'read':
            check(not log, 'reading notified', log)
    return events > 0


FAMILIES = [
    Family('parity', coll.strategy, run, 'contents really change',
           quick=3500, thorough=80000, shards=4, tshards=8),
    Family('notices', n_strategy, run_n, 'something was added', quick=3000,
           thorough=40000, shards=2, tshards=4)]
