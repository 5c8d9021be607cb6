"""C14: reference keys always name the linked objects."""
from vp import rel
from vp.core import Family, check, same
from vp.build import jc, T, graph


def after(w, i, f, op):
    for x, o in enumerate(w.objs):
        for h in w.fields(x):
            if not h[3]:
                continue
            key = getattr(o, rel.keyname(h[0]))
            v = w.m[x][h[0]]
            if h[1] == 'one':
                loose = (w.loose[x][h[0]] or [None])[0]
                want = loose if v is None else w.objs[v].id
                check(key == want, f'{x}.{h[0]} key {key!r}, want {want!r}',
                      'after', op)
            else:
                loose = w.loose[x][h[0]]
                want = [w.objs[j].id for j in v]
                if loose:
                    check(sorted(key) == sorted(want + loose),
                          f'{x}.{h[0]} keys {key!r}, want', want, loose,
                          'after', op)
                    continue
                check(list(key) == want, f'{x}.{h[0]} keys {key!r}, want',
                      want, 'after', op)
        mod = set(o.modified_fields)
        if w.new[x]:
            check(not mod and not o.is_modified, 'new object', x,
                  'modified', mod, 'after', op)
            continue
        check(o.is_modified == bool(mod), 'is_modified', o.is_modified,
              'modified fields', mod, 'object', x, 'after', op)
        keyed = {h[0] for h in w.fields(x) if h[3]}
        check(w.dirty[x] & keyed <= mod, 'object', x, 'modified', mod,
              'changed', w.dirty[x], 'after', op)


def run(case):
    w = rel.run(case, after)
    return case['kind'] if w.muts >= 2 else False


# ----------------------------------------------- link commands of input
def cmd_strategy():
    from hypothesis import strategies as st
    key = st.sampled_from(['a', 'b', 'c', 'd', ''])
    cmd = st.tuples(st.sampled_from(['_add', '_add', '_del']), key).map(list)
    return st.fixed_dictionaries({
        'start': st.one_of(st.none(), st.lists(key, unique=True,
                                               max_size=4)),
        'nested': st.booleans(), 'new': st.booleans(),
        'steps': st.lists(st.tuples(st.booleans(), st.lists(
            cmd, min_size=1, max_size=3)).map(list), min_size=1,
            max_size=4)})


_cmd = {}


def run_cmd(case):
    """Input may add or remove single keys of a list of references whose
    objects are not loaded."""
    if not _cmd:
        t = T()
        g = graph()
        _cmd['A'] = jc('Aut', {
            'id': t.str.primary, 'name': t.str,
            'good_posts': t.listof('Pst').linkto,
            'tags': t.listof('Tg').linkedthru('auts'),
            'sub': t.objof('Aut')}, g)
        jc('Pst', {'id': t.str.primary,
                   'fans': t.listof('Aut').linkedby('good_posts')}, g)
        jc('Tg', {'id': t.str.primary,
                  'auts': t.listof('Aut').linkedthru('tags')}, g)
    A = _cmd['A']
    o = A(id='x', name='n')
    keys = []
    if case['start'] is not None:
        o.good_post_ids = list(case['start'])
        keys = list(case['start'])
    changed = 0
    if not case['new']:
        o._mark_unmodified()
    dirty = False
    for camelized, cmds in case['steps']:
        before = list(keys)
        use = []
        for c, k in cmds:
            if c == '_add' and k in keys:
                continue
            use.append({c: k})
            if c == '_add':
                keys.append(k)
            elif k in keys:
                keys.remove(k)
        name = 'goodPosts' if camelized else 'good_posts'
        data = {name: use, 'name': 'm', 'tags': list(use)}
        o.set(**data)
        same(list(o.good_post_ids or []), keys, 'keys after', use, 'on',
             before)
        same(o.name, 'm', 'the rest of the input')
        check(not o.good_posts, 'objects appeared', o.good_posts)
        changed += before != keys
        dirty = dirty or before != keys
        if not case['new'] and dirty:
            check('good_posts' in o.modified_fields, 'change not recorded')
        same(o.tojson()['goodPostIds'], keys, 'output')
    if case['nested']:
        p = A(id='p', sub={'good_posts': [{'_add': k} for k in keys]})
        same(list(p.sub.good_post_ids or []), keys, 'nested')
        same(list(p.good_post_ids or []), [], 'outer object')
    return changed > 0


FAMILIES = [
    Family('commands', cmd_strategy, run_cmd, 'keys were added or removed',
           quick=600, thorough=8000, shards=1, tshards=2),
    Family('history', lambda: rel.strategy(rel.KEYOPS, lone=True), run,
           'at least two operations change links', quick=4000,
           thorough=60000, shards=4, tshards=8)]
