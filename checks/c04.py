"""C04: JSON round trip."""
import json
from datetime import datetime, timezone
from vp import schema as sc
from vp.core import Family, check, same, typed_eq, Violation
from vp.build import jc, T, graph, camel, dec


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        S = sc.strategies()
        sch = sc.schema(draw)
        vals = {name: sc.value(draw, sch, fn, S)
                for name, fn in sch['classes'][0]}
        return {'schema': sch, 'values': vals,
                'keys': draw(st.sampled_from(
                    ['camel', 'camel', 'identical', 'flag', 'custom'])),
                'null': draw(st.booleans())}
    return case()


def ms(v):
    """Datetimes as they survive the millisecond UTC wire form."""
    if isinstance(v, datetime):
        if v.tzinfo is None:
            v = v.replace(tzinfo=timezone.utc)
        v = v.astimezone(timezone.utc)
        return v.replace(microsecond=v.microsecond // 1000 * 1000)
    if isinstance(v, list):
        return [ms(x) for x in v]
    if isinstance(v, dict):
        return {k: ms(x) for k, x in v.items()}
    if isinstance(v, tuple):
        return (v[0], ms(v[1]))
    return v


def teq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a[0] is b[0] and teq(a[1], b[1])
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(map(teq, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(teq(a[k], b[k]) for k in a)
    return typed_eq(a, b)


def run(case):
    from jsonclasses import JSONEncoder
    sch = case['schema']
    mode = case['keys']
    conf = {'camel': {}, 'flag': {'camelize_json_keys': False},
            'identical': {'output_key_strategy': 'identical'},
            'custom': {'output_key_strategy': lambda s: 'j_' + str(s)}}[mode]
    key = {'camel': camel, 'custom': lambda s: 'j_' + s}.get(
        mode, lambda s: s)
    conf = dict(conf, output_null=case['null'])
    classes, E = sc.build(sch, conf=lambda i: conf)
    cls = classes[0]
    vals = case['values']
    root = {'k': 'obj', 'i': 0}
    enc_root = {'$o': vals}
    obj = cls(**{k: sc.decode(v, E) for k, v in vals.items()})
    want_live = sc.live(enc_root, root, sch, E, classes)
    got_live = sc.snapshot(obj, classes)
    want = sc.obj_json(vals, 0, sch, key, case['null'])
    got = obj.tojson()
    same(got, want, 'output')
    text = json.dumps(got, allow_nan=False)
    wire = json.loads(text)
    same(wire, got, 'output is not plain JSON')
    same(json.loads(json.dumps(obj, cls=JSONEncoder)), wire, 'JSONEncoder')
    same(json.loads(json.dumps({'x': [obj]}, cls=JSONEncoder)),
         {'x': [wire]}, 'JSONEncoder nested')
    if not teq(ms(got_live), ms(want_live)):
        raise Violation(f'value read: {got_live!r} want {want_live!r}')
    obj.validate()
    back = cls(**wire)
    back.validate()
    if not teq(ms(sc.snapshot(back, classes)), ms(want_live)):
        raise Violation(f'round trip: {sc.snapshot(back, classes)!r} '
                        f'want {want_live!r}')
    same(back.tojson(), wire, 'second output')
    other = cls()
    other.set(**wire)
    same(other.tojson(), wire, 'output after set')
    return sum(1 for v in vals.values() if v is not None) >= 2


def ref_strategy():
    from hypothesis import strategies as st
    pid = st.sampled_from(['p1', 'p2', 'p3', 'p4'])
    return st.fixed_dictionaries({
        'int_pk': st.booleans(),
        'author': st.one_of(st.none(), st.tuples(pid, st.booleans())),
        'tags': st.lists(pid, unique=True, max_size=3),
        'tagids_only': st.booleans(),
        'kids': st.lists(pid, unique=True, max_size=3),
        'null': st.booleans()})


def run_ref(case):
    """References: key and object forms survive a round trip."""
    g = graph()
    t = T()
    pk = t.int.primary.required if case['int_pk'] else t.str.primary.required

    def i(p):
        return int(p[1:]) if case['int_pk'] else p
    jc('Author', {'id': pk, 'name': t.str}, g)
    jc('Tag', {'id': pk, 'label': t.str}, g)
    jc('Kid', {'id': pk, 'label': t.str, 'post': t.linkto.objof('Post')}, g)
    Post = jc('Post', {'id': pk, 'author': t.linkto.objof('Author'),
                       'tags': t.listof('Tag').linkto,
                       'kids': t.listof('Kid').linkedby('post')}, g,
              output_null=case['null'])
    kw = {'id': i('p9')}
    want = {'id': i('p9')}
    if case['author'] is not None:
        a, loaded = case['author']
        if loaded:
            kw['author'] = {'id': i(a), 'name': 'n' + a}
            want['author'] = {'id': i(a), 'name': 'n' + a}
        else:
            kw['authorId'] = i(a)
            if case['null']:
                want['author'] = None
        want['authorId'] = i(a)
    elif case['null']:
        want.update(author=None, authorId=None)
    ids = [i(x) for x in case['tags']]
    if case['tagids_only'] and ids:
        kw['tagIds'] = ids
        want['tags'] = []
    elif ids:
        kw['tags'] = [{'id': x, 'label': 'l'} for x in ids]
        want['tags'] = [{'id': x, 'label': 'l'} for x in ids]
    else:
        if case['null']:
            want['tags'] = None
    want['tagIds'] = ids
    if case['kids']:
        kw['kids'] = [{'id': i(x), 'label': x} for x in case['kids']]
        want['kids'] = [{'id': i(x), 'label': x, 'postId': i('p9')}
                        for x in case['kids']]
    elif case['null']:
        want['kids'] = None
    post = Post(**kw)
    got = json.loads(json.dumps(post.tojson()))
    for k in set(got) | set(want):
        if k == 'kids' and got.get(k) is None and want.get(k) is None:
            continue
        if k == 'tags' and not want.get(k):
            check(not got.get(k), 'tags', got.get(k))
            continue
        same(got.get(k), want.get(k), 'output of', k)
    # a reference that is not loaded has no object form to send back
    back = Post(**{k: v for k, v in got.items()
                   if not (k in ('tags', 'author') and not v)})
    got2 = json.loads(json.dumps(back.tojson()))
    for k in set(got) | set(got2):
        if k == 'tags' and not got.get(k):
            continue
        same(got2.get(k), got.get(k), 'round trip of', k)
    return bool(case['tags'] or case['kids'] or case['author'])


FAMILIES = [
    Family('values', strategy, run,
           'at least two fields carry a value', quick=3000, thorough=100000,
           shards=7, tshards=7),
    Family('references', ref_strategy, run_ref,
           'at least one reference is present', quick=400, thorough=4000,
           shards=1, tshards=1)]
