"""C27: linked graphs with cycles are output, validated and saved completely
and once."""
import json
from vp.core import Family, Violation, check, same
from vp.build import jc, T, graph, vexc, camel

ONE = ['owner', 'main_part', 'nxt', 'x', 'owner', 'boss']
MANY = ['items', 'sub_parts', 'items', 'tags', 'x', 'books']
KEYS = {'owner': 'owner_id', 'main_part': 'main_part_id', 'nxt': 'nxt_id',
        'x': 'x_id', 'boss': 'boss_id'}
LKEYS = {'items': 'item_ids', 'sub_parts': 'sub_part_ids', 'tags': 'tag_ids',
         'x': 'x_ids', 'books': 'book_ids'}


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        nc = draw(st.integers(1, 4))
        used = [set() for _ in range(nc)]
        pairs = []
        for _ in range(draw(st.integers(2, 6))):
            kind = draw(st.sampled_from(['om', 'oo', 'mm', 'lk']))
            a, b = draw(st.integers(0, nc - 1)), draw(st.integers(0, nc - 1))
            fa = draw(st.sampled_from(ONE if kind == 'oo' else MANY))
            fb = draw(st.sampled_from(ONE if kind in ('om', 'oo') else MANY))
            if fa in used[a]:
                continue
            used[a].add(fa)
            if fb in used[b]:
                used[a].discard(fa)
                continue
            used[b].add(fb)
            pairs.append([kind, a, fa, b, fb])
        objs = list(range(nc)) + [
            draw(st.integers(0, nc - 1))
            for _ in range(draw(st.integers(1, 4)))]
        links = draw(st.lists(st.tuples(
            st.integers(0, 5), st.integers(0, 5), st.integers(0, 5),
            st.booleans()).map(list), min_size=2, max_size=12))
        return {'nc': nc, 'pairs': pairs, 'objs': objs, 'links': links,
                'vals': [draw(st.sampled_from([1, 1, 2, 9]))
                         for _ in objs],
                'ids': draw(st.integers(0, 2)),
                'root': draw(st.integers(0, 5)),
                'old': draw(st.sampled_from([0, 0, 1, 2])), 'vaf': draw(st.booleans()),
                'null': draw(st.booleans())}
    return case()


def run(case):
    t = T()
    g = graph()
    nc = case['nc']
    bumps = []

    def bump(v):
        bumps.append(v)
        return v
    fields = [{'id': t.str.primary, 'n': t.int.max(5),
               'mark': t.int.fsetonsave(bump)} for _ in range(nc)]
    back = {}       # (class, field) -> (class, field)
    info = {}       # (class, field) -> (many?, key or None)
    for kind, a, fa, b, fb in case['pairs']:
        A, B = f'K{a}', f'K{b}'
        if kind == 'om':
            fields[a][fa] = t.listof(B).linkedby(fb)
            fields[b][fb] = t.objof(A).linkto
        elif kind == 'oo':
            fields[a][fa] = t.objof(B).linkedby(fb)
            fields[b][fb] = t.objof(A).linkto
        elif kind == 'mm':
            fields[a][fa] = t.listof(B).linkedthru(fb)
            fields[b][fb] = t.listof(A).linkedthru(fa)
        else:
            fields[a][fa] = t.listof(B).linkto
            fields[b][fb] = t.listof(A).linkedby(fa)
        back[a, fa] = (b, fb)
        back[b, fb] = (a, fa)
        info[a, fa] = (kind != 'oo', LKEYS[fa] if kind == 'lk' else None)
        info[b, fb] = (kind in ('mm', 'lk'),
                       KEYS[fb] if kind in ('om', 'oo') else None)
    conf = dict(output_null=case['null'], validate_all_fields=case['vaf'])
    K = [jc(f'K{i}', fields[i], g, **conf) for i in range(nc)]
    # objects: distinct ids, no ids, or the same id in different classes
    objs = []
    for i, c in enumerate(case['objs']):
        o = K[c](n=case['vals'][i], mark=i)
        if case['ids'] == 0:
            o.id = f'o{i}'
        elif case['ids'] == 2:
            o.id = f's{sum(x == c for x in case["objs"][:i])}'
        if case['old']:
            o._mark_unmodified()
        objs.append(o)
    pos = {id(o): i for i, o in enumerate(objs)}
    cls = case['objs']
    nl = 0
    if not case['pairs']:
        return False
    for p, i, j, rev in case['links']:
        kind, a, fa, b, fb = case['pairs'][p % len(case['pairs'])]
        ia = [x for x in range(len(objs)) if cls[x] == a]
        ib = [x for x in range(len(objs)) if cls[x] == b]
        if not ia or not ib:
            continue
        i, j = ia[i % len(ia)], ib[j % len(ib)]
        if i == j and a == b:
            continue
        src, f, dst = (objs[j], fb, objs[i]) if rev else (
            objs[i], fa, objs[j])
        many = info[(b, fb) if rev else (a, fa)][0]
        if case['ids'] == 1 and info[b, fb][1] is None and kind == 'lk':
            continue            # list keys need identifiers
        ends = ((objs[i], fa, info[a, fa][0]), (objs[j], fb, info[b, fb][0]))
        if any(not m and getattr(o, h) is not None for o, h, m in ends):
            continue            # would unlink another object
        if many:
            if getattr(src, f) is None:
                setattr(src, f, [])
            if not any(x is dst for x in getattr(src, f)):
                getattr(src, f).append(dst)
        else:
            setattr(src, f, dst)
        nl += 1
    root = objs[case['root'] % len(objs)]
    if case['old'] == 2:        # loaded with its links
        for o in objs:
            o._mark_unmodified()

    def links(i):
        out = []
        for (c, f), (many, key) in info.items():
            if c == cls[i]:
                v = getattr(objs[i], f)
                vs = v if many else ([] if v is None else [v])
                out.append((f, many, key, v if not many else v,
                            [pos[id(x)] for x in (vs or [])]))
        return out
    # reachable objects
    seen, todo = [], [pos[id(root)]]
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.append(i)
            for *_, ts in links(i):
                todo.extend(ts)
    cyc = len(seen) > 1 and nl > 0

    # 1. output
    budget = [4000]

    def out(i, chain, via, rr, null):
        budget[0] -= 1
        if budget[0] < 0:
            raise OverflowError
        o = objs[i]
        d = {'id': o.id, 'n': o.n, 'mark': o.mark}
        for f, many, key, v, ts in links(i):
            if key is not None:
                kv = getattr(o, key)
                d[camel(key)] = list(kv) if isinstance(kv, list) else kv
            if cls[i] in chain or (not rr and back[cls[i], f] == via):
                continue
            if not rr and via and info[via][0] and back[cls[i], f][1] == \
                    via[1]:
                # items of a list also leave out relationships whose other
                # side has the name of the list (the repository's own tests
                # fix this)
                continue
            nv = (cls[i], f)
            if v is None:
                d[camel(f)] = None
            elif many:
                d[camel(f)] = [out(x, chain + [cls[i]], nv, rr, null)
                               for x in ts]
            else:
                d[camel(f)] = out(ts[0], chain + [cls[i]], nv, rr, null)
        return d if null else {k: v for k, v in d.items() if v is not None}
    from jsonclasses.encoder import JSONEncoder
    before = [[f[-1] for f in links(i)] for i in range(len(objs))]
    try:
        for rr in (False, True):
            want = out(pos[id(root)], [], None, rr, case['null'])
            same(root.tojson(reverse_relationship=rr), want,
                 'output, reverse', rr)
            if not rr:
                same(json.loads(json.dumps({'a': [root]}, cls=JSONEncoder)),
                     json.loads(json.dumps({'a': [want]})), 'encoder')
    except OverflowError:
        return False
    # 2. validation: every invalid reachable object once, at a path to it
    bad = sorted(i for i in seen if case['vals'][i] > 5)

    def follow(path):
        o = root
        for part in path.split('.')[:-1]:
            if isinstance(o, list):
                o = o[int(part)]
            else:
                o = getattr(o, next(f.name for f in o.__class__.cdef.fields
                                    if f.json_name == part))
        return pos[id(o)], path.split('.')[-1]
    if not case['old']:
        for full in (True, False, None):
            try:
                root.validate(all_fields=full)
                got = []
            except vexc() as e:
                got = sorted(follow(k) for k in e.keypath_messages)
            want = [(i, 'n') for i in bad]
            if full or (full is None and case['vaf']):
                same(got, want, 'objects reported')
            else:
                check(len(got) == min(1, len(bad)) and set(got) <= set(want),
                      'first error', got, want)
        check(root.is_valid is (not bad), 'is_valid')
    # 3. save hooks: once for every reachable object
    written = []
    for c in K:
        c._database_write = lambda self: written.append(pos[id(self)])
    del bumps[:]
    if not bad or case['old']:
        root.save()
        same(written, [pos[id(root)]], 'written')
        same(sorted(bumps), sorted(seen), 'save hooks run for')
    same([[f[-1] for f in links(i)] for i in range(len(objs))], before,
         'links changed')
    return f'reach={len(seen)}' if cyc else False


FAMILIES = [
    Family('cyclic', strategy, run, 'root reaches at least one other object',
           quick=2400, thorough=60000, shards=6, tshards=8)]
