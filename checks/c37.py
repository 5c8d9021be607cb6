"""C37: a write by key path reaches exactly the addressed place."""
import copy

from vp.core import Family, check, same, expect_raises
from vp.build import jc, T, graph, camel, vexc

OBJ = {'sub_one': 'one', 'sub_list': 'list', 'sub_map': 'map',
       'link_to': 'one'}
LEAVES = ['num', 'first_text', 'num_list', 'the_grid', 'conf_map', 'row_list']
_cls = {}


def classes(conf):
    if conf not in _cls:
        strict, reset = conf
        t = T()
        g = graph()
        fields = {
            'id': t.int.primary, 'num': t.int, 'first_text': t.str.trim,
            'num_list': t.listof(int), 'the_grid': t.listof(t.listof(int)),
            'conf_map': t.dictof(t.listof(int)),
            'row_list': t.listof(t.dictof(int)),
            'sub_one': t.objof('Node'), 'sub_list': t.listof('Node'),
            'sub_map': t.dictof('Node'), 'link_to': t.objof('Other').linkto}
        oth = {k: v for k, v in fields.items()
               if k not in ('link_to', 'sub_one', 'sub_list', 'sub_map')}
        kw = dict(strict_input=strict, reset_all_fields=reset)
        _cls[conf] = (jc('Node', fields, g, **kw), jc('Other', oth, g, **kw))
    return _cls[conf]


def strategy():
    from hypothesis import strategies as st
    n = st.integers(0, 5)

    @st.composite
    def node(draw, depth, other=False):
        d = {}
        opts = LEAVES if other or not depth else LEAVES + sorted(OBJ) * 2
        for k in draw(st.lists(st.sampled_from(opts), unique=True,
                               min_size=2, max_size=7)):
            if k == 'num':
                d[k] = draw(n)
            elif k == 'first_text':
                d[k] = draw(st.sampled_from(['a', 'b', 'cd']))
            elif k == 'num_list':
                d[k] = draw(st.one_of(
                    st.lists(n, max_size=3),
                    st.lists(n, min_size=11, max_size=13)))
            elif k == 'the_grid':
                d[k] = draw(st.one_of(
                    st.lists(st.lists(n, max_size=2), max_size=2),
                    st.lists(st.lists(n, min_size=1, max_size=2),
                             min_size=11, max_size=12)))
            elif k == 'conf_map':
                d[k] = draw(st.dictionaries(st.sampled_from(
                    ['k', 'big_k', 'bigK', '0']), st.lists(n, max_size=2),
                    max_size=2))
            elif k == 'row_list':
                d[k] = draw(st.lists(st.dictionaries(
                    st.sampled_from(['k', 'a_b']), n, max_size=2),
                    max_size=2))
            elif k == 'sub_one':
                d[k] = draw(node(depth - 1))
            elif k == 'link_to':
                d[k] = draw(node(0, True))
            elif k == 'sub_list':
                d[k] = draw(st.lists(node(depth - 1), max_size=2))
                if draw(st.integers(0, 4)) == 0:
                    d[k] += [{'num': i} for i in range(11 - len(d[k]))]
            else:
                d[k] = draw(st.dictionaries(st.sampled_from(
                    ['x', 'x_y', 'num']), node(depth - 1), max_size=2))
        return d

    write = st.fixed_dictionaries({
        'turns': st.lists(st.integers(0, 12), min_size=6, max_size=6),
        'style': st.sampled_from(['dot', 'dot', 'bracket', 'mixed']),
        'cam': st.booleans(), 'leaf': st.integers(0, 9),
        'v': st.integers(10, 14), 'new': st.booleans()})
    return st.fixed_dictionaries({
        'tree': node(2), 'strict': st.booleans(), 'reset': st.booleans(),
        'stored': st.booleans(),
        'sets': st.lists(st.tuples(st.booleans(), st.lists(
            write, min_size=1, max_size=3)), min_size=1, max_size=4)})


def build(tree, Node, Other, ids):
    kw = {}
    for k, v in tree.items():
        if k == 'sub_one':
            v = build(v, Node, Other, ids)
        elif k == 'link_to':
            v = build(v, Other, Other, ids)
        elif k == 'sub_list':
            v = [build(x, Node, Other, ids) for x in v]
        elif k == 'sub_map':
            v = {x: build(y, Node, Other, ids) for x, y in v.items()}
        else:
            v = copy.deepcopy(v)
        kw[k] = v
    ids[0] += 1
    return Node(id=ids[0], **kw)


def objects(o):
    out = [o]
    for k in OBJ:
        v = getattr(o, k, None)
        if v is None:
            continue
        for x in (v if isinstance(v, list) else v.values()
                  if isinstance(v, dict) else [v]):
            out += objects(x)
    return out


def values(o):
    out = {}
    for k in LEAVES + list(OBJ):
        if not hasattr(o, k):
            continue
        v = getattr(o, k)
        if v is None:
            continue
        if k in OBJ:
            v = [values(x) for x in v] if isinstance(v, list) else \
                {a: values(b) for a, b in v.items()} \
                if isinstance(v, dict) else values(v)
        else:
            v = plain(v)
        out[k] = v
    return out


def plain(v):
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def status(o):
    return [[x.is_new, x.is_modified, sorted(x.modified_fields),
             {k: plain(v) for k, v in x.previous_values.items()
              if k not in OBJ}] for x in objects(o)]


def pick(model, w):
    """Turn the choices into steps: [(kind of container, key)], end."""
    steps, cur, other = [], model, False
    turns = list(w['turns'])

    def turn(n):
        return turns.pop(0) % n if turns else 0
    while True:
        opts = [k for k in OBJ if cur.get(k)] if turns else []
        i = turn(len(opts) + 1)
        if i == len(opts):
            break
        k = opts[i]
        steps.append(('field', k))
        other = other or k == 'link_to'
        cur = cur[k]
        if OBJ[k] == 'list':
            j = turn(len(cur))
            steps.append(('pos', j))
            cur = cur[j]
        elif OBJ[k] == 'map':
            j = sorted(cur)[turn(len(cur))]
            steps.append(('key', j))
            cur = cur[j]
    k = LEAVES[w['leaf'] % len(LEAVES)]
    v = w['v']
    cv = cur.get(k)
    steps.append(('field', k))
    whole = {'num': v, 'first_text': f' t{v} ', 'num_list': [v],
             'the_grid': [[v]], 'conf_map': {'k': [v]},
             'row_list': [{'k': v}]}[k]
    if k in ('num', 'first_text') or not cv or w['new']:
        return steps, whole
    if k in ('num_list', 'the_grid', 'row_list'):
        i = turn(len(cv))
        steps.append(('pos', i))
        if k == 'num_list':
            return steps, v
        if k == 'row_list':
            if turn(3) == 2:
                return steps, {'z': v}
            steps.append(('key', ['k', 'a_b', 'new'][turn(3)]))
            return steps, v
    else:
        ks = sorted(cv) + ['fresh']
        i = ks[turn(len(ks))]
        steps.append(('key', i))
    sub = cv[i] if k == 'the_grid' else cv.get(i)
    if not sub or turn(3) == 2:
        return steps, [v, v]
    steps.append(('pos', turn(len(sub))))
    return steps, v


def spell(steps, w):
    parts = [(camel(k) if w['cam'] else k) if kind == 'field' else str(k)
             for kind, k in steps]
    if w['style'] == 'dot':
        return '.'.join(parts)
    out = parts[0]
    for (kind, _), p in zip(steps[1:], parts[1:]):
        if w['style'] == 'bracket' or kind != 'field':
            out += f'[{p}]'
        else:
            out += '.' + p
    return out


def apply_model(model, steps, v):
    cur = model
    for kind, k in steps[:-1]:
        cur = cur[k]
    kind, k = steps[-1]
    cur[k] = v.strip() if isinstance(v, str) else copy.deepcopy(v)


def apply_twin(o, steps, v):
    """Navigate by hand and write there."""
    cur = o
    for kind, k in steps[:-1]:
        cur = getattr(cur, k) if kind == 'field' else cur[k]
    kind, k = steps[-1]
    if kind == 'field':
        cur.set(**{k: v})
    else:
        cur[k] = v


def run(case):
    Node, Other = classes((case['strict'], case['reset']))
    a = build(case['tree'], Node, Other, [0])
    b = build(case['tree'], Node, Other, [0])
    model = copy.deepcopy(case['tree'])
    if case['stored']:
        for x in objects(a) + objects(b):
            x._mark_unmodified()
    same(values(a), model, 'the initial tree')
    deep = 0
    for together, writes in case['sets']:
        kw, todo = {}, []
        planned = copy.deepcopy(model)
        for w in writes:
            steps, v = pick(planned, w)
            path = spell(steps, w)
            if len(steps) == 1 and todo and len(todo[-1][0]) > 1:
                continue    # plain keys go first
            if any(s[:len(steps)] == steps or steps[:len(s)] == s
                   for s, _, _ in todo):
                continue
            apply_model(planned, steps, v)
            todo.append((steps, v, path))
            deep = max(deep, len(steps))
        if together:
            for steps, v, path in todo:
                kw[path] = copy.deepcopy(v)
            check(a.set(**kw) is a, 'set returned another object')
        else:
            for steps, v, path in todo:
                check(a.set(**{path: copy.deepcopy(v)}) is a,
                      'set returned another object')
        for steps, v, path in todo:
            apply_twin(b, steps, copy.deepcopy(v))
        model = planned
        names = [p for _, _, p in todo]
        same(values(a), model, 'after', names)
        same(status(a), status(b), 'change tracking after', names)
        for x, y in zip(objects(a), objects(b)):
            same(x.id, y.id, 'objects after', names)
    # a null on the way
    for k in ('sub_one', 'sub_list', 'the_grid'):
        if k not in model and len(case['sets']) % 2:
            before = status(a)
            expect_raises(ValueError, lambda: a.set(**{f'{k}.0.num': 1}),
                          'a path through null')
            same(values(a), model, 'after a refused path')
            same(status(a), before, 'status after a refused path')
    # a missing place on the way or at the end
    wrong = []
    if model.get('num_list') is not None:
        wrong.append((f"num_list.{len(model['num_list'])}", 1))
    if model.get('the_grid') is not None:
        n = len(model['the_grid'])
        wrong += [(f'the_grid.{n}', [1]), (f'the_grid[{n}][0]', 1),
                  (f'theGrid.{n + 10}.0', 1)]
        if n:
            wrong.append((f"the_grid.0.{len(model['the_grid'][0])}", 1))
    if model.get('conf_map') is not None:
        wrong += [('conf_map.nope.0', 1), ('confMap[nope][0]', 1)]
    if model.get('row_list') is not None:
        wrong.append((f"row_list.{len(model['row_list'])}.k", 1))
    if model.get('sub_map') is not None:
        wrong += [('sub_map.nope.num', 1), ('subMap.nope.confMap.k', [1])]
    if model.get('sub_list') is not None:
        wrong.append((f"sub_list.{len(model['sub_list'])}.num", 1))
    for path, v in wrong:
        before = [x[:3] for x in status(a)]
        expect_raises(Exception, lambda: a.set(**{path: v}),
                      'a path through a missing place', path)
        same(values(a), model, 'after the refused path', path)
        same([x[:3] for x in status(a)], before,
             'status after the refused path', path)
    return deep > 1


FAMILIES = [
    Family('paths', strategy, run, 'a key path of two or more steps is '
           'written', quick=2500, thorough=60000, shards=6, tshards=8)]
