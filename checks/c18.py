"""C18: annotations mean the same as the types chains they stand for."""
import sys
import types as pytypes
from datetime import date, datetime
from enum import Enum
from typing import Any, Optional, Union, List, Dict
from vp.core import Family, Violation, check, same, typed_eq
from vp.build import jc, T, graph, vexc, enc, dec
from vp import schema

SC = ['str', 'int', 'float', 'bool', 'date', 'datetime', 'Any']
PY = {'str': str, 'int': int, 'float': float, 'bool': bool, 'date': date,
      'datetime': datetime, 'Any': Any}


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        def ann(depth, inunion=False):
            ks = ['sc', 'sc', 'sc', 'obj', 'enum']
            if depth:
                ks += ['list', 'dict', 'list', 'dict']
                if not inunion:
                    ks += ['opt', 'opt', 'union']
            k = draw(st.sampled_from(ks))
            if k == 'sc':
                return [k, draw(st.sampled_from(SC))]
            if k in ('list', 'dict'):
                return [k, ann(depth - 1)]
            if k == 'opt':
                # Optional of Optional is just Optional
                return [k, ann(depth - 1, True)]
            if k == 'union':
                n = draw(st.integers(2, 3))
                subs = []
                for _ in range(n):
                    s = ann(depth - 1, True)
                    if s not in subs and s != ['sc', 'Any']:
                        subs.append(s)
                if len(subs) < 2:
                    subs = [['sc', 'int'], ['sc', 'str']]
                return [k, subs, draw(st.integers(0, 3))]
            return [k]
        a = ann(3)
        S = schema.strategies()

        def val(a, depth=0):
            r = draw(st.integers(0, 9))
            if r == 0:
                return None
            if r == 1:
                return enc(draw(st.one_of(S['any'], S['str'], S['int'])))
            if a[0] == 'sc':
                return enc(draw(S[a[1].lower() if a[1] == 'Any' else a[1]]))
            if a[0] == 'list':
                return [val(a[1]) for _ in range(draw(st.integers(0, 2)))]
            if a[0] == 'dict':
                return {'$m': [[k, val(a[1])] for k in draw(st.lists(
                    st.sampled_from(['a', 'b_c', 'dE']), unique=True,
                    max_size=2))]}
            if a[0] == 'opt':
                return val(a[1])
            if a[0] == 'union':
                return val(draw(st.sampled_from(a[1])))
            if a[0] == 'obj':
                return {'$m': [['n', draw(st.integers(0, 3))]]}
            return draw(st.sampled_from(['RED', 'BLUE', 'nope', 1]))
        return {'a': a, 'vals': [val(a) for _ in range(3)],
                'style': draw(st.integers(0, 15)),
                'late': draw(st.booleans()),
                'missing': draw(st.booleans())}
    return case()


def text(a, style):
    k = a[0]
    if k == 'sc':
        return a[1]
    if k == 'list':
        return ('List' if style & 1 else 'list') + f'[{text(a[1], style)}]'
    if k == 'dict':
        return ('Dict' if style & 2 else 'dict') + \
            f'[str, {text(a[1], style)}]'
    if k == 'opt':
        if style & 4:
            return f'{text(a[1], style)} | None' if style & 8 else \
                f'None | {text(a[1], style)}'
        return f'Optional[{text(a[1], style)}]'
    if k == 'union':
        subs = [text(x, style) for x in a[1]]
        if a[2]:
            subs.insert(a[2] - 1, 'None')
        return ' | '.join(subs) if style & 4 else f"Union[{', '.join(subs)}]"
    return {'obj': 'Leaf', 'enum': 'Hue'}[k]


def runtime(a, style, env):
    k = a[0]
    if k == 'sc':
        return PY[a[1]]
    if k == 'list':
        x = runtime(a[1], style, env)
        return List[x] if style & 1 else list[x]
    if k == 'dict':
        x = runtime(a[1], style, env)
        return Dict[str, x] if style & 2 else dict[str, x]
    if k == 'opt':
        x = runtime(a[1], style, env)
        if style & 4 and not isinstance(x, str):
            return x | None if style & 8 else None | x
        return Optional[x]
    if k == 'union':
        xs = [runtime(x, style, env) for x in a[1]]
        if a[2]:
            xs.insert(a[2] - 1, None)
        if style & 4 and all(not isinstance(x, str) for x in xs):
            r = xs[0] | xs[1]
            for x in xs[2:]:
                r = r | x
            return r
        return Union[tuple(xs)]
    if k == 'obj':
        return env.get('Leaf', 'Leaf')
    return env['Hue']


def explicit(a, opt, item=False):
    t = T()
    k = a[0]
    if k == 'opt':
        r = explicit(a[1], True)
        return r.nullable
    if k == 'sc':
        r = getattr(t, a[1].lower() if a[1] == 'Any' else a[1])
    elif k == 'list':
        r = t.listof(explicit(a[1], True))
    elif k == 'dict':
        r = t.dictof(explicit(a[1], True))
    elif k == 'union':
        r = t.union([explicit(x, True) for x in a[1]])
        if a[2]:
            return r.nullable
    elif k == 'obj':
        r = t.objof('Leaf')
    else:
        r = t.enum('Hue')
    return r if opt else r.required


def define(form, case):
    from jsonclasses import jsonenum
    t = T()
    g = graph()
    a = case['a']
    Hue = jsonenum(class_graph=g)(Enum('Hue', [('RED', 1), ('BLUE', 2)]))
    env = {'Hue': Hue}
    leaf = {'n': t.int.required}
    if not case['late']:
        env['Leaf'] = jc('Leaf', leaf, g)
    if form == 'text':
        C = jc('Form', {}, g, plain={'val': text(a, case['style'])})
    elif form == 'runtime':
        C = jc('Form', {}, g, plain={'val': runtime(a, case['style'], env)})
    else:
        C = jc('Form', {'val': explicit(a, False)}, g)
    if case['late']:
        env['Leaf'] = jc('Leaf', leaf, g)
    return C, env


def shape(v, env):
    """Value of any form in comparable terms."""
    if isinstance(v, env['Leaf']):
        return ('Leaf', v.n)
    if isinstance(v, Enum):
        return ('Hue', v.name)
    if isinstance(v, list):
        return [shape(x, env) for x in v]
    if isinstance(v, dict):
        return {k: shape(x, env) for k, x in v.items()}
    return (type(v).__name__, v)


def outcome(C, env, kw):
    V = vexc()
    try:
        o = C(**kw)
    except V as e:
        return ['input', sorted(e.keypath_messages)]
    r = [shape(o.val, env)]
    try:
        o.validate(all_fields=True)
    except V as e:
        return r + ['invalid', sorted(e.keypath_messages.items())]
    return r + ['valid', o.tojson()]


def run(case):
    built = {f: define(f, case) for f in ('explicit', 'text', 'runtime')}
    kws = [{'val': dec(v)} for v in case['vals']]
    if case['missing']:
        kws.append({})
    good = 0
    for kw in kws:
        outs = {}
        for f, (C, env) in built.items():
            outs[f] = outcome(C, env, kw)
        good += 'valid' in outs['explicit']
        for f in ('text', 'runtime'):
            same(outs[f], outs['explicit'], f, text(case['a'], case['style']),
                 'for', kw)
    return 'valid' if good else 'invalid'


# --- assigned defaults ------------------------------------------------------
def default_strategy():
    from hypothesis import strategies as st
    S = schema.strategies()

    @st.composite
    def case(draw):
        k = draw(st.sampled_from(SC[:-1]))
        return {'k': k, 'd': enc(draw(S[k])), 'opt': draw(st.booleans()),
                'v': draw(st.one_of(st.none(), S[k].map(enc)))}
    return case()


def run_default(case):
    k, d = case['k'], dec(case['d'])
    t = T()
    py = Optional[PY[k]] if case['opt'] else PY[k]
    A = jc('Dfl', {}, graph(), plain={'x': int})
    from jsonclasses import jsonclass
    forms = []
    for ann in (py, f'Optional[{k}]' if case['opt'] else k):
        ns = {'__annotations__': {'val': ann}, 'val': d, '__module__': 'vp'}
        forms.append(jsonclass(class_graph=graph())(type('Df', (), ns)))
    x = getattr(t, k).default(lambda: d)
    forms.append(jc('Df', {'val': x if case['opt'] else x.required}))
    outs = []
    for C in forms:
        for kw in ({}, {'val': dec(case['v'])}):
            o = C(**kw)
            outs.append([o.val, o.is_valid, o.tojson()])
    want = [d, True, outs[-2][2]]
    for o in outs[::2]:
        same(o, want, 'without input')
    for o in outs[1::2]:
        if case['v'] is not None:
            same(o, outs[-1], 'with input')
    return True


# --- annotated links --------------------------------------------------------
# kind -> the field of each side: name, many?, link
LINKS = {
    '1n': [('bbs', True, "linkedby('aa')"), ('aa', False, 'linkto')],
    '11': [('bb', False, "linkedby('aa')"), ('aa', False, 'linkto')],
    'nn': [('bbs', True, "linkedthru('aas')"),
           ('aas', True, "linkedthru('bbs')")],
    'nl': [('bbs', True, 'linkto'), ('aas', True, "linkedby('bbs')")],
    'ln': [('bb', False, 'linkto'), ('aas', True, "linkedby('bb')")]}


def link_strategy():
    from hypothesis import strategies as st
    side = st.fixed_dictionaries({
        'opt': st.sampled_from(['no', 'no', 'in', 'out', 'bar']),
        'fwd': st.booleans(), 'cap': st.booleans(), 'sp': st.booleans()})
    return st.fixed_dictionaries({
        'kind': st.sampled_from(sorted(LINKS)),
        'sides': st.tuples(side, side), 'late': st.booleans(),
        'null': st.booleans(),
        'ops': st.lists(st.tuples(
            st.sampled_from(['link', 'link', 'unlink', 'input', 'assign']),
            st.booleans(), st.integers(0, 1), st.integers(0, 1)),
            min_size=1, max_size=6)})


def link_text(to, many, link, f):
    x = f"{'List' if f['cap'] else 'list'}[{to}]" if many else to
    sep = ',' if f['sp'] else ', '
    if f['opt'] == 'in':
        x = f'Optional[{x}]'
    elif f['opt'] == 'bar':
        x = f'{x} | None'
    x = f'Annotated[{x}{sep}{link}]'
    return f'Optional[{x}]' if f['opt'] == 'out' else x


def link_runtime(to, many, link, f, env):
    from typing import Annotated
    import jsonclasses
    x = to if f['fwd'] or to not in env else env[to]
    if many:
        x = List[x] if f['cap'] else list[x]
    if f['opt'] in ('in', 'bar'):
        x = Optional[x]
    if '(' in link:
        name, key = link[:-2].split("('")
        link = getattr(jsonclasses, name)(key)
    else:
        link = jsonclasses.linkto
    x = Annotated[x, link]
    return Optional[x] if f['opt'] == 'out' else x


def link_explicit(to, many, link, f):
    t = T()
    x = t.listof(to) if many else t.objof(to)
    x = x.required if f['opt'] == 'no' else x.nullable
    if link == 'linkto':
        return x.linkto
    name, key = link[:-2].split("('")
    if many:
        x = x.nonnull
    return getattr(x, name)(key)


def link_define(form, case):
    t = T()
    g = graph()
    env = {}
    order = ['Aa', 'Bb']
    if case['late']:
        order.reverse()
    for me in order:
        i = 'AaBb'.index(me) // 2
        to = ['Bb', 'Aa'][i]
        name, many, link = LINKS[case['kind']][i]
        f = case['sides'][i]
        fields, plain = {'id': t.str.primary, 'n': t.int}, {}
        if form == 'explicit':
            fields[name] = link_explicit(to, many, link, f)
        elif form == 'text':
            plain[name] = link_text(to, many, link, f)
        else:
            plain[name] = link_runtime(to, many, link, f, env)
        env[me] = jc(me, fields, g, plain=plain, output_null=case['null'])
    return env


def link_play(case, env):
    V = vexc()
    out = []
    sides = LINKS[case['kind']]
    objs = [[env['Aa'](id=f'a{i}', n=i) for i in range(2)],
            [env['Bb'](id=f'b{i}', n=i) for i in range(2)]]

    def ids(v):
        if v is None:
            return None
        return [o.id for o in v] if isinstance(v, list) else v.id

    def dump(o, name):
        r = [o.id, ids(getattr(o, name)), list(o.modified_fields)]
        for k in (name + '_id', name[:-1] + '_ids'):
            r.append(getattr(o, k, 'none'))
        try:
            o.validate(all_fields=True)
            r.append('valid')
        except V as e:
            r.append(sorted(e.keypath_messages.items()))
        r.append(o.tojson())
        return r
    for op, rev, i, j in case['ops']:
        s = 1 if rev else 0
        o, p = objs[s][i], objs[1 - s][j]
        name, many, _ = sides[s]
        cur = getattr(o, name)
        if op == 'link' and many:
            if cur is None:
                setattr(o, name, [p])
            elif all(x is not p for x in cur):
                cur.append(p)
        elif op in ('link', 'assign'):
            setattr(o, name, [p] if many else p)
        elif op == 'unlink':
            if not many:
                setattr(o, name, None)
            elif cur and any(x is p for x in cur):
                cur.remove(p)
        else:
            try:
                q = type(o)(**{'id': 'x', name: [{'id': 'y'}] if many
                               else {'id': 'y'}})
                out.append(dump(q, name))
            except V as e:
                out.append(sorted(e.keypath_messages.items()))
        out.append([dump(x, sides[k][0]) for k in (0, 1) for x in objs[k]])
    return out


def run_links(case):
    want = link_play(case, link_define('explicit', case))
    for form in ('text', 'runtime'):
        got = link_play(case, link_define(form, case))
        for w, g in zip(want, got):
            same(g, w, form, case['kind'],
                 [link_text('To', m, l, f) for (_, m, l), f in zip(
                     LINKS[case['kind']], case['sides'])])
    return any(o[0] != 'unlink' for o in case['ops'])


FAMILIES = [
    Family('links', link_strategy, run_links,
           'objects are linked or created with a link', quick=800,
           thorough=12000, shards=1, tshards=2),
    Family('forms', strategy, run, 'always (labels: some value is valid)',
           quick=1500, thorough=30000, shards=4, tshards=6),
    Family('defaults', default_strategy, run_default, 'always', quick=400,
           thorough=4000, shards=1, tshards=2)]
