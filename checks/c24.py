"""C24: class graphs, configuration and inheritance keep classes apart."""
from vp.core import Family, Violation, check, same
from vp.build import jc, T, graph, vexc, camel

# --- names and graphs --------------------------------------------------------
NAMES = ['Na', 'Nb', 'Nc']


def graph_strategy():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        d = st.fixed_dictionaries({
            'g': st.integers(0, 2), 'n': st.integers(0, 2),
            'ref': st.lists(st.tuples(st.sampled_from(
                ['obj', 'list', 'dict', 'ann', 'annlist', 'opt']),
                st.integers(0, 2)).map(list), max_size=2),
            'enum': st.booleans(), 'use': st.booleans()})
        return {'defs': draw(st.lists(d, min_size=1, max_size=8))}
    return case()


def run_graph(case):
    from enum import Enum
    from typing import Optional
    from jsonclasses import jsonenum
    from jsonclasses.cgraph import CGraph
    from jsonclasses.excs import JSONClassNotFoundException
    t = T()
    gs = [graph('vg') for _ in range(3)]
    have, enums = {}, {}
    redef = used = 0

    def probe(key):
        """Every reference of the class resolves inside its own graph."""
        nonlocal used
        g, n = key
        cls, mark, refs = have[key]
        for f, kind, tn in refs:
            tkey = (g, tn)
            if tkey not in have:
                continue
            tmark = have[tkey][1]
            v = {tmark: 7}
            v = {'obj': v, 'opt': v, 'ann': v, 'list': [v], 'annlist': [v],
                 'dict': {'k': v}}[kind]
            o = cls(**{f: v})
            got = getattr(o, f)
            got = got[0] if kind in ('list', 'annlist') else (
                got['k'] if kind == 'dict' else got)
            check(type(got) is have[tkey][0], f'graph {g} {n}.{f} gave',
                  type(got), 'not of its own graph')
            same(getattr(got, tmark), 7, 'value')
            used += 1

    def ready(key, seen=()):
        if key not in have:
            return False
        return all(k in seen or ready(k, seen + (key,)) for k in
                   ((key[0], r[2]) for r in have[key][2]))
    for i, d in enumerate(case['defs']):
        key = (d['g'], NAMES[d['n']])
        mark = f'm{i}'
        fields, plain, refs = {mark: t.int}, {}, []
        for j, (kind, n) in enumerate(d['ref']):
            f = f'r{i}_{j}'
            tn = NAMES[n]
            refs.append((f, kind, tn))
            if kind == 'ann':
                plain[f] = Optional[tn]
            elif kind == 'opt':
                plain[f] = f'Optional[{tn}]'
            elif kind == 'annlist':
                plain[f] = f'Optional[list[{tn}]]'
            else:
                fields[f] = {'obj': lambda: t.objof(tn),
                             'list': lambda: t.listof(tn),
                             'dict': lambda: t.dictof(tn)}[kind]()
        try:
            cls = jc(key[1], fields, gs[d['g']], plain=plain)
        except Exception as e:
            check(key in have, 'definition refused', key, repr(e))
            redef += 1
            check(CGraph(gs[d['g']]).fetch(key[1]).cls is have[key][0],
                  'redefinition replaced the class')
        else:
            check(key not in have, 'defined twice', key)
            have[key] = (cls, mark, refs)
        if d['enum']:
            E = Enum(f'En{d["n"]}', [(f'V{i}', i)])
            ek = (d['g'], E.__name__)
            try:
                jsonenum(class_graph=gs[d['g']])(E)
            except Exception as e:
                check(ek in enums, 'enum refused', repr(e))
            else:
                check(ek not in enums, 'enum defined twice')
                enums[ek] = E
        if d['use']:
            for k in list(have):
                if ready(k):
                    probe(k)
    for gi, g in enumerate(gs):
        cg = CGraph(g)
        check(CGraph(g) is cg, 'two graphs of one name')
        for n in NAMES:
            k = (gi, n)
            check(cg.has(n) == (k in have), 'has', k)
            if k in have:
                check(cg.fetch(n).cls is have[k][0], 'fetch', k)
                check(cg.fetch(have[k][0]) is have[k][0].cdef, 'fetch cls')
                if ready(k):
                    probe(k)
            else:
                try:
                    cg.fetch(n)
                except JSONClassNotFoundException:
                    pass
                else:
                    raise Violation('fetched an undefined class')
            ek = (gi, 'En' + str(NAMES.index(n)))
            check(cg.has_enum(ek[1]) == (ek in enums), 'has_enum', ek)
            check(not cg.has_enum(n), 'class name taken for an enum', n)
            check(not cg.has(ek[1]), 'enum name taken for a class', ek)
            if ek in enums:
                check(cg.fetch_enum(ek[1]) is enums[ek], 'fetch_enum')
    return (f'redefined={redef > 0}' if used or redef else False)


# --- inheritance: a subclass is its flattened class ----------------------------
FN = ['aa', 'first_name', 'num_x', 'dd']
KINDS = ['str', 'int', 'strmin', 'intreq', 'list', 'obj', 'ro', 'wo', 'def',
         'once', 'rolist', 'temp']
CONF = ['strict_input', 'output_null', 'validate_all_fields',
        'reset_all_fields', 'camelize_json_keys']


def inherit_strategy():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        n = draw(st.integers(2, 4))
        classes = []
        for i in range(n):
            classes.append({
                'base': draw(st.integers(0, i - 1)) if i and draw(
                    st.sampled_from([1, 1, 1, 0])) else None,
                'fields': draw(st.lists(st.tuples(
                    st.sampled_from(FN), st.sampled_from(KINDS)).map(list),
                    max_size=3, unique_by=lambda f: f[0])),
                'conf': {k: draw(st.booleans()) for k in draw(st.lists(
                    st.sampled_from(CONF), unique=True, max_size=3))},
                'abstract': draw(st.sampled_from([None, None, False, True])),
                'early': draw(st.booleans())})
        key = st.sampled_from(FN + ['firstName', 'numX', 'zz', 'toString'])
        val = st.sampled_from([None, 'x', 'abcdef', 5, -1, ['p'], [1], [],
                               {'q': 1}, {'q': 'bad'}, True])
        step = st.tuples(st.sampled_from(['init', 'set', 'attr', 'clean',
                                          'reset', 'append']),
                         st.dictionaries(key, val, max_size=3)).map(list)
        return {'classes': classes,
                'steps': draw(st.lists(step, min_size=1, max_size=6))}
    return case()


def ftype(t, kind):
    return {'str': lambda: t.str, 'int': lambda: t.int,
            'strmin': lambda: t.str.minlength(3),
            'intreq': lambda: t.int.required,
            'list': lambda: t.listof(str), 'obj': lambda: t.objof('Inner'),
            'ro': lambda: t.str.readonly, 'wo': lambda: t.str.writeonly,
            'def': lambda: t.str.default('dflt'),
            'once': lambda: t.int.writeonce,
            'rolist': lambda: t.listof(str).readonly,
            'temp': lambda: t.str.temp}[kind]()


def behave(cls, steps, names):
    """Everything observable of a history, as plain data."""
    log = []
    obj = None

    def shape(v):
        if hasattr(v, 'tojson'):
            return {'obj': [type(v).__name__, shape(v.q)]}
        if isinstance(v, list):
            return [shape(x) for x in v]
        if isinstance(v, dict):
            return {k: shape(x) for k, x in v.items()}
        return v
    for op, kw in steps:
        try:
            if op == 'init' or obj is None:
                obj = cls(**kw)
            elif op == 'set':
                obj.set(**kw)
            elif op == 'attr':
                for k, v in kw.items():
                    if k in names:
                        setattr(obj, k, v)
            elif op == 'clean':
                obj._mark_unmodified()
            elif op == 'append':
                for n in names:
                    v = getattr(obj, n)
                    if isinstance(v, list):
                        v.append('more')
            else:
                obj.reset()
        except Exception as e:
            log.append(['raised', type(e).__name__,
                        getattr(e, 'keypath_messages', None)])
        if obj is None:
            continue
        log.append([[n, shape(getattr(obj, n))] for n in sorted(names)])
        log.append(sorted(obj.modified_fields))
        log.append({k: shape(v) for k, v in obj.previous_values.items()})
        try:
            log.append(obj.tojson())
        except Exception as e:
            log.append(['tojson raised', type(e).__name__])
        try:
            obj.validate()
            log.append('valid')
        except vexc() as e:
            log.append(['invalid', dict(e.keypath_messages)])
    return log


def run_inherit(case):
    from jsonclasses.excs import AbstractJSONClassException
    t = T()
    g, gf = graph('vi'), graph('vf')
    jc('Inner', {'q': t.int}, g)
    jc('Inner', {'q': t.int}, gf)
    built, flat, logs = [], [], {}
    depth = 0
    for i, c in enumerate(case['classes']):
        kw = dict(c['conf'])
        if c['abstract'] is not None:
            kw['abstract'] = c['abstract']
        base = c['base']
        fields = {f: ftype(t, k) for f, k in c['fields']}
        cls = jc(f'C{i}', fields, g, bases=(built[base],) if base is not None
                 else (), **kw)
        ff = dict(flat[base]) if base is not None else {}
        ff.update({f: k for f, k in c['fields']})
        if base is not None and ff:
            depth += 1
        built.append(cls)
        flat.append(ff)
        if c['early'] and not c['abstract']:
            logs[i] = behave(cls, case['steps'], list(ff))
    for i, c in enumerate(case['classes']):
        cls = built[i]
        if c['abstract']:
            for f in (lambda: cls(), lambda: cls(zz=1)):
                try:
                    f()
                except AbstractJSONClassException:
                    continue
                raise Violation(f'instance of abstract class {cls}')
            continue
        kw = dict(c['conf'])
        F = jc(f'C{i}', {f: ftype(t, k) for f, k in flat[i].items()}, gf,
               **kw)
        want = behave(F, case['steps'], list(flat[i]))
        got = behave(cls, case['steps'], list(flat[i]))
        same(got, want, f'C{i} differs from its flattened class')
        if i in logs:
            same(logs[i], want, f'C{i} changed after more definitions')
        same([f.name for f in cls.cdef.fields],
             [f.name for f in F.cdef.fields], 'fields')
    return depth > 0


# --- links declared by a base work for every descendant ------------------------
def deep_strategy():
    from hypothesis import strategies as st
    step = st.tuples(st.sampled_from(
        ['one', 'none', 'append', 'remove', 'assign', 'key', 'input', 'save']),
        st.integers(0, 2), st.integers(0, 2)).map(list)
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['1n', '11', 'nn']),
        'da': st.lists(st.integers(0, 3), min_size=3, max_size=3),
        'db': st.lists(st.integers(0, 3), min_size=3, max_size=3),
        'mixin': st.booleans(), 'extra': st.booleans(),
        'far': st.booleans(),
        'steps': st.lists(step, min_size=1, max_size=6)})


def deep_log(case, depths):
    t = T()
    g = graph('vd')
    kind = case['kind']
    if kind == '1n':
        fa, fb = t.nonnull.listof('B0').linkedby('aa'), t.objof('A0').linkto
    elif kind == '11':
        fa, fb = t.objof('B0').linkedby('aa'), t.objof('A0').linkto
    else:
        fa = t.nonnull.listof('B0').linkedthru('aa')
        fb = t.nonnull.listof('A0').linkedthru('bb')
    cls = {}
    for s, f, ff in (('A', fa, 'bb'), ('B', fb, 'aa')):
        base = ()
        for i in range(4):
            fields = {f'x{i}': t.int} if case['extra'] and i else {}
            if i == 0:
                fields = {'id': t.str.primary, ff: f}
            bases = base
            if case['mixin'] and i == 2:
                bases = (type('Mix' + s, (), {'hello': lambda self: 1}),
                         ) + base
            cls[s + str(i)] = jc(s + str(i), fields, g, bases=bases)
            base = (cls[s + str(i)],)
    das, dbs = depths
    aa = [cls[f'A{d}'](id=f'a{i}') for i, d in enumerate(das)]
    bs = [cls[f'B{d}'](id=f'b{i}') for i, d in enumerate(dbs)]
    log = []

    def side(v):
        if v is None:
            return None
        return [x.id for x in v] if isinstance(v, list) else v.id
    far = False
    for op, i, j in case['steps']:
        a, b = aa[i], bs[j]
        try:
            if op == 'one':
                if kind == 'nn':
                    b.aa = [a]
                else:
                    b.aa = a
            elif op == 'none':
                b.aa = [] if kind == 'nn' else None
            elif op == 'append':
                if kind == '11':
                    a.bb = b
                elif b not in list(a.bb):
                    a.bb.append(b)
            elif op == 'remove':
                if kind == '11':
                    a.bb = None
                elif any(x is b for x in a.bb):
                    a.bb.remove(b)
            elif op == 'assign':
                a.bb = b if kind == '11' else [b]
            elif op == 'input':
                v = {'id': f'n{len(log)}'}
                a.set(bb=v if kind == '11' else [v])
            elif op == 'key' and kind != 'nn':
                log.append(b.aa_id)
            elif op == 'save':
                for o in aa + bs:
                    o._mark_unmodified()
            far = True
        except Exception as e:
            log.append(['raised', op, type(e).__name__, str(e)[:40]])
        log.append([[side(o.bb) for o in aa], [side(o.aa) for o in bs],
                    [None if kind == 'nn' else o.aa_id for o in bs],
                    [sorted(o.modified_fields) for o in aa + bs]])
        if kind != 'nn':
            log.append([o.tojson() for o in bs])
    return log, far


def run_deep(case):
    depths = case['da'], case['db']
    got, far = deep_log(case, depths)
    want, _ = deep_log(case, ([0] * 3, [0] * 3))
    same(got, want, 'links of descendants', depths)
    return far and max(case['da'] + case['db']) > 0


# --- relationships of inheriting classes are in C13 too ------------------------
FAMILIES = [
    Family('graphs', graph_strategy, run_graph,
           'a reference was resolved or a redefinition refused', quick=1500,
           thorough=30000, shards=3, tshards=4),
    Family('inherit', inherit_strategy, run_inherit,
           'some class inherits fields', quick=2000, thorough=40000,
           shards=4, tshards=6),
    Family('links', deep_strategy, run_deep,
           'an inheriting object was linked', quick=1500, thorough=30000,
           shards=3, tshards=4)]
