"""C19: objects share no mutable state with inputs, outputs, defaults or each
other."""
import copy
from vp.core import Family, check, same
from vp.build import jc, T, graph

KINDS = ['any', 'listany', 'dictany', 'list', 'listlist', 'dictlist', 'obj',
         'objs', 'objd', 'union', 'anyobj']
DEFS = [None, [], {}, [[1], {'a': []}], {'k': [1, {'z': []}]}]


def strategy():
    from hypothesis import strategies as st
    leaf = st.sampled_from([None, 1, 'x', True, 2.5])
    js = st.recursive(leaf, lambda c: st.one_of(
        st.lists(c, max_size=3), st.dictionaries(
            st.sampled_from(['a', 'b_c', 'dE']), c, max_size=3)),
        max_leaves=6)
    cont = st.one_of(st.lists(js, max_size=3), st.dictionaries(
        st.sampled_from(['a', 'b_c', 'dE']), js, max_size=3))

    @st.composite
    def case(draw):
        fs = []
        for i in range(draw(st.integers(1, 3))):
            k = draw(st.sampled_from(KINDS))
            d = None
            if k in ('any', 'listany', 'dictany'):
                d = draw(st.sampled_from(DEFS))
                if k == 'listany' and not isinstance(d, (list, type(None))):
                    d = [d]
                if k == 'dictany' and not isinstance(d, (dict, type(None))):
                    d = {'q': d}
            fs.append([f'f{i}', k, d, draw(st.booleans())])

        def val(k):
            if k in ('any', 'anyobj', 'union'):
                return draw(cont)
            if k == 'listany':
                return draw(st.lists(js, max_size=3))
            if k == 'dictany':
                return draw(st.dictionaries(st.sampled_from(['a', 'b_c']), js,
                                            max_size=3))
            if k == 'list':
                return draw(st.lists(st.integers(0, 3), max_size=3))
            if k == 'listlist':
                return draw(st.lists(st.lists(st.integers(0, 3), max_size=2),
                                     max_size=2))
            if k == 'dictlist':
                return draw(st.dictionaries(
                    st.sampled_from(['a', 'b_c']), st.lists(
                        st.integers(0, 3), max_size=2), max_size=2))
            one = {'p': draw(cont), 'q': draw(st.lists(st.integers(0, 3),
                                                       max_size=2))}
            if k == 'obj':
                return one
            return [one] if k == 'objs' else {'k': one}
        steps = []
        for _ in range(draw(st.integers(1, 4))):
            op = draw(st.sampled_from(['init', 'set', 'attr', 'update',
                                       'default', 'init', 'take', 'take']))
            f = draw(st.sampled_from(fs))
            v = val(f[1]) if op not in ('default', 'take') else [
                draw(st.sampled_from(['attr', 'set', 'update'])),
                draw(st.integers(0, 3)), draw(st.integers(0, 3)),
                draw(st.integers(0, 3))] if op == 'take' else None
            steps.append([op, f[0], v])
        return {'fields': fs, 'steps': steps, 'reset': draw(st.booleans()),
                'poke': draw(st.integers(0, 5))}
    return case()


def containers(v, out, objs):
    """All mutable containers reachable, and the objects met."""
    if hasattr(v, 'tojson'):
        if id(v) not in objs:
            objs[id(v)] = v
            for f in v.__class__.cdef.fields:
                containers(getattr(v, f.name), out, objs)
    elif isinstance(v, list):
        if id(v) not in out:
            out[id(v)] = v
            for x in v:
                containers(x, out, objs)
    elif isinstance(v, dict):
        if id(v) not in out:
            out[id(v)] = v
            for x in v.values():
                containers(x, out, objs)
    return out


def shape(v):
    if hasattr(v, 'tojson'):
        return [type(v).__name__] + [
            [f.name, shape(getattr(v, f.name))]
            for f in v.__class__.cdef.fields]
    if isinstance(v, list):
        return [shape(x) for x in v]
    if isinstance(v, dict):
        return {k: shape(x) for k, x in v.items()}
    return v


def wreck(v, n):
    """Change every container of a plain value."""
    for c in list(containers(v, {}, {}).values()):
        if isinstance(c, list):
            if n % 2 and c:
                c.pop()
            c.append('wreck')
        else:
            if n % 2 and c:
                c.pop(next(iter(c)))
            c['wreck'] = [1]


def run(case):
    t = T()
    g = graph()
    jc('Sub', {'p': t.any, 'q': t.listof(int)}, g)
    fields, defaults = {}, {}
    for n, k, d, call in case['fields']:
        c = {'any': lambda: t.any, 'listany': lambda: t.listof(t.any.nullable),
             'dictany': lambda: t.dictof(t.any.nullable),
             'list': lambda: t.listof(int),
             'listlist': lambda: t.listof(t.listof(int)),
             'dictlist': lambda: t.dictof(t.listof(int)),
             'obj': lambda: t.objof('Sub'), 'objs': lambda: t.listof('Sub'),
             'objd': lambda: t.dictof('Sub'), 'anyobj': lambda: t.any,
             'union': lambda: t.union([t.listof(t.any.nullable), t.dictof(
                 t.any.nullable)])}[k]()
        if d is not None:
            d = copy.deepcopy(d)
            defaults[n] = d
            c = c.default((lambda d=d: d) if False else d) \
                if not call else c.default(mkdef(d))
        fields[n] = c
    cls = jc('Iso', fields, g, reset_all_fields=case['reset'])
    dsnap = copy.deepcopy(defaults)
    objs, shared = [], 0
    owner = {}          # container id -> what it belongs to

    def apart(groups, what):
        for (na, a) in groups:
            for (nb, b) in groups:
                if na < nb:
                    both = set(a) & set(b)
                    check(not both, what, na, 'and', nb, 'share',
                          [a[i] for i in both][:1])
    inputs = []
    kinds = {n: k for n, k, _, _ in case['fields']}
    for op, f, v in case['steps']:
        if op == 'take':
            # a live collection of one object given to another, or to
            # another field of the same object
            how, a, b, c = v
            if not objs or kinds[f].startswith('obj'):
                continue
            src, o = objs[a % len(objs)], objs[b % len(objs)]
            like = [n for n in kinds if kinds[n] == kinds[f]]
            to = like[c % len(like)]
            v = getattr(src, f)
            before = shape(v)
            if case['reset']:
                o._mark_unmodified()
            if how == 'attr':
                setattr(o, to, v)
            else:
                getattr(o, how)(**{to: v})
            same(shape(getattr(src, f)), before, 'source changed by', how)
            same(shape(getattr(o, to)), before, 'value taken over by', how)
            groups = [(f'{i} {n}', containers(getattr(x, n), {}, {}))
                      for i, x in enumerate(objs) for n in kinds]
            apart(groups, f'after {how} from another field:')
            continue
        v = copy.deepcopy(v)
        snap = copy.deepcopy(v)
        if op == 'init' or not objs:
            o = cls(**{f: v}) if op != 'default' else cls()
            objs.append(o)
        elif op == 'default':
            o = cls()
            objs.append(o)
        else:
            o = objs[-1]
            if case['reset']:
                o._mark_unmodified()
            if op == 'set':
                o.set(**{f: v})
            elif op == 'attr':
                setattr(o, f, v)
            else:
                o.update(**{f: v})
        same(v, snap, 'input changed by', op)
        inputs.append((v, snap))
        groups = [(f'0 object {i}', containers(x, {}, {}))
                  for i, x in enumerate(objs)]
        if op in ('init', 'set', 'attr', 'update'):
            groups.append(('1 input', containers(v, {}, {})))
        groups.append(('2 defaults', containers(defaults, {}, {})))
        bad = [f2 for f2, k, _, _ in case['fields']
               if k in ('obj', 'objs', 'objd')
               and not valid_objs(getattr(o, f2))]
        if not bad:
            outs = [o.tojson(), o.tojson()]
            groups.append(('3 output', containers(outs[0], {}, {})))
            groups.append(('4 output again', containers(outs[1], {}, {})))
        apart(groups, f'after {op}:')
        shared += len(groups[0][1])
        if not bad:
            before = [shape(x) for x in objs]
            wreck(outs[0], case['poke'])
            same([shape(x) for x in objs], before, 'output is live')
            same(o.tojson(), outs[1], 'output changed with another output')
        before = [shape(x) for x in objs]
        wreck(v, case['poke'])
        same([shape(x) for x in objs], before, 'input is live after', op)
        same(defaults, dsnap, 'default value changed')
    # changing one object leaves the others and the defaults alone
    for i, x in enumerate(objs):
        before = [shape(y) for j, y in enumerate(objs) if j != i]
        wreck(x, case['poke'] + 1)
        same([shape(y) for j, y in enumerate(objs) if j != i], before,
             'objects are connected')
    same(defaults, dsnap, 'default value changed through an object')
    return shared > 0


def valid_objs(v):
    if v is None or hasattr(v, 'tojson'):
        return True
    if isinstance(v, list):
        return all(hasattr(x, 'tojson') for x in v)
    if isinstance(v, dict):
        return all(hasattr(x, 'tojson') for x in v.values())
    return False


def mkdef(d):
    # the same object every time: a constant behind a callable
    return lambda: d


FAMILIES = [
    Family('sharing', strategy, run, 'some object holds a container',
           quick=2500, thorough=60000, shards=4, tshards=8)]
