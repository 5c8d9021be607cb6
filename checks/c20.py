"""C20: extending or reusing a types chain never changes another one."""
from enum import Enum
from vp.core import Family, check, same
from vp.build import jc, T, graph, vexc

# name -> number of chains it takes as parameters
TYPES = ['str', 'int', 'float', 'bool', 'any', 'objof', 'enumof', 'listint',
         'listobj', 'dictint', 'date', 'ref', 'instanceof']
NEST = ['listof', 'dictof', 'union']
MODS = ['required', 'readonly', 'writeonly', 'writeonce', 'internal',
        'writenonnull', 'readwrite', 'nullable', 'nonnull', 'strict', 'temp',
        'primary', 'index', 'unique', 'queryable', 'unqueryable', 'nocopy',
        'cascade', 'deny', 'default1', 'defaultx', 'min', 'max', 'minlength',
        'maxlength', 'length', 'oneof', 'match', 'upper', 'trim', 'add',
        'onsave', 'inputvalue', 'inputlname', 'outputvalue', 'present',
        'cindex', 'cunique', 'validate', 'transform', 'reverse', 'eqchain',
        'defchain', 'canchain', 'isobjof', 'canobjof']
PROBES = [None, 0, 3, -7, 2.5, True, '', 'x', ' ab ', 'RED', 'red', 'r',
          [], [1], ['x', None], [{'v': 1}], {}, {'k': 3}, {'v': 2},
          {'v': 1, 'zz': 2}, '2020-01-02']


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        nodes, classes = [], []
        for i in range(draw(st.integers(3, 11))):
            # parent -1 is the plain types root
            parent = draw(st.integers(-1, i - 1))
            if parent == -1 or draw(st.integers(0, 9)) == 0:
                op = draw(st.sampled_from(TYPES * 2 + NEST + MODS[:6]))
            else:
                op = draw(st.sampled_from(MODS + ['listof']))
            args = []
            if op in NEST or op.endswith('chain'):
                if i == 0:
                    op = 'str'
                else:
                    args = [draw(st.integers(0, i - 1)) for _ in range(
                        2 if op == 'union' else 1)]
            nodes.append([parent, op, args])
            if draw(st.integers(0, 2)) == 0:
                classes.append([i + 1, draw(st.integers(0, i)),
                                draw(st.integers(0, 1))])
        for _ in range(draw(st.integers(1, 3))):
            classes.append([len(nodes), draw(st.integers(0, len(nodes) - 1)),
                            draw(st.integers(0, 1))])
        return {'nodes': nodes, 'classes': classes,
                'probes': [draw(st.integers(0, len(PROBES) - 1))
                           for _ in range(5)],
                'early': draw(st.booleans())}
    return case()


def apply(t, op, args):
    table = {
        'str': lambda: t.str, 'int': lambda: t.int, 'float': lambda: t.float,
        'bool': lambda: t.bool, 'any': lambda: t.any, 'date': lambda: t.date,
        'objof': lambda: t.objof('Leaf'), 'enumof': lambda: t.enum('Color'),
        'instanceof': lambda: t.objof('Leaf').strict,
        'listint': lambda: t.listof(int), 'listobj': lambda: t.listof('Leaf'),
        'dictint': lambda: t.dictof(int),
        'ref': lambda: t.objof('Leaf').linkto,
        'listof': lambda: t.listof(args[0]),
        'dictof': lambda: t.dictof(args[0]),
        'union': lambda: t.union(list(args)),
        'default1': lambda: t.default(3), 'defaultx': lambda: t.default('x'),
        'min': lambda: t.min(2), 'max': lambda: t.max(2),
        'minlength': lambda: t.minlength(2),
        'maxlength': lambda: t.maxlength(1), 'length': lambda: t.length(1, 2),
        'oneof': lambda: t.oneof(['x', 3, 'RED']),
        'match': lambda: t.match('^[a-z]+$'), 'upper': lambda: t.toupper,
        'add': lambda: t.add(1), 'onsave': lambda: t.setonsave(lambda v: 9),
        'reverse': lambda: t.reverse(), 'cindex': lambda: t.cindex('ci'), 'cunique': lambda: t.cunique('cu'),
        'validate': lambda: t.validate(lambda v: v != 3),
        'transform': lambda: t.transform(
            lambda v: v + v if isinstance(v, str) else v),
        'isobjof': lambda: t.isobjof('Leaf'),
        'canobjof': lambda: t.canr(T().getop.isobjof('Leaf')),
        'eqchain': lambda: t.eq(args[0]),
        'defchain': lambda: t.default(args[0]),
        'canchain': lambda: t.validate(args[0])}
    return table[op]() if op in table else getattr(t, op)


def fdesc(fd, depth=0):
    out = {}
    for n in ('ftype', 'fsubtype', 'fstore', 'primary', 'index', 'cindex',
              'cindex_names', 'unique', 'cunique', 'cunique_names',
              'required', 'enum_input', 'enum_output', 'force_set_on_save',
              'foreign_key', 'delete_rule', 'read_rule', 'write_rule',
              'collection_nullability', 'item_nullability', 'strictness',
              'queryability', 'copy_behavior', 'is_ref', 'is_inst',
              'has_linked', 'auth_identity', 'requires_operator_assign'):
        try:
            v = getattr(fd, n)
        except Exception as e:  # noqa
            v = type(e).__name__
        out[n] = list(v) if isinstance(v, list) else v
    return out


def behave(cls, g, probes):
    from jsonclasses.cgraph import CGraph
    Leaf = CGraph(g).fetch('Leaf').cls
    log = [fdesc(cls.cdef.field_named('f').fdef)]

    def shape(v):
        if isinstance(v, Leaf):
            return ['Leaf', shape(v.v)]
        if hasattr(v, 'tojson'):
            return ['other class', type(v).__name__]
        if isinstance(v, Enum):
            return ['enum', v.name, v.__class__ is CGraph(g).fetch_enum(
                'Color')]
        if isinstance(v, list):
            return [shape(x) for x in v]
        if isinstance(v, dict):
            return {k: shape(x) for k, x in v.items()}
        return [type(v).__name__, v]

    def attempt(fn):
        try:
            return fn()
        except vexc() as e:
            return ['refused', dict(e.keypath_messages)]
        except RecursionError:
            raise
        except Exception as e:  # noqa
            return ['failed', type(e).__name__]
    for i in probes:
        p = PROBES[i]
        box = []

        def make():
            box.append(cls(f=p) if p is not None else cls())
            return shape(box[0].f)
        log.append(attempt(make))
        if not box:
            continue
        o = box[0]

        def valid():
            o.validate(all_fields=True)
            return 'valid'
        log.append(attempt(valid))
        log.append(attempt(o.tojson))
        log.append(attempt(o.opby(Leaf(v=1)).tojson))

        def second():
            o.set(f=3)
            return shape(o.f)
        log.append(attempt(second))

        def ser():
            o._mark_unmodified()
            o.x = 4
            o._set_on_save()
            return shape(o.f)
        log.append(attempt(ser))
    return log


def world(gs):
    E = {}
    from jsonclasses import jsonenum
    for k, g in enumerate(gs):
        jc('Leaf', {'v': T().int}, g)
        E[g] = jsonenum(class_graph=g)(Enum('Color', [('RED', 'r'),
                                                      ('BLUE', 'b')]))


def run(case):
    gs = [graph(), graph()]
    fgs = [graph(), graph()]
    world(gs + fgs)
    nodes = case['nodes']

    def fresh(i):
        parent, op, args = nodes[i]
        base = T() if parent == -1 else fresh(parent)
        return apply(base, op, [fresh(a) for a in args])

    def depth(i):
        return 1 + max([depth(x) for x in [nodes[i][0]] + nodes[i][2]
                        if x >= 0], default=0)
    if sum(depth(i) for i in range(len(nodes))) > 120:
        return False
    chains, made, logs = [], [], []

    def define(k):
        _, node, gi = case['classes'][k]
        made.append((k, node, gi, jc(f'K{k}', {'f': chains[node],
                                               'x': T().int}, gs[gi])))
        if case['early']:
            logs.append(behave(made[-1][3], gs[gi], case['probes']))
    order = sorted(range(len(case['classes'])),
                   key=lambda k: case['classes'][k][0])
    for i, (parent, op, args) in enumerate(nodes):
        for k in order:
            if case['classes'][k][0] == i:
                define(k)
        base = T() if parent == -1 else chains[parent]
        chains.append(apply(base, op, [chains[a] for a in args]))
    for k in order:
        if case['classes'][k][0] >= len(nodes):
            define(k)
    for n, (k, node, gi, cls) in enumerate(made):
        ref = jc(f'R{k}', {'f': fresh(node), 'x': T().int}, fgs[gi])
        want = behave(ref, fgs[gi], case['probes'])
        if case['early']:
            same(logs[n], want, f'class {k} of chain {node}, when defined')
        same(behave(cls, gs[gi], case['probes']), want,
             f'class {k} of chain {node}')
    uses = {}
    for parent, op, args in nodes:
        for a in [parent] + args:
            uses[a] = uses.get(a, 0) + 1
    for c in case['classes']:
        uses[c[1]] = uses.get(c[1], 0) + 1
    return any(v > 1 for k, v in uses.items() if k >= 0)


FAMILIES = [
    Family('reuse', strategy, run, 'some chain is used more than once',
           quick=2400, thorough=60000, shards=6, tshards=8)]
