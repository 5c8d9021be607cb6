"""C28: a stored object is judged by what changed, a new one completely."""
from copy import deepcopy
from vp.core import Family, check, same
from vp.build import jc, T, graph, vexc

ROOT = ['aa', 'b_b', 'cc', 'd_d', 'gg', 'n_n', 'ee', 'ref', 'es']
OPS = ['deep', 'deep', 'attr', 'attr', 'attr', 'item', 'item', 'append', 'del', 'set',
       'update', 'setbad', 'clean', 'save', 'judge', 'newsub', 'insub']


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        ops = draw(st.lists(st.tuples(
            st.sampled_from(OPS), st.integers(0, 2), st.integers(0, 7),
            st.integers(0, 9), st.booleans()).map(list),
            min_size=2, max_size=12))
        return {'ops': ops, 'new': draw(st.booleans()),
                'start': [draw(st.integers(0, 9)) for _ in range(12)],
                'vaf': draw(st.booleans()), 'reset': draw(st.booleans())}
    return case()


_c = {}


def classes(vaf, reset):
    if (vaf, reset) in _c:
        return _c[vaf, reset]
    t = T()
    g = graph()
    base = {'aa': t.int.max(5), 'b_b': t.str.minlength(2),
            'cc': t.listof(t.int.max(5)).maxlength(3),
            'd_d': t.dictof(t.int.max(5)), 'gg': t.int.required,
            'n_n': t.dictof(t.listof(t.dictof(t.listof(t.int.max(5)))))}
    conf = dict(validate_all_fields=vaf, reset_all_fields=reset)
    Sub = jc('Sub', {**base, 'id': t.str.primary}, g, **conf)
    Other = jc('Other', {**base, 'id': t.str.primary,
                         'roots': t.listof('Root').linkedby('ref')}, g,
               **conf)
    Root = jc('Root', {**base, 'id': t.str.primary, 'ee': t.objof('Sub'),
                       'es': t.listof('Sub'), 'ref': t.objof('Other').linkto},
              g, **conf)
    _c[vaf, reset] = Root, Sub, Other
    return _c[vaf, reset]


class Rec:
    """Model of one object: plain values, new flag and changed fields."""
    n = 0

    def __init__(self, cls, names, start, new):
        Rec.n += 1
        self.v = {}
        for i, f in enumerate(names):
            self.v[f] = value(f, start[i % len(start)], i % 2 == 0, i)
        self.o = cls(id=f'i{Rec.n}', **{k: copy(x)
                                        for k, x in self.v.items()})
        self.new = True
        self.dirty = set()
        if not new:
            self.clean()

    def clean(self):
        self.o._mark_unmodified()
        self.new = False
        self.dirty = set()

    def errors(self, pre=''):
        out = []
        for f, v in self.v.items():
            if not self.new and f not in self.dirty:
                continue
            name = pre + {'b_b': 'bB', 'd_d': 'dD', 'n_n': 'nN'}.get(f, f)
            if f == 'aa' and v is not None and v > 5:
                out.append(name)
            if f == 'b_b' and v is not None and len(v) < 2:
                out.append(name)
            if f == 'gg' and v is None:
                out.append(name)
            if f == 'cc' and v is not None:
                if len(v) > 3:
                    out.append(name)
                out += [f'{name}.{i}' for i, x in enumerate(v) if x > 5]
            if f == 'd_d' and v is not None:
                out += [f'{name}.{k}' for k, x in v.items() if x > 5]
            if f == 'n_n' and v is not None:
                out += [f'{name}.{a}.{b}.{c}.{d}' for a, p in v.items()
                        for b, q in enumerate(p) for c, r in q.items()
                        for d, x in enumerate(r) if x > 5]
        return out


def copy(v):
    return deepcopy(v)


def value(f, k, good, n):
    """A value never used before in this case, so every write is a change."""
    if f == 'aa':
        return (-100 - n) if good else 100 + n
    if f == 'b_b':
        return f'ok{n}' if good else ('' if n % 2 else chr(0x4e00 + n % 999))
    if f == 'cc':
        if good:
            return [-n, 1][:1 + k % 2]
        return [[1, 100 + n], [100 + n], [0, 1, 2, -n]][k % 3]
    if f == 'd_d':
        return {'k': -n, 'q': 1} if good else {'k': 1, 'q': 100 + n}
    if f == 'n_n':
        return {'k': [{'q': [-n if good else 100 + n], 'e': []}, {}]}
    return n if good else None


def run(case):
    Root, Sub, Other = classes(case['vaf'], case['reset'])
    names = ROOT[:6]
    st = case['start']
    root = Rec(Root, names, st, case['new'])
    ee = Rec(Sub, names, st[2:], case['new'])
    es = [Rec(Sub, names, st[4:], case['new']) for _ in range(2)]
    ref = Rec(Other, names, st[6:], case['new'])
    root.o.ee = ee.o
    root.o.es = [x.o for x in es]
    root.o.ref = ref.o
    if not case['new']:
        for r in (root, ee, ref, *es):
            r.clean()
    written = []
    Root._database_write = lambda self: written.append(self)
    state = {'ee': ee, 'es': es, 'sub': set(), 'judged': 0}
    inplace = set()

    def errors():
        out = root.errors() + state['ref'].errors('ref.')
        if root.new or 'ee' in state['sub']:
            out += state['ee'].errors('ee.')
        if root.new or 'es' in state['sub']:
            for i, r in enumerate(state['es']):
                out += r.errors(f'es.{i}.')
        return out
    state['ref'] = ref

    def settled(paths):
        # objects embedded and changed in place while their holder is not
        # changed are outside this property
        return [p for p in paths if p.split('.')[0] not in inplace]

    def judge():
        bad = errors()
        try:
            root.o.validate(all_fields=True)
            got = []
        except vexc() as e:
            got = list(e.keypath_messages)
        same(sorted(settled(got)), sorted(settled(bad)), 'judged')
        if not inplace:
            try:
                root.o.validate()
                got = []
            except vexc() as e:
                got = list(e.keypath_messages)
            if case['vaf']:
                same(sorted(set(x.split('.')[0] for x in got)),
                     sorted(set(x.split('.')[0] for x in bad)), 'all judged')
            else:
                check(len(got) == min(1, len(bad)) and set(got) <= set(bad),
                      'first', got, bad)
            check(root.o.is_valid is (not bad), 'is_valid')
        if bad or not root.new:
            state['judged'] += 1
    for n, (op, who, fi, k, good) in enumerate(case['ops']):
        n += 50
        r = [root, state['ee'], state['ref']][who]
        f = names[fi % 6]
        if op in ('item', 'append', 'del'):
            f = ['cc', 'd_d'][fi % 2]

        def touch():
            r.dirty.add(f)
            if r is state['ee'] and not root.new and 'ee' not in \
                    state['sub']:
                inplace.add('ee')
        if op in ('attr', 'set', 'update', 'setbad'):
            v = value(f, k, good, n)
            if v == r.v[f]:
                continue
            r.v[f] = copy(v)
            if op in ('set', 'setbad'):
                r.o.set(**{f: v})
            elif op == 'update':
                r.o.update(**{f: v})
            else:
                setattr(r.o, f, v)
            touch()
        elif op == 'item':
            x = (-n if good else 100 + n)
            tgt, m = getattr(r.o, f), r.v[f]
            if f == 'cc':
                if not m:
                    continue
                m[k % len(m)] = x
                tgt[k % len(m)] = x
            else:
                m['kq'[k % 2]] = x
                tgt['kq'[k % 2]] = x
            touch()
        elif op == 'deep':
            f = 'n_n'
            x = (-n if good else 100 + n)
            for c in (r.v[f], r.o.n_n):
                if k % 5 == 0:
                    c['k'][0]['q'].append(x)
                elif k % 5 == 1:
                    c['k'][0][f'z{n}'] = [x]
                elif k % 5 == 2:
                    c['k'].append({'q': [x]})
                elif k % 5 == 3:
                    c[f'z{n}'] = [{'q': [x]}]
                else:
                    c['k'][0]['q'][:1] = [x]
            touch()
        elif op == 'append':
            x = (-n if good else 100 + n)
            if f == 'cc':
                r.v[f].append(x)
                getattr(r.o, f).append(x)
            else:
                r.v[f][f'z{n}'] = x
                getattr(r.o, f)[f'z{n}'] = x
            touch()
        elif op == 'del':
            if not r.v[f]:
                continue
            key = 0 if f == 'cc' else next(iter(r.v[f]))
            del r.v[f][key]
            del getattr(r.o, f)[key]
            touch()
        elif op == 'clean':
            r.clean()
            if r is root:
                state['sub'] = set()
        elif op == 'newsub':
            new = Rec(Sub, names, st[k:] or st, good)
            if k % 2:
                state['ee'] = new
                root.o.ee = new.o
                state['sub'].add('ee')
                inplace.discard('ee')
            else:
                state['es'].append(new)
                root.o.es.append(new.o)
                state['sub'].add('es')
        elif op == 'insub':
            s = state['es'][k % len(state['es'])]
            v = value('aa', k, good, n)
            s.v['aa'] = v
            s.o.aa = v
            s.dirty.add('aa')
            if not root.new and 'es' not in state['sub']:
                inplace.add('es')
        elif op == 'save':
            if inplace:
                continue
            bad = errors()
            del written[:]
            try:
                root.o.save()
                check(not bad, 'invalid object saved', bad)
                check(len(written) == 1, 'written', len(written))
            except vexc() as e:
                check(bad, 'valid object refused', e.keypath_messages)
                check(not written, 'refused object written')
            else:
                root.clean()
                state['sub'] = set()
                for x in (state['ee'], state['ref'], *state['es']):
                    x.clean()
            state['judged'] += 1
        judge()
    return 'stored' if not root.new and state['judged'] else (
        'new' if state['judged'] else False)


FAMILIES = [
    Family('changed', strategy, run, 'the object is stored, or new and '
           'invalid, and judged', quick=2400, thorough=60000, shards=4,
           tshards=8)]
