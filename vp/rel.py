"""Histories of relationship operations on a pool of objects, mirrored on a
plain model of links.

A case: {'kind', 'n': [na, nb], 'new': bool, 'ops': [...]}.  Every object has
a distinct primary key.  The model keeps, per object and field, the linked
object (one) or the list of linked objects (many).
"""
from vp.core import Violation, check
from vp.build import jc, T, graph

# kind -> (fields of A, fields of B); field: (name, 'one'|'many', other side
# field, holds the reference key?)
KINDS = {
    'om': ([('items', 'many', 'owner', False)],
           [('owner', 'one', 'items', True)]),
    'oo': ([('main', 'one', 'whole', False)],
           [('whole', 'one', 'main', True)]),
    'mm': ([('tags', 'many', 'posts', False)],
           [('posts', 'many', 'tags', False)]),
    'lk': ([('songs', 'many', 'singers', True)],
           [('singers', 'many', 'songs', False)]),
    'two': ([('items', 'many', 'owner', False),
             ('drafts', 'many', 'drafter', False)],
            [('owner', 'one', 'items', True),
             ('drafter', 'one', 'drafts', True)]),
    'pre': ([('drafts', 'many', 'owner_x', False),
             ('items', 'many', 'owner', False)],
            [('owner_x', 'one', 'drafts', True),
             ('owner', 'one', 'items', True)]),
    'self': ([('parent', 'one', 'children', True),
              ('children', 'many', 'parent', False)], None),
    'selfoo': ([('nxt', 'one', 'prv', True),
                ('prv', 'one', 'nxt', False)], None),
}
# without another side
LONE = {
    'lone': ([('pet', 'one', None, True)], []),
    'lones': ([('cars', 'many', None, True)], []),
    'lonemix': ([('pet', 'one', None, True), ('cars', 'many', None, True)],
                []),
}
EVERY = {**KINDS, **LONE}
OPS = ['assign', 'assign', 'assign', 'append', 'append', 'insert', 'extend',
       'iadd', 'remove', 'pop', 'popi', 'deli', 'delslice', 'clear', 'seti',
       'setslice', 'delstep', 'setstep', 'swap', 'sort', 'reverse', 'none', 'set', 'update', 'read',
       'mark']
KEYOPS = ['key', 'key', 'key', 'keyappend', 'keydel', 'keyset', 'keyclear']


def keyname(f):
    return {'owner': 'owner_id', 'whole': 'whole_id', 'songs': 'song_ids',
            'drafter': 'drafter_id', 'owner_x': 'owner_x_id',
            'parent': 'parent_id',
            'nxt': 'nxt_id', 'pet': 'pet_id', 'cars': 'car_ids'}[f]


_cls = {}


def classes(kind, idm=0, **conf):
    k = (kind, idm == 1, tuple(sorted(conf.items())))
    if k in _cls:
        return _cls[k]
    t = T()
    g = graph()
    fa, fb = EVERY[kind]

    def ty(f, other, base):
        name, card, back, key = f
        x = t.objof(other) if card == 'one' else t.listof(other)
        if key:
            return x.linkto
        if kind == 'mm':
            return x.linkedthru(back)
        return x.linkedby(back)
    fields = {'id': (t.int if idm == 1 else t.str).primary, 'note': t.str}
    nb = 'Aa' if fb is None else 'Bb'
    A = jc('Aa', {**fields, **{f[0]: ty(f, nb, 'A') for f in fa}}, g, **conf)
    B = A if fb is None else jc(
        'Bb', {**fields, **{f[0]: ty(f, 'Aa', 'B') for f in fb}}, g, **conf)
    A2 = jc('Aa2', {'extra': t.int}, g, bases=(A,), **conf)
    B2 = A2 if fb is None else jc('Bb2', {'extra': t.int}, g, bases=(B,),
                                  **conf)
    _cls[k] = (A, B, A2, B2)
    return _cls[k]


def strategy(extra=(), alike=False, lone=False):
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        kind = draw(st.sampled_from(sorted(EVERY if lone else KINDS)))
        na, nb = draw(st.integers(2, 4)), draw(st.integers(2, 4))
        op = st.tuples(
            st.sampled_from(OPS + list(extra)), st.integers(0, 1),
            st.integers(0, 5), st.integers(0, 3),
            st.lists(st.integers(0, 5), max_size=4, unique=True),
            st.integers(-4, 5), st.integers(-4, 5)).map(list)
        return {'kind': kind, 'n': [na, nb],
                'idm': draw(st.integers(0, 2)),
                'ids': not alike or kind == 'lk' or draw(st.booleans()),
                'new': draw(st.sampled_from([0, 255, 0b01011010, 0b00001111,
                                             0b11110000, 0b10100110])),
                'sub': draw(st.sampled_from([0, 0, 0, 0b01010101, 0b11110000,
                                             0b00110001])),
                'ops': draw(st.lists(op, min_size=1, max_size=14))}
    return case()


class World:
    def __init__(self, case, **conf):
        self.kind = case['kind']
        self.idm = case.get('idm', 0)
        A, B, A2, B2 = classes(self.kind, self.idm, **conf)
        self.side = EVERY[self.kind]
        self.self_ref = self.side[1] is None
        self.A, self.B = A, B
        na, nb = case['n']
        self.ids = case.get('ids', True)

        sub = case.get('sub', 0)

        def make(cls, sc, k, bit):
            cls = sc if sub >> bit & 1 else cls
            return cls(id=k) if self.ids else cls()
        def key(c, i):
            # plain, integers, or with an empty one
            if self.idm == 1:
                return i + (na if self.self_ref and c == 'b' else 0)
            if self.idm == 2 and i == 0 and not (
                    self.self_ref and c == 'b'):
                return ''
            return f'{c}{i}'
        self.objs = [make(A, A2, key('a', i), i) for i in range(na)]
        self.objs += [make(B, B2, key('b', i), i + 4) for i in range(nb)]
        self.na = na
        self.new = [bool(case['new'] >> i & 1) if i < na
                    else bool(case['new'] >> (i - na + 4) & 1)
                    for i in range(na + nb)]
        for i, o in enumerate(self.objs):
            if not self.new[i]:
                o._mark_unmodified()
        self.m = []       # model: per object {field: None|i|[i...]}
        self.pool = []    # per object {field: set of unlinked}
        self.dirty = []   # per object: fields whose links really changed
        for i, o in enumerate(self.objs):
            fs = self.fields(i)
            self.m.append({f[0]: None if f[1] == 'one' else [] for f in fs})
            self.pool.append({f[0]: set() for f in fs})
            self.dirty.append(set())
        self.loose = [{f[0]: [] for f in self.fields(i)}
                      for i in range(len(self.objs))]  # unloaded keys
        self.idx = {id(o): i for i, o in enumerate(self.objs)}
        self.muts = 0
        self.steals = 0

    def fields(self, i):
        if self.self_ref or i < self.na:
            return self.side[0]
        return self.side[1]

    def others(self, i):
        """Objects that may be linked from object i."""
        if self.self_ref:
            return [j for j in range(len(self.objs)) if j != i]
        if i < self.na:
            return list(range(self.na, len(self.objs)))
        return list(range(self.na))

    # model -----------------------------------------------------------------
    def has(self, i, f, j):
        v = self.m[i][f]
        return v == j if not isinstance(v, list) else j in v

    def drop(self, i, f, g, j):
        for x, h, y in ((i, f, j), (j, g, i)):
            if h is None:
                continue
            v = self.m[x][h]
            if isinstance(v, list):
                if y in v:
                    v.remove(y)
            elif v == y:
                self.m[x][h] = None
            self.pool[x][h].add(y)
            self.dirty[x].add(h)

    def join(self, i, f, g, j, at=None):
        """Link i.f and j.g, detaching whatever a one side held."""
        for x, h, y, k in ((i, f, j, g), (j, g, i, f)):
            if h is None:
                continue
            v = self.m[x][h]
            if not isinstance(v, list) and v is not None and v != y:
                self.steals += 1
                self.drop(x, h, k, v)
        for x, h, y in ((i, f, j), (j, g, i)):
            if h is None:
                continue
            v = self.m[x][h]
            if isinstance(v, list):
                if y not in v:
                    v.append(y)
            else:
                self.m[x][h] = y
                self.loose[x][h] = []
            if isinstance(v, list) and self.objs[y].id in self.loose[x][h]:
                self.loose[x][h].remove(self.objs[y].id)
            self.pool[x][h].discard(y)
            self.dirty[x].add(h)

    def assign(self, i, f, new, whole=False):
        """Model of: the field now holds exactly these."""
        name, card, back, _ = f
        old = self.m[i][name]
        olds = list(old) if isinstance(old, list) else (
            [] if old is None else [old])
        if whole and new != old:
            self.loose[i][name] = []
        news = list(new) if isinstance(new, list) else (
            [] if new is None else [new])
        for j in olds:
            if j not in news:
                self.drop(i, name, back, j)
        for j in news:
            if j not in olds:
                self.join(i, name, back, j)
        if isinstance(new, list):
            self.m[i][name] = list(news)
        if olds != news:
            self.muts += 1

    # real ------------------------------------------------------------------
    def actual(self, i, f):
        v = getattr(self.objs[i], f)
        if isinstance(v, list):
            out = []
            for x in v:
                if id(x) not in self.idx:
                    raise Violation(f'foreign object {x!r} in {i}.{f}')
                out.append(self.idx[id(x)])
            return out
        if v is None:
            return None
        return self.idx[id(v)]

    def step(self, op):
        name, side, oi, fi, picks, a, b = op
        if self.self_ref:
            i = oi % len(self.objs)
        elif side == 0:
            i = oi % self.na
        else:
            i = self.na + oi % (len(self.objs) - self.na)
        if not self.fields(i):
            i = oi % self.na
        fs = self.fields(i)
        f = fs[fi % len(fs)]
        fname, card, back, key = f
        o = self.objs[i]
        cand = self.others(i)
        js = []
        for p in picks:
            j = cand[p % len(cand)]
            if j not in js:
                js.append(j)
        cur = self.m[i][fname]
        O = self.objs
        if name == 'save':
            return i, f, False
        if name == 'mark':
            o._mark_unmodified()
            self.new[i] = False
            self.dirty[i].clear()
            return i, f, False
        if name == 'read':
            getattr(o, fname)
            return i, f, False
        if name.startswith('key'):
            if not key:
                return i, f, False
            return i, f, self.keyop(i, f, name, js, a, b)
        if name == 'none':
            # a list field set to null holds nothing
            if not cur and self.loose[i][fname]:
                return i, f, False
            setattr(o, fname, None)
            self.assign(i, f, [] if card == 'many' else None, True)
            if card == 'many':
                self.loose[i][fname] = []
            return i, f, True
        if name in ('assign', 'set', 'update'):
            if card == 'one':
                new = js[0] if js else None
                val = None if new is None else O[new]
            else:
                new = js
                if new == cur and self.loose[i][fname]:
                    return i, f, False
                val = [O[j] for j in js]
            if name == 'assign':
                setattr(o, fname, val)
            else:
                getattr(o, name)(**{fname: val})
            self.assign(i, f, new, True)
            return i, f, True
        if card == 'one':
            new = js[0] if js else None
            setattr(o, fname, None if new is None else O[new])
            self.assign(i, f, new, True)
            return i, f, True
        lst = getattr(o, fname)
        if lst is None:
            return i, f, False
        fresh = [j for j in js if j not in cur]
        new = list(cur)
        if name in ('append', 'insert') and not fresh:
            return i, f, False
        if name == 'append':
            new.append(fresh[0])
            lst.append(O[fresh[0]])
        elif name == 'insert':
            new.insert(a, fresh[0])
            lst.insert(a, O[fresh[0]])
        elif name == 'extend':
            new.extend(fresh)
            lst.extend([O[j] for j in fresh])
        elif name == 'iadd':
            new += fresh
            lst += [O[j] for j in fresh]
        elif name == 'clear':
            new.clear()
            lst.clear()
        elif name == 'setslice':
            keep = [j for j in js if j not in cur or j in cur[a:b]]
            new[a:b] = keep
            if len(set(new)) != len(new):
                return i, f, False
            lst[a:b] = [O[j] for j in keep]
        elif name == 'delslice':
            del new[a:b]
            del lst[a:b]
        elif name == 'delstep':
            del new[a::b or 2]
            del lst[a::b or 2]
        elif name == 'setstep':
            slc = slice(None, None, a % 3 + 1 if b >= 0 else -(a % 3) - 1)
            keep = [j for j in js if j not in cur or j in cur[slc]]
            keep = keep[:len(cur[slc])]
            if len(keep) != len(cur[slc]):
                return i, f, False
            new[slc] = keep
            if len(set(new)) != len(new):
                return i, f, False
            lst[slc] = [O[j] for j in keep]
        elif not cur:
            return i, f, False
        else:
            at = a % len(cur)
            if name in ('sort', 'remove') and not self.ids:
                return i, f, False
            if name == 'swap':
                q = b % len(cur)
                new[at], new[q] = new[q], new[at]
                lst[at], lst[q] = lst[q], lst[at]
            elif name == 'sort':
                new.sort(key=lambda j: self.objs[j].id)
                lst.sort(key=lambda x: x.id)
                self.dirty[i].add(fname)
            elif name == 'reverse':
                new.reverse()
                lst.reverse()
                self.dirty[i].add(fname)
            elif name == 'remove':
                new.remove(cur[at])
                lst.remove(O[cur[at]])
            elif name == 'pop':
                got = lst.pop()
                check(got is O[new.pop()], 'pop returned another object')
            elif name == 'popi':
                got = lst.pop(at)
                check(got is O[new.pop(at)], 'pop returned another object')
            elif name == 'deli':
                del new[at]
                del lst[at]
            elif name == 'seti':
                if not fresh:
                    return i, f, False
                new[at] = fresh[0]
                lst[at] = O[fresh[0]]
            else:
                return i, f, False
        self.assign(i, f, new)
        return i, f, True

    def keyop(self, i, f, name, js, a, b):
        """Write reference keys, some of objects that are not loaded."""
        fname, card, back, _ = f
        o = self.objs[i]
        kn = keyname(fname)
        loose = [f'z{abs(b) % 3}', f'z{abs(a) % 3 + 3}'][:abs(a + b) % 3]
        if self.idm == 1:
            loose = [90 + int(z[1:]) for z in loose]
        if card == 'one':
            k = (loose or [None])[0] if not js else self.objs[js[0]].id
            cur = self.m[i][fname]
            if k == getattr(o, kn):
                setattr(o, kn, k)
                return True
            setattr(o, kn, k)
            if cur is not None:
                self.drop(i, fname, back, cur)
            self.loose[i][fname] = [] if k is None else [k]
            self.dirty[i].add(fname)
            self.muts += 1
            return True
        keys = getattr(o, kn)
        cur = self.m[i][fname]
        ids = {self.objs[j].id: j for j in cur}
        new = list(keys)
        equal = False
        if name == 'key':
            new = [self.objs[j].id for j in js]
            for z in loose:
                new.insert(abs(a) % (len(new) + 1), z)
            # an equal list of keys changes nothing, the order included
            equal = new == list(keys)
            if abs(b) % 2:
                setattr(o, kn, list(new))
            else:
                o.update(**{kn: list(new)})
        elif name == 'keyappend':
            if not loose or loose[0] in new:
                return False
            keys.append(loose[0])
            new.append(loose[0])
        elif name == 'keyclear':
            keys.clear()
            new = []
        elif not new:
            return False
        elif name == 'keydel':
            at = a % len(new)
            del keys[at]
            del new[at]
        else:
            at = a % len(new)
            if not loose or loose[0] in new:
                return False
            keys[at] = loose[0]
            new[at] = loose[0]
        for k, j in ids.items():
            if k not in new:
                self.drop(i, fname, back, j)
        order = [ids[k] for k in new if k in ids]
        if name == 'key' and not equal:
            self.m[i][fname] = order
        self.loose[i][fname] = [k for k in new if k not in ids]
        self.muts += 1
        return True

    def compare(self, i, f, op):
        """Real links equal the model's; adopt the real order elsewhere."""
        for x in range(len(self.objs)):
            for h in self.fields(x):
                got = self.actual(x, h[0])
                want = self.m[x][h[0]]
                if h[1] == 'one':
                    check(got == want, f'{x}.{h[0]} is {got}, want {want}',
                          'after', op)
                    continue
                if got is None:
                    got = []
                if (x, h[0]) == (i, f[0]):
                    check(got == want, f'{x}.{h[0]} is {got}, want {want}',
                          'after', op)
                check(sorted(got) == sorted(want),
                      f'{x}.{h[0]} is {got}, want {want}', 'after', op)
                self.m[x][h[0]] = got


def run(case, after, **conf):
    w = World(case, **conf)
    for op in case['ops']:
        i, f, did = w.step(op)
        w.compare(i, f, op)
        after(w, i, f, op)
    return w
