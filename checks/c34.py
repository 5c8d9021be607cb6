"""C34: loading related objects and missing values is not a change."""
from vp.core import Family, check, same
from vp.build import jc, T, graph

AUTHOR = ['posts', 'profile', 'favs', 'tags', 'mentor', 'mentees']
FIELDS = {'Author': AUTHOR, 'Post': ['author', 'fans'],
          'Profile': ['owner'], 'Tag': ['authors']}
OTHER = {('Author', 'posts'): ('Post', 'author'),
         ('Author', 'profile'): ('Profile', 'owner'),
         ('Author', 'favs'): ('Post', 'fans'),
         ('Author', 'tags'): ('Tag', 'authors'),
         ('Author', 'mentor'): ('Author', 'mentees')}
OTHER.update({v: k for k, v in list(OTHER.items())})
KEYS = {('Author', 'favs'): 'fav_ids', ('Author', 'mentor'): 'mentor_id',
        ('Post', 'author'): 'author_id', ('Profile', 'owner'): 'owner_id'}
SINGLE = {('Author', 'profile'), ('Author', 'mentor'), ('Post', 'author'),
          ('Profile', 'owner')}
OPS = ['load', 'load', 'include', 'include', 'include', 'include', 'write',
       'item', 'clean', 'complete', 'reset', 'fobj']


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        na, np = draw(st.integers(1, 3)), draw(st.integers(0, 4))
        nt = draw(st.integers(0, 3))
        one = st.integers(-1, na - 1)
        owners = draw(st.lists(one, max_size=3))
        return {
            'n': [na, np, len(owners), nt],
            'author': [draw(one) for _ in range(np)],
            'mentor': [m if m != i else -1 for i, m in enumerate(
                [draw(one) for _ in range(na)])],
            'owner': [o if o not in owners[:i] else -1
                      for i, o in enumerate(owners)],
            'favs': [draw(st.permutations(range(np)))[:draw(
                st.integers(0, np))] if np else [] for _ in range(na)],
            'tags': [draw(st.lists(st.integers(0, nt - 1), unique=True))
                     if nt else [] for _ in range(na)],
            'ops': draw(st.lists(st.tuples(
                st.sampled_from(OPS), st.integers(0, 11), st.integers(0, 5),
                st.integers(0, 4)).map(list), min_size=5, max_size=16)),
            'reset': draw(st.booleans()), 'int': draw(st.booleans())}
    return case()


class Query:
    def __init__(self, fn):
        self.fn = fn

    @property
    def optional(self):
        return self

    def exec(self):
        return self.fn()


def classes(case, session):
    t = T()
    g = graph()
    pk = t.int.primary if case['int'] else t.str.primary
    base = {'id': pk, 'name': t.str, 'nums': t.listof(int), 'extra': t.int}
    conf = dict(reset_all_fields=case['reset'])
    out = {
        'Author': jc('Author', {
            **base, 'posts': t.listof('Post').linkedby('author'),
            'profile': t.objof('Profile').linkedby('owner'),
            'favs': t.listof('Post').linkto,
            'tags': t.listof('Tag').linkedthru('authors'),
            'mentor': t.objof('Author').linkto,
            'mentees': t.listof('Author').linkedby('mentor')}, g, **conf),
        'Post': jc('Post', {
            **base, 'author': t.objof('Author').linkto,
            'fans': t.listof('Author').linkedby('favs'),
            'byline': t.str.getter(t.this.fobj('author').fval('name'))},
            g, **conf),
        'Profile': jc('Profile', {
            **base, 'owner': t.objof('Author').linkto}, g, **conf),
        'Tag': jc('Tag', {
            **base, 'authors': t.listof('Author').linkedthru('tags')}, g,
            **conf)}
    for n, c in out.items():
        c.id = classmethod(lambda cls, i: Query(
            lambda: session.get(cls.__name__, i)))
        c.ids = classmethod(lambda cls, ii: Query(
            lambda: [session.get(cls.__name__, i) for i in list(ii)]))
        c.find = classmethod(lambda cls, **kw: Query(
            lambda: session.find(cls.__name__, kw)))
        c.one = classmethod(lambda cls, **kw: Query(
            lambda: session.find(cls.__name__, kw)[0]))
        c._orm_complete = lambda self: session.complete(self)
    return out


class Session:
    """The storage: which object is related to which, by index."""

    def __init__(self, case):
        self.case = case
        self.loaded = {}
        self.cls = classes(case, self)
        self.completed = 0
        names = list(FIELDS)
        self.n = dict(zip(names, case['n']))

    def key(self, cname, i):
        return i if self.case['int'] else f'{cname[0].lower()}{i}'

    def related(self, cname, i, field):
        c = self.case
        if (cname, field) in KEYS or (cname, field) == ('Author', 'tags'):
            v = c[field][i]
            return [v] if (cname, field) in SINGLE and v >= 0 else (
                [] if (cname, field) in SINGLE else list(v))
        oc, of = OTHER[cname, field]
        return [j for j in range(self.n[oc])
                if i in self.related(oc, j, of)]

    def get(self, cname, key):
        i = key if self.case['int'] else int(key[1:])
        check(key == self.key(cname, i) and i < self.n[cname],
              'asked storage for', cname, key)
        if (cname, i) not in self.loaded:
            kw = {'id': key, 'name': f'n{i}', 'nums': [i, 1]}
            for f in FIELDS[cname]:
                if (cname, f) in KEYS:
                    oc = OTHER[cname, f][0]
                    ks = [self.key(oc, j) for j in self.related(cname, i, f)]
                    if (cname, f) in SINGLE:
                        ks = ks[0] if ks else None
                    if ks is not None:
                        kw[KEYS[cname, f]] = ks
            o = self.cls[cname](**kw)
            o._mark_unmodified()
            self.loaded[cname, i] = o
        return self.loaded[cname, i]

    def find(self, cname, kw):
        (k, v), = kw.items()
        for f in FIELDS[cname]:
            if KEYS.get((cname, f)) == k or (cname, f, k) in (
                    ('Tag', 'authors', 'author_ids'),
                    ('Author', 'tags', 'tag_ids')):
                break
        else:
            check(False, 'query', cname, 'by', kw)
        oc = OTHER[cname, f][0]
        v = v if isinstance(v, list) else [v]
        hit = [i for i in range(self.n[cname])
               if any(self.key(oc, j) in v
                      for j in self.related(cname, i, f))]
        return [self.get(cname, self.key(cname, i)) for i in hit]

    def complete(self, o):
        self.completed += 1
        o.extra = 5


def state(o):
    prev = dict(o.previous_values)
    return (o.is_new, o.is_modified, sorted(o.modified_fields),
            {k: (list(v) if isinstance(v, list) else v)
             for k, v in prev.items()})


def run(case):
    s = Session(case)
    model = {}      # (cls, i) -> scalars now, at the clean point, dirty
    passive = set()
    relinked = set()    # linked from the other side: keys may be reordered
    included = 0

    def sync():
        for k, o in s.loaded.items():
            if k not in model:
                now = {'name': f'n{k[1]}', 'nums': [k[1], 1], 'extra': None}
                model[k] = [now, {**now, 'nums': list(now['nums'])}, set()]
    order = [(c, i) for c in FIELDS for i in range(s.n[c])]
    for n, (op, who, fi, v) in enumerate(case['ops']):
        k = order[who % len(order)]
        if op == 'load' or not s.loaded:
            s.get(k[0], s.key(*k))
            sync()
        else:
            live = sorted(s.loaded)
            k = live[who % len(live)]
            o = s.loaded[k]
            now, clean, dirty = model[k]
            f = FIELDS[k[0]][fi % len(FIELDS[k[0]])]
            before = state(o)
            if op == 'include':
                rel = s.related(*k, f)
                if not rel and (k[0], f) in SINGLE:
                    continue    # nothing to fetch by
                same(o.include(f) is o, True, 'include returns the object')
                sync()
                included += 1
                oc, of = OTHER[k[0], f]
                want = [s.loaded[oc, j] for j in rel]
                got = getattr(o, f)
                got = [got] if (k[0], f) in SINGLE else list(got)
                check(len(got) == len(want) and all(
                    any(x is y for y in want) for x in got), 'included', f,
                    [x.id for x in got], 'want', [x.id for x in want])
                if (k[0], f) in KEYS and k not in relinked:
                    check(all(x is y for x, y in zip(got, want)), 'order')
                for j in rel:
                    b = getattr(s.loaded[oc, j], of)
                    b = b if isinstance(b, list) else [b]
                    check(any(x is o for x in b), f, 'not linked back')
                    passive.add((oc, j))
                    relinked.add((oc, j))
                same(state(o), before, 'state after include', f)
            elif op == 'fobj':
                if k[0] != 'Post' or not s.related(*k, 'author'):
                    continue
                j = s.related(*k, 'author')[0]
                same(o.byline, model['Author', j][0]['name']
                     if ('Author', j) in model else f'n{j}', 'by reference')
                sync()
                passive.add(('Author', j))
                same(state(o), before, 'state after a reference was read')
            elif op == 'write':
                new = f'w{n}'
                o.name = new
                now['name'] = new
                dirty.add('name')
            elif op == 'item':
                o.nums.append(v)
                now['nums'].append(v)
                dirty.add('nums')
            elif op == 'clean':
                o._mark_unmodified()
                model[k] = [now, {**now, 'nums': list(now['nums'])}, set()]
                passive.discard(k)
            elif op == 'complete':
                o._is_partial = bool(v % 2)
                c0 = s.completed
                same(o.complete() is o, True, 'complete returns the object')
                same(s.completed - c0, v % 2, 'storage asked')
                if v % 2:
                    now['extra'] = clean['extra'] = 5
                same(state(o), before, 'state after complete')
            elif op == 'reset':
                if not case['reset'] or k in passive:
                    continue
                o.reset()
                now = {**clean, 'nums': list(clean['nums'])}
                model[k] = [now, clean, set()]
                same(state(o), (False, False, [], {}), 'state after reset')
        for k, o in s.loaded.items():
            now, clean, dirty = model[k]
            for x in ('name', 'nums', 'extra'):
                same(getattr(o, x), now[x], k, x, 'after', op)
            same({x for x in o.modified_fields if x in now}, dirty, k,
                 'modified after', op)
            if not dirty and k not in passive:
                check(not o.is_modified, k, 'is modified after', op)
            for f in FIELDS[k[0]]:
                oc = OTHER[k[0], f][0]
                rel = s.related(*k, f)
                if (k[0], f) in KEYS:
                    ks = [s.key(oc, j) for j in rel]
                    if (k[0], f) in SINGLE:
                        ks = ks[0] if ks else None
                        same(getattr(o, KEYS[k[0], f]), ks, 'key of', k, f)
                    else:
                        got = list(getattr(o, KEYS[k[0], f]) or [])
                        if k in relinked:
                            got, ks = sorted(got), sorted(ks)
                        same(got, ks, 'keys of', k, f)
                v = getattr(o, f)
                for x in ([] if v is None else v if isinstance(v, list)
                          else [v]):
                    check(any(x is s.loaded.get((oc, j)) for j in rel), k, f,
                          'holds an unrelated object')
    return included > 0


FAMILIES = [
    Family('loading', strategy, run, 'related objects were fetched',
           quick=2000, thorough=50000, shards=4, tshards=8)]
