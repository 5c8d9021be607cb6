"""C09: save time setters and change hooks run exactly when they should."""
import copy

from vp.core import Family, Violation, check, same
from vp.build import jc, T, graph, vexc

KINDS = ['plain', 'sos', 'fsos', 'onsave', 'onwrite', 'onupdate', 'compare',
         'owlist', 'sosv', 'hist', 'ownest', 'updnest']


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def case(draw):
        def fields(objs):
            fs = [[f'f{i}', draw(st.sampled_from(KINDS)),
                   draw(st.integers(0, 3))]
                  for i in range(draw(st.integers(1, 4)))]
            for k in objs:
                fs.insert(draw(st.integers(0, len(fs))), [k, k, 0])
            return fs
        kids = draw(st.lists(st.sampled_from(['one', 'many', 'link']),
                             max_size=2, unique=True))
        root = fields(kids)
        inner = fields([])
        steps = []
        for _ in range(draw(st.integers(1, 8))):
            k = draw(st.sampled_from(['put', 'put', 'put', 'save', 'save',
                                      'clean', 'saveskip']))
            if k == 'put':
                steps.append(['put', draw(st.integers(0, 4)),
                              draw(st.integers(0, 9)), draw(
                                  st.integers(0, 4)), draw(st.booleans())])
            else:
                steps.append([k])
        return {'root': root, 'inner': inner, 'steps': steps}
    return case()


class Obj:
    """Model of one object."""

    def __init__(self, i, fields):
        self.i = i
        self.fields = fields
        self.val = {f: None for f, _, _ in fields}
        self.new = True
        self.mod = set()
        self.prev = {}

    def put(self, f, v):
        kind = next(k for n, k, _ in self.fields if n == f)
        if self.val[f] == v:
            return
        if not self.new:
            self.mod.add(f)
            if kind in ('onupdate', 'compare', 'hist', 'updnest'):
                self.prev.setdefault(f, self.val[f])
        self.val[f] = v

    def inside(self, f, key, v):
        """The list under `key` of a dict of lists grows by v."""
        kind = next(k for n, k, _ in self.fields if n == f)
        new = copy.deepcopy(self.val[f])
        new[key].append(v)
        if not self.new:
            self.mod.add(f'{f}.{key}')
            if kind == 'updnest':
                self.prev.setdefault(f, self.val[f])
        self.val[f] = new

    def touched(self, f):
        return any(p.split('.')[0] == f for p in self.mod)

    def clean(self):
        self.new = False
        self.mod = set()
        self.prev = {}


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, list):
        return [plain(x) for x in v]
    return v


def shrinks(ar, a, b):
    if ar == 2:
        return a is None
    if ar == 3:
        return b is None
    return (b or 0) < (a or 0)


class Stop(Exception):
    pass


def build(case, log):
    t = T()
    g = graph()

    def fld(kind, ar, own):
        if kind == 'sos':
            return t.int.setonsave((lambda: 777) if ar == 0 else
                                   (lambda v: (v or 0) + 1) if ar < 3 else
                                   t.default(0).add(1))
        if kind == 'sosv':
            return t.int.setonsave(lambda v: (v or 0) + 1).validate(
                lambda v: f'too big {v}' if v % 100 > 3 else None)
        if kind == 'fsos':
            return t.int.fsetonsave((lambda: 888) if ar == 0 else
                                    (lambda v: (v or 0) + 1) if ar < 3 else
                                    t.default(0).add(1))
        if kind == 'onsave':
            return t.int.onsave((lambda: log.append(['save'])) if ar == 0
                                else (lambda v: log.append(['save', v])))
        if kind == 'onwrite':
            return t.int.onwrite([
                lambda: log.append(['write']),
                lambda v: log.append(['write', v]),
                lambda v, ctx: log.append(['write', v, own(ctx)])
            ][min(ar, 2)])
        if kind == 'owlist':
            return t.listof(int).onwrite(
                lambda v: log.append(['wlist', None if v is None
                                      else list(v)]))
        if kind == 'onupdate':
            return t.int.onupdate([
                lambda: log.append(['update']),
                lambda v: log.append(['update', v]),
                lambda a, b: log.append(['update', a, b]),
                lambda a, b, ctx: log.append(['update', a, b, own(ctx)])
            ][ar])
        if kind == 'compare':
            return t.int.compare(
                [lambda a, b: None if (b or 0) >= (a or 0) else 'shrinks',
                 lambda a, b, ctx: (b or 0) >= (a or 0),
                 lambda a, b: a is not None,
                 lambda a, b: b is not None][ar])
        if kind == 'ownest':
            return t.dictof(t.listof(int)).onwrite(
                lambda v: log.append(['wnest', plain(v)]))
        if kind == 'updnest':
            return t.dictof(t.listof(int)).onupdate(
                lambda a, b: log.append(['unest', plain(a), plain(b)]))
        if kind == 'hist':
            # a list that may not shrink, told about its updates
            return t.listof(int).compare(
                lambda a, b: len(b or []) >= len(a or [])).onupdate(
                    lambda a, b: log.append(
                        ['hist', None if a is None else list(a),
                         None if b is None else list(b)]))
        return t.int

    def own(ctx):
        return ctx.owner.tag
    inner = {'tag': t.int, 'id': t.str.primary}
    for f, k, ar in case['inner']:
        inner[f] = fld(k, ar, own)
    root = {'tag': t.int, 'id': t.str.primary}
    for f, k, ar in case['root']:
        if k == 'one':
            root[f] = t.objof('Inner')
        elif k == 'many':
            root[f] = t.listof('Inner')
        elif k == 'dic':
            root[f] = t.dictof('Inner')
        elif k == 'link':
            root[f] = t.objof('Inner').linkto
        else:
            root[f] = fld(k, ar, own)
    I = jc('Inner', inner, g)
    R = jc('Root', root, g)
    return R, I


def run(case):
    log, mlog = [], []
    R, I = build(case, log)
    wrote = []

    def write(self):
        wrote.append(1)
        log.append(['db', self.tag])
    R._database_write = write
    I._database_write = write
    root = R(id='r')
    kids = [k for _, k, _ in case['root']
            if k in ('one', 'many', 'link', 'dic')]
    objs, models = [root], [Obj(0, [f for f in case['root']
                                    if f[1] not in kids])]
    place = {}
    for k in kids:
        n = 2 if k in ('many', 'dic') else 1
        mine = []
        for _ in range(n):
            i = len(objs)
            o = I(id=f'i{i}')
            objs.append(o)
            models.append(Obj(i, case['inner']))
            mine.append(i)
        place[k] = mine
        setattr(root, k, {'one': lambda: objs[mine[0]],
                          'link': lambda: objs[mine[0]],
                          'many': lambda: [objs[j] for j in mine],
                          'dic': lambda: {f'k{j}': objs[j] for j in mine}
                          }[k]())
    for i, o in enumerate(objs):
        o.tag = i
    used = saved = 0

    def path_prefix(i):
        for k, ids in place.items():
            if i in ids:
                return {'one': 'one.', 'link': 'link.',
                        'many': f'many.{ids.index(i)}.',
                        'dic': f'dic.k{i}.'}[k]
        return ''

    def m_validate(i):
        m = models[i]
        order = case['root'] if i == 0 else case['inner']
        for f, k, ar in order:
            if k in place:
                if k != 'link' and not m.new:
                    continue    # embedded objects, field not modified
                for j in place[k]:
                    m_validate(j)
            elif not m.new and not m.touched(f):
                continue
            elif k == 'compare' and f in m.prev:
                if shrinks(ar, m.prev[f], m.val[f]):
                    raise Stop(path_prefix(i) + f)
            elif k == 'hist' and f in m.prev:
                if len(m.val[f] or []) < len(m.prev[f] or []):
                    raise Stop(path_prefix(i) + f)

    def m_serialize(i, seen):
        if i in seen:
            return
        seen.add(i)
        m = models[i]
        order = case['root'] if i == 0 else case['inner']
        should = m.new or bool(m.mod)
        for f, k, ar in order:
            if k in place:
                if k != 'dic' or should:
                    for j in place[k]:
                        m_serialize(j, seen)
                continue
            if not (should or k == 'fsos'):
                continue
            v = m.val[f]
            if k == 'sos':
                m.put(f, 777 if ar == 0 else (v or 0) + 1)
            elif k == 'sosv':
                w = (v or 0) + 1
                if w % 100 > 3:
                    raise Stop(path_prefix(i) + f)
                m.put(f, w)
            elif k == 'fsos':
                m.put(f, 888 if ar == 0 else (v or 0) + 1)
            elif k == 'onsave':
                mlog.append(['save'] if ar == 0 else ['save', v])
            elif k == 'onwrite' and (m.new or f in m.mod):
                mlog.append([['write'], ['write', v], ['write', v, i]][
                    min(ar, 2)])
            elif k == 'owlist' and (m.new or f in m.mod):
                mlog.append(['wlist', v])
            elif k == 'ownest' and (m.new or m.touched(f)):
                mlog.append(['wnest', v])
            elif k == 'updnest' and f in m.prev:
                mlog.append(['unest', m.prev[f], v])
            elif k == 'onupdate' and f in m.prev:
                a = m.prev[f]
                mlog.append([['update'], ['update', v], ['update', a, v],
                             ['update', a, v, i]][ar])
            elif k == 'hist' and f in m.prev:
                mlog.append(['hist', m.prev[f], v])
            should = should or m.new or bool(m.mod)

    def compare(what):
        for m, o in zip(models, objs):
            for f, k, _ in m.fields:
                got = getattr(o, f)
                same(plain(got), m.val[f],
                     what, 'object', m.i, f, k)
            same(o.is_new, m.new, what, 'is_new', m.i)
            same(o.is_modified, bool(m.mod), what, 'is_modified', m.i)
            same(sorted(o.modified_fields), sorted(m.mod), what,
                 'modified fields', m.i)
    for step in case['steps']:
        if step[0] == 'put':
            i = step[1] % len(objs)
            m, o = models[i], objs[i]
            f, k, _ = m.fields[step[2] % len(m.fields)]
            v = step[3] + i * 100
            if k in ('ownest', 'updnest'):
                if step[4] and m.val[f]:
                    key = 'ab'[step[3] % 2]
                    m.inside(f, key, v)
                    getattr(o, f)[key].append(v)
                else:
                    m.put(f, {'a': [v], 'b': []})
                    setattr(o, f, {'a': [v], 'b': []})
            elif k in ('owlist', 'hist'):
                if step[4] and m.val[f]:
                    new = m.val[f] + [v]
                    if step[3] == 4:
                        new = m.val[f][1:]
                        o.__getattribute__(f).pop(0)
                    else:
                        getattr(o, f).append(v)
                    m.put(f, new)
                else:
                    m.put(f, [v])
                    setattr(o, f, [v])
            else:
                v = None if step[3] == 4 and step[4] else v
                m.put(f, v)
                setattr(o, f, v)
        elif step[0] == 'clean':
            for m, o in zip(models, objs):
                m.clean()
                o._mark_unmodified()
        else:
            saved += 1
            del log[:]
            del mlog[:]
            del wrote[:]
            skip = step[0] == 'saveskip'
            want = None
            validated = True
            try:
                if not skip:
                    m_validate(0)
                validated = True
            except Stop as e:
                want, validated = str(e), False
            if validated:
                try:
                    m_serialize(0, set())
                    mlog.append(['db', 0])
                except Stop as e:
                    want = str(e)
            try:
                ret = root.save(skip_validation=skip)
                got = None
                check(ret is root, 'save does not return the object')
            except vexc() as e:
                got = list(e.keypath_messages)
            same(got, None if want is None else [want], 'save outcome')
            same(log, mlog, 'calls')
            used += len(log) > 1
            if want is not None:
                check(not wrote, 'written although rejected')
                if validated:
                    return True    # stopped half way through save setters
            else:
                compare('after save')
                for m, o in zip(models, objs):
                    m.clean()
                    o._mark_unmodified()
        compare(step[0])
    return bool(saved and (used or len(objs) > 1))


FAMILIES = [
    Family('history', strategy, run,
           'an object is saved with hooks called or nested objects',
           quick=4000, thorough=80000, shards=4, tshards=8)]
