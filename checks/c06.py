"""C06: every built-in validator accepts exactly what it documents."""
import re
from datetime import date, datetime, timedelta, timezone
from vp.core import Family, Violation, check, same
from vp.build import jc, T, graph, vexc, enc, dec


# ---------------------------------------------------------------- catalogue
def _dt(x, other):
    """Compare dates and datetimes: a date is the midnight that starts it."""
    if type(x) is date:
        return datetime(x.year, x.month, x.day,
                        tzinfo=getattr(other, 'tzinfo', None))
    return x


SPECIAL = set('!@#$&*`~()-_+=[]{}:;\'",<>.?\\|/')


def securepw(v):
    return (any('A' <= c <= 'Z' for c in v) and any('a' <= c <= 'z' for c in v)
            and any('0' <= c <= '9' for c in v) and any(c in SPECIAL
                                                        for c in v))


NUM = {
    'min': lambda v, p: v >= p, 'gte': lambda v, p: v >= p,
    'max': lambda v, p: v <= p, 'lte': lambda v, p: v <= p,
    'lt': lambda v, p: v < p, 'gt': lambda v, p: v > p,
    'range': lambda v, p: p[0] <= v <= p[1],
    'negative': lambda v, p: v < 0, 'positive': lambda v, p: v > 0,
    'nonnegative': lambda v, p: v >= 0, 'nonpositive': lambda v, p: v <= 0,
    'eq': lambda v, p: v == p, 'neq': lambda v, p: v != p,
    'oneof': lambda v, p: v in p}
INT = dict(NUM, odd=lambda v, p: v % 2 == 1, even=lambda v, p: v % 2 == 0)
STR = {
    'match': lambda v, p: re.search(p, v) is not None,
    'oneof': lambda v, p: v in p,
    'minlength': lambda v, p: len(v) >= p,
    'maxlength': lambda v, p: len(v) <= p,
    'length': lambda v, p: len(v) == p,
    'length2': lambda v, p: p[0] <= len(v) <= p[1],
    'alpha': lambda v, p: v.isalpha(), 'alnum': lambda v, p: v.isalnum(),
    'digit': lambda v, p: v.isdigit(), 'numeric': lambda v, p: v.isnumeric(),
    'securepw': lambda v, p: securepw(v),
    'hexcolor': lambda v, p: len(v) == 6 and all(
        c in '0123456789abcdefABCDEF' for c in v),
    'hasprefix': lambda v, p: v.startswith(p),
    'hassuffix': lambda v, p: v.endswith(p),
    'isprefixof': lambda v, p: p.startswith(v),
    'issuffixof': lambda v, p: p.endswith(v),
    'eq': lambda v, p: v == p, 'neq': lambda v, p: v != p}
LIST = {
    'minlength': lambda v, p: len(v) >= p,
    'maxlength': lambda v, p: len(v) <= p,
    'length': lambda v, p: len(v) == p,
    'length2': lambda v, p: p[0] <= len(v) <= p[1],
    'hasprefix': lambda v, p: v[:len(p)] == p,
    'hassuffix': lambda v, p: len(p) == 0 or v[-len(p):] == p,
    'isprefixof': lambda v, p: p[:len(v)] == v,
    'issuffixof': lambda v, p: len(v) == 0 or p[-len(v):] == v,
    'eq': lambda v, p: v == p, 'neq': lambda v, p: v != p}
DATE = {'before': lambda v, p: _dt(v, p) < _dt(p, v),
        'after': lambda v, p: _dt(v, p) > _dt(p, v)}
CAT = {'int': INT, 'float': NUM, 'str': STR, 'list': LIST, 'date': DATE,
       'datetime': DATE, 'bool': {'eq': NUM['eq'], 'oneof': NUM['oneof'],
                                  'neq': NUM['neq']}}
NOPARAM = {'negative', 'positive', 'nonnegative', 'nonpositive', 'odd', 'even',
           'alpha', 'alnum', 'digit', 'numeric', 'securepw', 'hexcolor'}
TYPE_OK = {
    'int': lambda v: type(v) is int, 'float': lambda v: isinstance(v, float),
    'bool': lambda v: type(v) is bool, 'str': lambda v: isinstance(v, str),
    'list': lambda v: isinstance(v, list) and all(
        type(x) is int for x in v),
    'date': lambda v: isinstance(v, date),
    'datetime': lambda v: isinstance(v, datetime)}
PATTERNS = ['^a', 'b$', 'a.c', '[0-9]+', '^$', '^[a-c]{2}$', 'a|b']
POS = ['field', 'field', 'list', 'dict', 'nested', 'objlist', 'objdict',
       'deeplist']


def strategy():
    from hypothesis import strategies as st
    num = {'int': st.integers(-4, 6),
           'float': st.sampled_from([-1.5, 0.0, 0.5, 2.0, 2.5, -3.0, 1e9])}
    text = st.one_of(st.text('ab1cC!', max_size=5),
                     st.text(max_size=4),
                     st.sampled_from(['', 'aB1!', 'Aa1', 'A1!', 'a1!', 'Aa!',
                                      'AABBcc', 'aabbc', 'aabbcg', 'aabbccd',
                                      '#aabbcc', '½', '²', 'é', 'aé1', '１',
                                      'ab\n', 'aabbcc\n', 'Pass word1_']))
    lst = st.lists(st.integers(0, 2), max_size=4)
    dts = st.builds(lambda d, h, us: datetime(2020, 1, d, h, 0, 0, us),
                    st.integers(1, 3), st.sampled_from([0, 12, 23]),
                    st.sampled_from([0, 1]))
    days = st.builds(lambda d: date(2020, 1, d), st.integers(1, 3))

    @st.composite
    def case(draw):
        base = draw(st.sampled_from(sorted(CAT)))
        aware = draw(st.booleans())

        def tz(d):
            return d.replace(tzinfo=timezone.utc) if aware else d
        vals = {'int': num['int'], 'float': num['float'], 'str': text,
                'list': lst, 'bool': st.booleans(),
                'date': st.one_of(days, days, dts.map(tz)),
                'datetime': dts.map(tz)}[base]
        points = st.one_of(days, dts.map(tz))
        chain, cands = [], []
        for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
            v = draw(st.sampled_from(sorted(CAT[base])))
            if v in NOPARAM:
                p = None
            elif v in ('before', 'after'):
                p = draw(points)
            elif v in ('minlength', 'maxlength', 'length'):
                p = draw(st.integers(0, 4))
            elif v == 'length2':
                a = draw(st.integers(0, 3))
                p = [a, a + draw(st.integers(0, 2))]
            elif v == 'range':
                a = draw(num[base])
                p = sorted([a, draw(num[base])])
            elif v == 'match':
                p = draw(st.sampled_from(PATTERNS))
            elif v == 'oneof':
                p = draw(st.lists(vals, max_size=3))
            elif v in ('min', 'max', 'lt', 'gt', 'lte', 'gte') and \
                    draw(st.booleans()):
                p = draw(num['int'])
            else:
                p = draw(vals)
            form = draw(st.sampled_from(['const', 'const', 'call0', 'call1',
                                         'call2', 'types', 'owner']))
            chain.append([v, enc(p), form])
            if isinstance(p, (int, float)) and base in num:
                cands += [p, p + 1, p - 1]
                if base == 'float':
                    cands += [float(p), p + 0.5, p - 0.5]
            if v == 'range':
                cands += [p[0] - 1, p[1] + 1, p[0], p[1]]
            if base == 'str' and isinstance(p, str):
                cands += [p, p + 'a', p[1:], p[:-1], 'a' + p]
            if base == 'list' and isinstance(p, list) and v != 'length2':
                cands += [p, p + [1], [1] + p, p[1:], p[:-1]]
            if v in ('minlength', 'maxlength', 'length'):
                mk = (lambda n: 'a' * n) if base == 'str' else (
                    lambda n: [1] * n)
                cands += [mk(p), mk(p + 1), mk(max(p - 1, 0))]
            if v == 'length2':
                mk = (lambda n: 'a' * n) if base == 'str' else (
                    lambda n: [1] * n)
                cands += [mk(p[0]), mk(p[1]), mk(p[1] + 1),
                          mk(max(p[0] - 1, 0))]
            if v in ('before', 'after'):
                cands.append(p)
                if type(p) is date:
                    cands.append(tz(datetime(p.year, p.month, p.day)))
                else:
                    cands += [p.date(), p + timedelta(microseconds=1),
                              p - timedelta(microseconds=1)]
        opts = [vals, vals]
        if cands:
            opts += [st.sampled_from(cands)] * 3
        opts.append(st.none())
        opts.append(st.sampled_from([0, 1.0, 1, True, 'a', '1', [1], ['x'],
                                     {'a': 1}, False]))
        return {'base': base, 'chain': chain, 'value': enc(draw(
            st.one_of(*opts))), 'pos': draw(st.sampled_from(POS)),
            'required': draw(st.integers(0, 3)) == 0,
            'all': draw(st.sampled_from([None, False, True])),
            'conf': draw(st.booleans()),
            'pre': draw(st.booleans())}
    return case()


def param(t, p, form):
    if form == 'call0':
        return lambda: p
    if form == 'call1':
        return lambda owner: p
    if form == 'call2':
        return lambda owner, ctx: p
    if form == 'owner':
        return lambda owner: owner.limit
    if form == 'types':
        return t.default(p)
    return p


def accepts(base, chain, required, v):
    if v is None:
        return not required
    if not TYPE_OK[base](v):
        return False
    return all(CAT[base][name](v, p) for name, p in chain)


def run(case):
    t = T()
    g = graph()
    base, pos = case['base'], case['pos']
    chain = [(n, dec(p)) for n, p, _ in case['chain']]
    v = dec(case['value'])
    owner_param = next((p for (n, p), (_, _, f) in zip(chain, case['chain'])
                        if f == 'owner'), None)
    forms = [f for _, _, f in case['chain']]
    seen_owner = False
    for i, f in enumerate(forms):
        if f == 'owner':
            if seen_owner or pos in ('list', 'dict') and False:
                forms[i] = 'const'
            seen_owner = True
    f = t.listof(int) if base == 'list' else getattr(t, base)
    if case['required'] and case['pre']:
        f = f.required
    for (name, p), form in zip(chain, forms):
        if name in NOPARAM:
            f = getattr(f, name)
        elif name in ('length2', 'range'):
            meth = 'length' if name == 'length2' else name
            if form == 'owner':
                f = getattr(f, meth)(lambda o: o.limit[0],
                                     lambda o: o.limit[1])
            else:
                f = getattr(f, meth)(param(t, p[0], form),
                                     param(t, p[1], form))
        else:
            f = getattr(f, name)(param(t, p, form))
    if case['required'] and not case['pre']:
        f = f.required
    conf = {'validate_all_fields': case['conf']}
    if pos in ('field', 'list', 'dict', 'deeplist'):
        ft = {'field': lambda: f, 'list': lambda: t.listof(f),
              'dict': lambda: t.dictof(f),
              'deeplist': lambda: t.listof(t.listof(f))}[pos]()
        cls = jc('A', {'limit': t.any, 'the_field': ft}, g, **conf)
        obj = cls()
        holder = obj
    else:
        inner = jc('In', {'limit': t.any, 'the_field': f}, g, **conf)
        ft = {'nested': lambda: t.objof(inner),
              'objlist': lambda: t.listof(inner),
              'objdict': lambda: t.dictof(inner)}[pos]()
        cls = jc('A', {'limit': t.any, 'sub_obj': ft}, g, **conf)
        obj = cls()
        holder = inner()
        val = {'nested': holder, 'objlist': [inner(), holder],
               'objdict': {'x y': holder}}[pos]
        # a filler object that is always valid for this chain is not
        # available in general, so the list holds the object alone
        if pos == 'objlist':
            val = [holder]
        obj.sub_obj = val
    holder.limit = owner_param
    if pos == 'field' or pos in ('nested', 'objlist', 'objdict'):
        holder.the_field = v
    elif pos == 'list':
        holder.the_field = [v]
    elif pos == 'deeplist':
        holder.the_field = [[v]]
    else:
        holder.the_field = {'x': v}
    path = {'field': 'theField', 'list': 'theField.0', 'dict': 'theField.x',
            'deeplist': 'theField.0.0',
            'nested': 'subObj.theField', 'objlist': 'subObj.0.theField',
            'objdict': 'subObj.x y.theField'}[pos]
    # items of collections are required unless marked nullable
    required = case['required'] or pos in ('list', 'dict', 'deeplist')
    want = accepts(base, chain, required, v)
    if v is None and any(n == 'neq' for n, _ in chain):
        # null compared with a value is simply unequal
        pass
    before = repr(holder.the_field)
    try:
        ret = obj.validate() if case['all'] is None else obj.validate(
            all_fields=case['all'])
        got = True
        check(ret is obj, 'validate does not return the object')
    except vexc() as e:
        got = False
        paths = list(e.keypath_messages)
        ok = paths == [path] or (
            base == 'list' and isinstance(v, list) and paths
            and all(x == path or x.startswith(path + '.') for x in paths))
        check(ok, 'reported', paths, 'want', path)
        check(all(isinstance(m, str) and m
                  for m in e.keypath_messages.values()), 'messages')
    if got != want:
        raise Violation(f'{base} {chain} {"required " if required else ""}'
                        f'value {v!r} at {pos}: accepted={got}, want {want}')
    same(obj.is_valid, want, 'is_valid')
    same(repr(holder.the_field), before, 'validation changed the value')
    return ('accept' if want else 'reject') if v is not None else False


# --------------------------------------------------------- constructed texts
def text_strategy():
    from hypothesis import strategies as st
    word = st.text('abcXYZ019', min_size=1, max_size=5)
    letters = st.text('abcXYZ', min_size=2, max_size=4)
    local = st.builds(lambda a, b: a + b, word, st.text('ab1._%+-',
                                                        max_size=4))
    domain = st.builds(lambda a, b: '.'.join(a) + '.' + b,
                       st.lists(word, min_size=1, max_size=2), letters)
    good_email = st.builds(lambda a, d: f'{a}@{d}', local, domain)
    bad_email = st.one_of(
        local, domain, domain.map(lambda d: '@' + d),
        st.builds(lambda a, d: f'{a}@{d}', local, word),
        st.builds(lambda a, d: f'{a}@', local, word),
        st.builds(lambda a, d: f'{a} {d}', local, domain),
        st.builds(lambda a, d: f'!{a}@{d}', local, domain),
        st.builds(lambda a, d: f'{a}@.{d}', local, letters), st.just(''))
    host = st.one_of(domain, st.just('localhost'),
                     st.sampled_from(['127.0.0.1', '10.0.0.255']))
    tail = st.one_of(st.just(''), st.just('/'),
                     st.text('abc/?=&#.', max_size=5).map(lambda s: '/x' + s),
                     st.just('?q=1'))
    port = st.one_of(st.just(''), st.integers(1, 65535).map(lambda p: f':{p}'))
    good_url = st.builds(lambda s, h, p, x: f'{s}://{h}{p}{x}',
                         st.sampled_from(['http', 'https', 'ftp', 'ftps',
                                          'HTTP']), host, port, tail)
    bad_url = st.one_of(
        st.builds(lambda h, x: f'{h}{x}', host, tail),
        st.builds(lambda s, h: f'{s}://{h}',
                  st.sampled_from(['file', 'gopher', 'ws', 'htt', '']), host),
        st.builds(lambda h: f'http:/{h}', host),
        st.builds(lambda h: f'http//{h}', host),
        st.builds(lambda u: f'{u} x', good_url),
        st.builds(lambda u: f'x{u}', good_url),
        st.just(''), st.just('http://'), st.just('https://google'),
        st.builds(lambda h: f'http://{h}:abc', host),
        st.builds(lambda w: f'http://{w}', word.filter(
            lambda w: w.lower() != 'localhost')))
    return st.one_of(
        st.tuples(st.just('email'), good_email, st.just(True)),
        st.tuples(st.just('email'), bad_email, st.just(False)),
        st.tuples(st.just('url'), good_url, st.just(True)),
        st.tuples(st.just('url'), bad_url, st.just(False)))


_cache = {}


def run_text(case):
    kind, text, want = case
    if kind not in _cache:
        _cache[kind] = jc('A', {'x': getattr(T().str, kind)})
    obj = _cache[kind](x=text)
    same(obj.is_valid, want, kind, repr(text))
    return True


# ------------------------------------------------------------ custom checks
def custom_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['validate', 'v', 'vmsg', 'oneisvalid',
                                 'invalid', 'types', 'vmsgtypes']),
        'arity': st.sampled_from([1, 2]),
        'results': st.lists(st.sampled_from(
            ['none', 'true', 'false', 'str']), min_size=1, max_size=3),
        'limits': st.lists(st.integers(0, 5), min_size=1, max_size=3),
        'value': st.one_of(st.none(), st.integers(0, 6)),
        'item': st.booleans()})


def run_custom(case):
    t = T()
    v = case['value']
    res = {'none': None, 'true': True, 'false': False, 'str': 'msg here'}
    calls = []

    def fn(i, r):
        def f1(val):
            calls.append(('v', i, val))
            return res[r]

        def f2(val, ctx):
            calls.append(('v', i, val))
            same(ctx.val, val, 'context value')
            check(ctx.owner is obj, 'context owner')
            return res[r]
        return f1 if case['arity'] == 1 else f2
    kind = case['kind']
    r0 = case['results'][0]
    ok = {'none': True, 'true': True, 'false': False, 'str': False}
    want_msg = None
    if kind in ('validate', 'v'):
        f = getattr(t.int, kind)(fn(0, r0))
        want = v is None or ok[r0]
        want_msg = 'msg here' if r0 == 'str' else 'invalid value'
    elif kind == 'vmsg':
        f = t.int.vmsg(fn(0, r0), 'own message')
        want = v is None or ok[r0]
        want_msg = 'own message'
    elif kind in ('types', 'vmsgtypes'):
        lim = case['limits'][0]
        if len(case['limits']) > 1:     # refused on the way or in the end
            top = lim + case['limits'][1]
            sub = t.min(lim).add(1).max(top)
            want = v is None or lim <= v < top
        else:
            sub, want = t.add(1).min(lim), v is None or v + 1 >= lim
        f = t.int.validate(sub) if kind == 'types' else \
            t.int.vmsg(sub, 'own message')
        want_msg = 'own message' if kind == 'vmsgtypes' else 'invalid value'
    elif kind == 'invalid':
        f, want = t.int.invalid, False
    else:
        subs, alts = [], []
        for i, lim in enumerate(case['limits']):
            if i % 2 == (case['arity'] == 1):
                subs.append(t.min(lim))
                alts.append(v is None or v >= lim)
            else:
                subs.append(t.min(lim).add(1).max(lim + 1))
                alts.append(v is None or v == lim)
        for i, r in enumerate(case['results'][1:]):
            subs.append(fn(i, r))
            alts.append(ok[r])
        f, want = t.int.oneisvalid(subs), any(alts)
    if case['item'] and v is not None:
        cls = jc('A', {'x': t.listof(f)})
        obj = cls(x=[v])
        path = 'x.0'
    else:
        cls = jc('A', {'x': f})
        obj = cls(x=v)
        path = 'x'
    check(calls == [], 'validators ran on input')
    try:
        obj.validate()
        got = True
    except vexc() as e:
        got = False
        same(list(e.keypath_messages), [path], 'path')
        if want_msg:
            same(e.keypath_messages[path], want_msg, 'message')
    same(got, want, kind, v)
    return v is not None


FAMILIES = [
    Family('catalogue', strategy, run,
           'the value is not null; labels count accepts and rejects',
           quick=6000, thorough=200000, shards=6, tshards=8),
    Family('texts', text_strategy, run_text, 'always (constructed good or '
           'bad email or url)', quick=1200, thorough=20000, shards=1,
           tshards=2),
    Family('custom', custom_strategy, run_custom, 'the value is not null',
           quick=1000, thorough=6000, shards=1, tshards=1)]
