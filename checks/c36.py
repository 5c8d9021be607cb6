"""C36: secrets are kept only as their salted hash and judged by it."""
import bcrypt
from vp.core import Family, check, expect_raises, same
from vp.build import jc, T, graph, vexc

_gensalt = bcrypt.gensalt
KINDS = ['plain', 'min', 'trim', 'writeonly', 'required', 'list', 'dict',
         'nested', 'default', 'nonnull']
OPS = ['set', 'set', 'same', 'null', 'other', 'validate', 'save', 'skip',
       'tojson', 'clean', 'reset', 'update', 'raw', 'short', 'absent',
       'bad', 'echo']


def cheap(fn):
    def run(case):
        bcrypt.gensalt = lambda *a, **kw: _gensalt(4)
        try:
            return fn(case)
        finally:
            bcrypt.gensalt = _gensalt
    return run


def verifies(plain, hashed):
    return isinstance(hashed, str) and hashed.startswith('$2') and (
        bcrypt.checkpw(plain.encode(), hashed.encode()))


def strategy():
    from hypothesis import strategies as st
    text = st.text(st.characters(blacklist_categories=['Cs'],
                                 blacklist_characters='\0'),
                   max_size=12).map(lambda s: 'q§' + s)
    return st.fixed_dictionaries({
        'kind': st.sampled_from(KINDS), 'first': st.one_of(st.none(), text),
        'reset': st.booleans(), 'inh': st.booleans(),
        'ops': st.lists(st.tuples(st.sampled_from(OPS), text).map(list),
                        min_size=1, max_size=7)})


def strings(x, seen):
    """Every string reachable from the state of an object."""
    if isinstance(x, str):
        yield x
    elif isinstance(x, dict):
        for k, v in list(x.items()):
            yield from strings(k, seen)
            yield from strings(v, seen)
    elif isinstance(x, (list, tuple, set)):
        for v in list(x):
            yield from strings(v, seen)
    elif hasattr(x, '__dict__') and hasattr(type(x), 'cdef'):
        if id(x) not in seen:
            seen.add(id(x))
            for k, v in vars(x).items():
                if k not in ('_graph', '_link_keys'):
                    yield from strings(v, seen)


def run_hist(case):
    V = vexc()
    t = T()
    g = graph()
    k = case['kind']
    chain = {'min': lambda: t.str.minlength(4).maxlength(40).salt,
             'trim': lambda: t.str.trim.salt,
             'writeonly': lambda: t.str.writeonly.salt,
             'required': lambda: t.str.salt.required,
             'nonnull': lambda: t.str.writenonnull.salt,
             'default': lambda: t.str.default('q§default').salt}.get(
                 k, lambda: t.str.salt)()
    field = {'list': lambda: t.listof(chain), 'dict': lambda: t.dictof(chain),
             'nested': lambda: t.objof('Box')}.get(k, lambda: chain)()
    jc('Box', {'pw': t.str.salt}, g)
    fs = {'id': t.str.primary, 'nick': t.str, 'pw': field}
    conf = dict(reset_all_fields=case['reset'])
    cls = (jc('User', {'nick': t.str}, g, bases=(jc('Base', fs, g, **conf),),
              **conf) if case['inh'] else jc('User', fs, g, **conf))
    cls._database_write = lambda self: None

    def wrap(p):
        return {'list': lambda: [p, p + 'z'], 'dict': lambda: {'a': p},
                'nested': lambda: {'pw': p}}.get(k, lambda: p)()

    def parts():
        """The (index, hash) pairs held now."""
        v = o.pw
        if v is None:
            return []
        if k == 'list':
            return list(enumerate(v))
        if k == 'dict':
            return list(v.items())
        return [(0, v.pw if k == 'nested' else v)]

    def plains(p):
        p = p.strip() if k == 'trim' else p
        return {'list': lambda: [p, p + 'z']}.get(k, lambda: [p])()

    def fresh(old):
        """The value was set: it is the hash of the given text."""
        now = parts()
        same(len(now), len(want), 'number of secrets')
        for (i, h), p in zip(now, want):
            check(verifies(p, h), 'secret', i, h, 'is not of', p)
            check(not verifies(p + 'x', h) and not verifies('x' + p, h),
                  'secret verifies with other text')
            check(h not in used, 'salt was reused')
            used.add(h)
    used = set()
    want = []
    init = {'id': 'u', 'nick': 'n'}
    if case['first'] is not None:
        init['pw'] = wrap(case['first'])
    o = None
    try:
        o = cls(**init)
    except V:
        check(k == 'min' and len(case['first']) < 4, 'refused', init)
        o = cls(id='u', nick='n')
        case = {**case, 'first': None}
    if case['first'] is not None:
        want = plains(case['first'])
    elif k == 'default':
        want = ['q§default']
    fresh([])
    held = parts()
    sets = bool(held)
    allp = set(want)
    clean, new = None, True

    def judged():       # a stored object is judged by its changes
        return new or 'pw' in o.modified_fields
    for n, (op, text) in enumerate(case['ops']):
        if op in ('set', 'same'):
            p = text if op == 'set' or not want else want[0]
            if p[:2] != '$2':       # it was the hash of a former secret
                allp.update(plains(p))
            if k == 'min' and len(p) < 4:
                e = expect_raises(V, lambda: o.set(pw=wrap(p)), 'short')
                same(list(e.keypath_messages), ['pw'], 'reported')
            else:
                o.set(pw=wrap(p))
                want = plains(p)
                fresh(held)
                held = parts()
                sets += 1
        elif op == 'short':
            if k == 'min':
                e = expect_raises(V, lambda: o.set(pw='q§'), 'short')
                same(list(e.keypath_messages), ['pw'], 'reported')
        elif op == 'echo':          # a hash is a text like any other
            if k == 'min' or not held:
                continue
            o.set(pw=wrap(held[0][1]))
            want = plains(held[0][1])
            fresh(held)
            held = parts()
        elif op == 'bad':           # text that has no hash
            text += ('\0abc', '\ud800abc')[n % 2]
            e = expect_raises(V, lambda: o.set(pw=wrap(text)), 'bad text')
            check(all(x.split('.')[0] == 'pw' for x in e.keypath_messages),
                  'reported', e.keypath_messages)
        elif op == 'null':
            o.set(pw=None)
            if k == 'default':      # null input is filled
                want = ['q§default']
                fresh(held)
            elif k == 'nonnull':
                pass                # null is not written
            else:
                want = []
            held = parts()
        elif op == 'absent':
            o.set(nick=f'm{n}')
        elif op == 'other':
            o.nick = f'o{n}'
        elif op in ('update', 'raw'):   # trusted: kept as given
            h = bcrypt.hashpw(text.encode(), _gensalt(4)).decode()
            if k in ('list', 'dict', 'nested'):
                continue
            if op == 'update':
                o.update(pw=h)
            else:
                o.pw = h
            want = [text]
            allp.add(text)
            same(o.pw, h, 'trusted value')
            used.add(h)
            held = parts()
        elif op == 'validate':
            if k == 'required' and not want and judged():
                expect_raises(V, lambda: o.validate(all_fields=True), 'null')
            else:
                o.validate(all_fields=True)
        elif op in ('save', 'skip'):
            if k == 'required' and not want and op == 'save' and judged():
                expect_raises(V, o.save, 'null')
            else:
                o.save(skip_validation=op == 'skip')
        elif op == 'clean':
            o._mark_unmodified()
            clean, new, cwant = list(held), False, list(want)
        elif op == 'reset':
            if new or not case['reset'] or k in ('list', 'dict', 'nested'):
                continue
            o.reset()
            want, held = list(cwant), list(clean)
        else:
            out = o.tojson()
            if k == 'writeonly':
                check('pw' not in out, 'secret in output', out)
            for s in strings(out, set()):
                check(s not in allp, 'given text in output', op)
        same(parts(), held, 'secret after', op)
        for (i, h), p in zip(held, want):
            check(verifies(p, h), 'after', op, 'secret', i, 'is not of', p)
        for s in strings(o, set()):
            check(s not in allp, 'given text kept in the object after', op)
    return sets > 0


# --- judging a given secret --------------------------------------------------
def auth_strategy():
    from hypothesis import strategies as st
    pw = st.sampled_from(['q1', 'q2', 'q1 ', 'é', '', 'x' * 20])
    return st.fixed_dictionaries({
        'users': st.lists(st.tuples(st.sampled_from(['a', 'b', 'c', 'd']),
                                    st.one_of(st.none(), pw)).map(list),
                          max_size=4, unique_by=lambda x: x[0]),
        'tries': st.lists(st.tuples(
            st.sampled_from(['a', 'b', 'c', 'd', 'e']),
            st.one_of(st.none(), pw, pw, st.just(5),
                      st.sampled_from(['q1\0', '\ud800', '\0'])),
            st.sampled_from(['authby', 'short', 'cross', 'crosscode',
                             'field', 'renamed'])).map(list),
            min_size=1, max_size=6),
        'all': st.booleans()})


class Query:
    def __init__(self, got):
        self.optional = self
        self.got = got

    def exec(self):
        return self.got


def run_auth(case):
    from jsonclasses.ctx import Ctx
    V = vexc()
    t = T()
    g = graph()
    users = {}
    User = jc('User', {
        'id': t.str.primary, 'mail': t.str.authidentity,
        'pw': t.str.salt.authby(t.checkpw(t.passin)),
        'pw2': t.str.salt.authbycheckpw, 'code': t.str,
        'fromcode': t.str.authby(t.crossfetch('Code', 'mail').fval(
            'code').eq(t.passin))}, g)
    Code = jc('Code', {'id': t.str.primary, 'mail': t.str, 'owner_mail': t.str,
                       'code': t.str}, g)
    Login = jc('Login', {
        'mail': t.str, 'given': t.str,
        'cross': t.str.validate(t.crossfetch('User', 'mail').fval(
            'pw').checkpw(t.this.fval('given')))}, g)
    Renamed = jc('Renamed', {
        'who': t.str, 'given': t.str,
        'cross': t.str.validate(t.crossfetch('User', 'who', 'mail').fval(
            'pw').checkpw(t.this.fval('given')))}, g)
    Direct = jc('Direct', {
        'given': t.str,
        'hash': t.str.checkpw(t.this.fval('given'))}, g)
    asked = []

    def one(cls, **kw):
        asked.append((cls.__name__, kw))
        (f, v), = kw.items()
        return Query(next((u for u in pool[cls.__name__]
                           if getattr(u, f) == v), None))
    pool = {'User': [], 'Code': []}
    User.one = Code.one = classmethod(one)
    for n, (mail, pw) in enumerate(case['users']):
        u = User(id=f'u{n}', mail=mail, pw=pw, pw2=pw)
        users[mail] = (u, pw)
        pool['User'].append(u)
        pool['Code'].append(Code(id=f'c{n}', mail=mail, code=pw))
    good = bad = 0
    for mail, given, how in case['tries']:
        u, pw = users.get(mail, (None, None))
        ok = u is not None and pw is not None and given == pw
        asked.clear()
        if how in ('authby', 'short', 'crosscode'):
            if u is None:
                continue
            name = {'authby': 'pw', 'short': 'pw2',
                    'crosscode': 'fromcode'}[how]
            f = User.cdef.field_named(name)
            check(f.fdef.auth_by, 'auth field', name)
            ctx = Ctx.rootctxp(u, name, getattr(u, name), given)
            c = f.fdef.auth_by_checker.modifier
            if how == 'crosscode':
                ok = given == pw or pw is None

            def fn():
                c.validate(ctx.nval(c.transform(ctx)))
        else:
            if given == 5:
                continue
            if how == 'cross':
                o = Login(mail=mail, given=given)
            elif how == 'renamed':
                o = Renamed(who=mail, given=given)
            else:
                h = 'no hash' if u is None else u.pw
                o = Direct(given=given, hash=h)

            def fn():
                o.validate(all_fields=case['all'])
        try:
            fn()
        except V as e:
            check(not ok, 'refused', mail, given, how, e)
            key = {'authby': 'pw', 'short': 'pw2', 'crosscode': 'fromcode',
                   'field': 'hash'}.get(how, 'cross')
            same(list(e.keypath_messages), [key], 'reported at', how)
            bad += 1
        else:
            check(ok, 'accepted', mail, repr(given), 'stored', repr(pw), how)
            good += 1
        if how in ('cross', 'renamed', 'crosscode'):
            check(asked and all(a == ('Code' if how == 'crosscode' else
                                      'User', {'mail': mail})
                                for a in asked), 'queries', asked)
        if u is not None:
            check(pw is None or verifies(pw, u.pw), 'stored secret changed')
    return ','.join((['accepted'] if good else []) +
                    (['refused'] if bad else []))


FAMILIES = [
    Family('history', strategy, cheap(run_hist), 'a secret was set',
           quick=1200, thorough=30000, shards=4, tshards=8),
    Family('judging', auth_strategy, cheap(run_auth),
           'a secret was judged', quick=1000, thorough=30000, shards=4,
           tshards=8)]
