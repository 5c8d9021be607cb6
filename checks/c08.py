"""C08: transforms have their documented meaning and apply left to right."""
import math
import re
from vp.core import Family, Violation, check, same, typed_eq
from vp.build import jc, T, graph, vexc, enc, dec, camel


class Reject(Exception):
    """The transform rejects the value with a validation error."""


def num(v):
    return type(v) in (int, float)


def sqrt(v):
    if v < 0:
        raise Reject()
    return math.sqrt(v)


def conv(f, v):
    try:
        return f(v) if type(v) in (bool, str) else v
    except ValueError:
        return v


def pad(v, c, n, start):
    p = max(0, n - len(v)) * c
    return p + v if start else v + p


def N(f):
    return lambda v, *p: f(v, *p) if num(v) else v


def S(f):
    return lambda v, *p: f(v, *p) if isinstance(v, str) else v


def SL(fs, fl):
    return lambda v, *p: fs(v, *p) if isinstance(v, str) else (
        fl(v, *p) if isinstance(v, list) else v)


FNS = {
    'double': lambda v: [v, v], 'nothing': lambda v: None,
    'text': lambda v: str(v), 'first': lambda v: v}
PREDS = {'yes': lambda v: True, 'none': lambda v: None,
         'no': lambda v: False, 'isstr': lambda v: isinstance(v, str),
         'truthy': lambda v: bool(v)}
TPREDS = {
    'str2': (lambda t: t.str.minlength(2),
             lambda v: v is None or (isinstance(v, str) and len(v) > 1)),
    'up': (lambda t: t.str.toupper.oneof(['A', 'AB', 'B']),
           lambda v: v is None or (isinstance(v, str)
                                   and v.upper() in ('A', 'AB', 'B'))),
    'req': (lambda t: t.any.required, lambda v: v is not None)}
SUBCHAINS = {'up': [['toupper', []]], 'addone': [['add', [1]]],
             'two': [['add', [1]], ['mul', [3]]],
             'dflt': [['default', ['zz']], ['toupper', []]]}

REF = {
    'trim': S(lambda v: v.strip()), 'tocap': S(lambda v: v.capitalize()),
    'totitle': S(lambda v: v.title()), 'toupper': S(lambda v: v.upper()),
    'tolower': S(lambda v: v.lower()),
    'reverse': SL(lambda v: v[::-1], lambda v: v[::-1]),
    'truncate': lambda v, n: v[:n] if hasattr(v, '__len__') else v,
    'padstart': S(lambda v, c, n: pad(v, c, n, True)),
    'padend': S(lambda v, c, n: pad(v, c, n, False)),
    'replace': S(lambda v, a, b: v.replace(a, b)),
    'replacer': S(lambda v, a, b: re.sub(a, b, v)),
    'split': S(lambda v, s: v.split(s)),
    'join': lambda v, s: s.join(v) if isinstance(v, list) else v,
    'append': SL(lambda v, i: v + str(i), lambda v, i: v + [i]),
    'prepend': SL(lambda v, i: i + v, lambda v, i: [i] + v),
    'insertat': SL(lambda v, i, n: v[:n] + str(i) + v[n:],
                   lambda v, i, n: v[:n] + [i] + v[n:]),
    'len': SL(len, len),
    'add': N(lambda v, b: v + b), 'sub': N(lambda v, b: v - b),
    'mul': N(lambda v, b: v * b), 'div': N(lambda v, b: v / b),
    'mod': N(lambda v, b: v % b), 'pow': N(lambda v, b: b ** v),
    'sqrt': N(sqrt), 'abs': N(abs), 'round': N(round), 'ceil': N(math.ceil),
    'floor': N(math.floor),
    'upperbond': N(lambda v, b: b if v > b else v),
    'lowerbond': N(lambda v, b: b if v < b else v),
    'inverse': lambda v: (not v) if type(v) is bool else v,
    'tobool': lambda v: bool(v),
    'toint': lambda v: conv(int, v), 'tofloat': lambda v: conv(float, v),
    'tostr': lambda v: str(v) if type(v) in (int, float, bool) else v,
    'tolist': lambda v: list(v) if isinstance(v, (str, tuple)) else v,
    'wrapintolist': lambda v: None if v is None else [v],
    'default': lambda v, d: d if v is None else v,
    'at': lambda v, i: None if v is None else v[i],
    'map': lambda v, f: [FNS[f](x) for x in v] if isinstance(v, list) else v,
    'mapt': lambda v, f: [ref_chain(x, SUBCHAINS[f]) for x in v]
    if isinstance(v, list) else v,
    'filtert': lambda v, f: [x for x in v if TPREDS[f][1](x)]
    if isinstance(v, list) else v,
    'filter': lambda v, f: [x for x in v if PREDS[f](x) in (None, True)]
    if isinstance(v, list) else v,
    'transform': lambda v, f: None if v is None else FNS[f](v),
    't': lambda v, f: None if v is None else FNS[f](v),
    'transformt': lambda v, f: ref_chain(v, SUBCHAINS[f]),
    # validators in between leave the value alone
    'validate': lambda v, p: v, 'required': lambda v: v}
LAZY = {'wrapintolist', 'default', 'at', 'validate', 'required'}
BASE_OK = {
    'int': lambda v: type(v) is int, 'float': lambda v: type(v) is float,
    'bool': lambda v: type(v) is bool, 'str': lambda v: isinstance(v, str),
    'any': lambda v: True,
    'list': lambda v: isinstance(v, list) and None not in v}


def accepts(name, ps, v):
    if name == 'required':
        return v is not None
    if name == 'validate':
        return v is None or PREDS[ps[0]](v) in (None, True)
    return True


def predict(base, chain, v, item):
    """What input of v stores, and whether the object is then valid.

    Everything before the last transform is checked at input time, stage by
    stage; whatever follows is checked on the final value by validation.
    """
    last = max([i for i, (n, _) in enumerate(chain) if n not in LAZY],
               default=-1)
    if base == 'float' and type(v) is int:
        v = float(v)
    if last >= 0 and v is not None and not BASE_OK[base](v):
        raise Reject()
    for i, (name, ps) in enumerate(chain):
        v = REF[name](v, *ps)
        if i < last and not accepts(name, ps, v):
            raise Reject()
    valid = all(accepts(n, ps, v) for n, ps in chain[last + 1:])
    if last < 0 and v is not None:
        valid = valid and BASE_OK[base](v)
    if item and v is None:
        valid = False
    return v, valid


def ref_chain(v, chain):
    for name, ps in chain:
        v = REF[name](v, *ps)
    return v


def strategy():
    from hypothesis import strategies as st
    small = st.integers(-4, 7)
    flt = st.sampled_from([-2.5, -0.5, 0.0, 0.5, 1.5, 2.5, 3.25, 10.0])
    number = st.one_of(small, small, flt)
    txt = st.one_of(st.text('abC ,1-', max_size=6),
                    st.sampled_from(['', ' x ', 'hello World', '12', '-3',
                                     '1.5', 'éÀ', 'ß', '\ta\n', 'a,b,,c']))
    lst = st.one_of(st.lists(txt, max_size=3), st.lists(number, max_size=3),
                    st.lists(st.one_of(txt, number), max_size=3))
    item = st.one_of(txt, number, st.booleans())
    nz = number.filter(lambda x: x != 0)
    pos = st.integers(0, 9)
    P = {
        'truncate': st.tuples(st.integers(0, 5)),
        'padstart': st.tuples(st.sampled_from(['*', ' ', 'ab']), pos),
        'padend': st.tuples(st.sampled_from(['*', ' ', 'ab']), pos),
        'replace': st.tuples(st.sampled_from(['a', 'b', ',', 'l', 'lo']),
                             st.sampled_from(['', 'x', 'aa'])),
        'replacer': st.tuples(st.sampled_from(['a+', '[0-9]', '^.', 'b|c',
                                               '(a)(b)']),
                              st.sampled_from(['', 'x', '-'])),
        'split': st.tuples(st.sampled_from([',', ' ', 'l', 'a,'])),
        'join': st.tuples(st.sampled_from(['', '-', ', '])),
        'append': st.tuples(item), 'prepend': st.tuples(item),
        'insertat': st.tuples(item, st.integers(-3, 5)),
        'add': st.tuples(number), 'sub': st.tuples(number),
        'mul': st.tuples(number), 'div': st.tuples(nz), 'mod': st.tuples(nz),
        'pow': st.tuples(st.sampled_from([1, 2, 3, 0.5, 1.5])),
        'upperbond': st.tuples(number), 'lowerbond': st.tuples(number),
        'default': st.tuples(st.one_of(item, lst)),
        'at': st.tuples(st.integers(-3, 4)),
        'map': st.tuples(st.sampled_from(sorted(FNS))),
        'mapt': st.tuples(st.sampled_from(sorted(SUBCHAINS))),
        'filter': st.tuples(st.sampled_from(sorted(PREDS))),
        'filtert': st.tuples(st.sampled_from(sorted(TPREDS))),
        'transform': st.tuples(st.sampled_from(sorted(FNS))),
        't': st.tuples(st.sampled_from(sorted(FNS))),
        'transformt': st.tuples(st.sampled_from(sorted(SUBCHAINS))),
        'validate': st.tuples(st.sampled_from(sorted(PREDS) + ['yes']))}
    byty = {
        str: ['trim', 'tocap', 'totitle', 'toupper', 'tolower', 'reverse',
              'truncate', 'padstart', 'padend', 'replace', 'replacer',
              'split', 'append', 'prepend', 'insertat', 'len', 'toint',
              'tofloat', 'tolist', 'at'],
        int: ['add', 'sub', 'mul', 'div', 'mod', 'pow', 'sqrt', 'abs',
              'round', 'ceil', 'floor', 'upperbond', 'lowerbond', 'tostr'],
        list: ['reverse', 'truncate', 'join', 'append', 'prepend', 'insertat',
               'len', 'map', 'mapt', 'filter', 'filtert', 'at'],
        bool: ['inverse', 'toint', 'tofloat', 'tostr'],
        type(None): ['default', 'default', 'transformt']}
    byty[float] = byty[int]
    anyop = sorted(REF)

    @st.composite
    def case(draw):
        base = draw(st.sampled_from(['str', 'int', 'float', 'bool', 'any',
                                     'list', 'any']))
        v = draw({'str': txt, 'int': small, 'float': number,
                  'bool': st.booleans(), 'list': lst,
                  'any': st.one_of(txt, number, st.booleans(), lst,
                                   st.tuples(item, item),
                                   st.dictionaries(txt, item, max_size=2))
                  }[base])
        if draw(st.integers(0, 5)) == 0:
            v = None
        if draw(st.integers(0, 9)) == 0 and base in ('str', 'int', 'bool'):
            v = draw(st.one_of(txt, small, flt, st.booleans()))
        cur = float(v) if base == 'float' and type(v) is int else v
        chain = []
        rejected = False
        for _ in range(draw(st.integers(1, 5))):
            ops = byty.get(type(cur), anyop)
            op = draw(st.sampled_from(ops * 2 + anyop if ops is not anyop
                                      else anyop))
            ps = list(draw(P[op])) if op in P else []
            try:
                nxt = REF[op](cur, *ps)
            except Reject:
                rejected = True
            except Exception:
                continue    # a misuse (such as a position beyond the end)
            else:
                if isinstance(nxt, complex) or (
                        type(nxt) is float and (nxt != nxt or abs(nxt) > 1e30)
                        ) or (type(nxt) is int and abs(nxt) > 10**30):
                    continue
                cur = nxt
            forms = [draw(st.sampled_from(
                ['const', 'const', 'call0', 'call1', 'call2', 'types']))
                for _ in ps]
            chain.append([op, enc(ps), forms])
            if rejected:
                break
        return {'base': base, 'chain': chain, 'value': enc(v),
                'pos': draw(st.sampled_from(
                    ['field', 'field', 'set', 'list', 'dict', 'nested',
                     'objlist'])),
                'reject': rejected}
    return case()


def param(t, p, form):
    if form == 'call0':
        return lambda: p
    if form == 'call1':
        return lambda owner: p
    if form == 'call2':
        return lambda owner, ctx: p
    if form == 'types':
        return t.default(p)
    return p


def two(fn):
    return lambda v, ctx: fn(v)


def attach(t, f, chain):
    for op, ps, forms in chain:
        ps = dec(ps)
        if op in ('map', 'transform', 't'):
            fn = FNS[ps[0]]
            f = getattr(f, op)(fn if op == 'map' or forms[0] != 'call2' else
                               two(fn))
        elif op in ('mapt', 'transformt'):
            f = getattr(f, op[:-1])(attach(
                t, t, [[n, enc(q), ['const'] * len(q)]
                       for n, q in SUBCHAINS[ps[0]]]))
        elif op == 'filtert':
            f = f.filter(TPREDS[ps[0]][0](t))
        elif op == 'filter':
            f = f.filter(PREDS[ps[0]])
        elif op == 'validate':
            f = f.validate(PREDS[ps[0]])
        elif op == 'default':
            q = ps[0]
            f = f.default(q if forms[0] in ('const', 'call1', 'call2') else
                          (t.default(q) if forms[0] == 'types' else
                           param(t, q, 'call0')))
        elif ps:
            f = getattr(f, op)(*[param(t, p, m) for p, m in zip(ps, forms)])
        else:
            f = getattr(f, op)
            if op == 'reverse':    # a method, unlike its kin
                f = f()
    return f


def run(case):
    t = T()
    g = graph()
    v = dec(case['value'])
    base, pos = case['base'], case['pos']
    f = t.listof(t.any) if base == 'list' else getattr(t, base)
    f = attach(t, f, case['chain'])
    ref = [(n, dec(p)) for n, p, _ in case['chain']]
    if pos == 'set':
        try:    # creating the object runs the chain on null
            predict(base, ref, None, False)
        except Exception:
            pos = 'field'
    try:
        want, valid = predict(base, ref, v, pos in ('list', 'dict'))
        rejected = False
    except Reject:
        rejected = True
    if pos in ('field', 'set', 'list', 'dict'):
        ft = {'list': t.listof(f), 'dict': t.dictof(f)}.get(pos, f)
        cls = jc('A', {'the_field': ft}, g)
        inp = {'theField': {'list': [v, v], 'dict': {'x_y': v}}.get(pos, v)}
        path = {'list': 'theField.0', 'dict': 'theField.x_y'}.get(
            pos, 'theField')
    else:
        inner = jc('In', {'the_field': f}, g)
        cls = jc('A', {'sub_one': t.objof(inner) if pos == 'nested'
                       else t.listof(inner)}, g)
        inp = {'subOne': {'theField': v} if pos == 'nested'
               else [{'theField': v}]}
        path = 'subOne.theField' if pos == 'nested' else 'subOne.0.theField'
    before = enc(inp)
    prior = None
    try:
        if pos == 'set':
            obj = cls()
            prior = obj.the_field
            obj.set(**inp)
        else:
            obj = cls(**inp)
    except vexc() as e:
        if not rejected:
            raise Violation(f'{base} {ref} on {v!r} rejected: '
                            f'{e.keypath_messages}')
        same(list(e.keypath_messages), [path], 'reported path')
        return 'rejected'
    check(not rejected, base, ref, 'on', repr(v), 'was not rejected')
    same(enc(inp), before, 'the input was changed')
    got = {'list': lambda: list(obj.the_field),
           'dict': lambda: dict(obj.the_field),
           'nested': lambda: obj.sub_one.the_field,
           'objlist': lambda: obj.sub_one[0].the_field}.get(
               pos, lambda: obj.the_field)()
    w = {'list': [want, want], 'dict': {'x_y': want}}.get(pos, want)
    if pos == 'set' and w == prior:
        w = prior    # an equal value is already there (1 and True, say)
    same(got, w, f'{base} {ref} on {v!r} at {pos}')
    same(obj.is_valid, valid, f'validity after {base} {ref} on {v!r} ({pos})')
    return 'changed' if not typed_eq(want, v) else False


# ------------------------------------------------------------------ output
def fmt_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'chain': st.lists(st.sampled_from(['neg', 'str', 'list', 'types']),
                          min_size=1, max_size=3),
        'arity': st.integers(1, 2), 'value': st.one_of(
            st.none(), st.integers(-3, 3)),
        'pos': st.sampled_from(['field', 'list', 'dict', 'nested']),
        'null': st.booleans()})


def run_fmt(case):
    t = T()
    g = graph()
    fns = {'neg': lambda v: -v if type(v) is int else v,
           'str': lambda v: f'<{v}>', 'list': lambda v: [v],
           'types': lambda v: v + 1 if type(v) is int else v}
    f = t.int
    for c in case['chain']:
        if c == 'types':
            f = f.fmt(t.add(1))
        elif case['arity'] == 1:
            f = f.fmt(fns[c])
        else:
            f = f.fmt(two(fns[c]))
    v, pos = case['value'], case['pos']
    want = v
    for c in case['chain']:
        want = want if want is None else fns[c](want)
    f = f.nullable
    if pos == 'nested':
        inner = jc('In', {'x': f}, g)
        cls = jc('A', {'s': t.objof(inner)}, g)
        o = cls(s={'x': v})
        raw = o.s.x
        out = o.tojson(output_null=True)['s']['x']
    else:
        cls = jc('A', {'s': {'field': f, 'list': t.listof(f),
                             'dict': t.dictof(f)}[pos]}, g)
        o = cls(s={'field': v, 'list': [v], 'dict': {'k': v}}[pos])
        get = {'field': lambda x: x, 'list': lambda x: x[0],
               'dict': lambda x: x['k']}[pos]
        raw = get(o.s)
        out = get(o.tojson(output_null=True)['s'])
    same(raw, v, 'stored value')
    same(out, want, 'formatted output')
    return v is not None


# ----------------------------------------------------------------- random
def rnd_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['randomdigits', 'randomalnums',
                                 'randomalnumpuncs', 'randomint',
                                 'randomfloat', 'salt']),
        'n': st.integers(0, 80), 'lo': st.integers(-5, 5),
        'span': st.integers(1, 6),
        'form': st.sampled_from(['const', 'call0', 'call1', 'types']),
        'text': st.text('abcXYZ09!é', min_size=1, max_size=8)})


def run_rnd(case):
    import string
    t = T()
    k = case['kind']
    if k == 'salt':
        if case['n'] > 20:
            return False
        import bcrypt
        orig = bcrypt.gensalt
        bcrypt.gensalt = lambda *a, **kw: orig(4)
        try:
            cls = jc('A', {'pw': t.str.salt}, graph())
            a, b = cls(pw=case['text']), cls(pw=case['text'])
        finally:
            bcrypt.gensalt = orig
        check(a.pw != case['text'] and a.pw != b.pw, 'salt is not salted')
        check(bcrypt.checkpw(case['text'].encode(), a.pw.encode()),
              'hash does not match its text')
        check(not bcrypt.checkpw((case['text'] + 'x').encode(),
                                 a.pw.encode()), 'hash matches other text')
        check(cls().pw is None, 'null was salted')
        return True
    if k in ('randomint', 'randomfloat'):
        lo, hi = case['lo'], case['lo'] + case['span']
        f = getattr(t, k)(param(t, lo, case['form']),
                          param(t, hi, case['form']))
        cls = jc('A', {'x': f}, graph())
        seen = {cls().x for _ in range(20)}
        for v in seen:
            if k == 'randomint':
                check(type(v) is int and lo <= v < hi, v, 'not in', lo, hi)
            else:
                check(type(v) is float and lo <= v <= hi, v)
        if k == 'randomfloat' or case['span'] > 4:
            check(len(seen) > 1, 'not random')
        return True
    n = case['n']
    f = getattr(t, k)(param(t, n, case['form']))
    cls = jc('A', {'x': f}, graph())
    v, w = cls().x, cls().x
    chars = {'randomdigits': string.digits,
             'randomalnums': string.ascii_letters + string.digits,
             'randomalnumpuncs': string.ascii_letters + string.digits
             + string.punctuation}[k]
    check(type(v) is str and len(v) == n and all(c in chars for c in v), v)
    if n > 16:
        check(v != w, 'two random strings are equal')
    return n > 0


FAMILIES = [
    Family('chains', strategy, run,
           'the chain changes the value or rejects it', quick=9000,
           thorough=200000, shards=4, tshards=8),
    Family('formats', fmt_strategy, run_fmt, 'a value is formatted',
           quick=400, thorough=4000, shards=1, tshards=1),
    Family('random', rnd_strategy, run_rnd, 'something is drawn',
           quick=400, thorough=4000, shards=1, tshards=1)]
