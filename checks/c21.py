"""C21: date and time transforms land on the right calendar boundary."""
from calendar import monthrange
from datetime import date, datetime, timedelta, timezone
from vp.core import Family, check, same
from vp.build import jc, T, graph, vexc, iso_dt

UNITS = ['sec', 'min', 'hour', 'day', 'mon', 'year']
STEPS = ['tobo' + u for u in UNITS] + ['tonext' + u for u in UNITS]
OFFS = [None, 0, 330, -480, 765, -1]


# Reference calendar: days counted by hand from year and month lengths, time
# of day as microseconds.  (y, m, d, us)
def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mlen(y, m):
    return [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30,
            31][m - 1]


SIZE = {'sec': 10**6, 'min': 60 * 10**6, 'hour': 3600 * 10**6}
DAYUS = 24 * 3600 * 10**6


def ref(v, step, isdate):
    y, m, d, us = v
    nxt = step.startswith('tonext')
    unit = step[6:] if nxt else step[4:]
    if unit in SIZE:
        if isdate:
            return v
        us = us // SIZE[unit] * SIZE[unit]
        if nxt:
            us += SIZE[unit]
            if us >= DAYUS:
                us -= DAYUS
                d += 1
    else:
        us = 0
        if unit == 'day':
            d += 1 if nxt else 0
        elif unit == 'mon':
            d = 1
            m += 1 if nxt else 0
        else:
            d = m = 1
            y += 1 if nxt else 0
    if d > mlen(y, min(m, 12)):
        d = 1
        m += 1
    if m > 12:
        m = 1
        y += 1
    return [y, m, d, us]


def tz(off):
    return None if off is None else timezone(timedelta(minutes=off))


def mk(v, isdate, off):
    y, m, d, us = v
    if isdate:
        return date(y, m, d)
    s, us = divmod(us, 10**6)
    return datetime(y, m, d, s // 3600, s // 60 % 60, s % 60, us, tz(off))


def value_strategy(st):
    @st.composite
    def val(draw):
        y = draw(st.one_of(st.integers(1000, 9900), st.sampled_from(
            [1900, 1999, 2000, 2001, 2020, 2021, 2023, 2024, 2100])))
        m = draw(st.one_of(st.integers(1, 12), st.sampled_from([1, 2, 11, 12])))
        n = mlen(y, m)
        d = draw(st.one_of(st.integers(1, n), st.sampled_from([1, n, n - 1])))
        us = draw(st.one_of(
            st.integers(0, DAYUS - 1),
            st.sampled_from([0, 1, DAYUS - 1, DAYUS - 10**6, DAYUS // 2]),
            st.tuples(st.integers(0, 23), st.sampled_from([0, 59, 30]),
                      st.sampled_from([0, 59]),
                      st.sampled_from([0, 1, 999999, 500000])).map(
                lambda t: ((t[0] * 60 + t[1]) * 60 + t[2]) * 10**6 + t[3])))
        return [y, m, d, us]
    return val()


def strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'date': st.sampled_from([False, False, True]),
        'off': st.sampled_from(OFFS),
        'form': st.sampled_from(['obj', 'obj', 'text', 'attr']),
        'steps': st.lists(st.sampled_from(STEPS), min_size=1, max_size=4),
        'vals': st.lists(value_strategy(st), min_size=1, max_size=4),
        'none': st.booleans()})


def run(case):
    t = T()
    isdate = case['date']
    chain = t.date if isdate else t.datetime
    for s in case['steps']:
        chain = getattr(chain, s)
    cls = jc('Tm', {'at': chain}, graph())
    if case['none']:
        same(cls(at=None).at, None, 'null')
    moved = False
    for v in case['vals']:
        off = case['off']
        x = mk(v, isdate, off)
        if case['form'] == 'text':
            y, m, d, us = v
            text = f'{y:04d}-{m:02d}-{d:02d}T'
            s, u = divmod(us, 10**6)
            text += f'{s // 3600:02d}:{s // 60 % 60:02d}:{s % 60:02d}.'
            text += f'{u // 1000:03d}Z'
            v = [y, m, d, s * 10**6 + u // 1000 * 1000]
            off = 0
            given = text
        else:
            given = x
        obj = cls(at=given) if case['form'] != 'attr' else cls()
        if case['form'] == 'attr':
            obj.set(at=given)
        w = v
        for s in case['steps']:
            w = ref(w, s, isdate)
        want = mk(w, isdate, off)
        got = obj.at
        check(type(got) is type(want), 'type', got, want)
        check(got == want and (isdate or got.utcoffset() == want.utcoffset()),
              case['steps'], 'of', given, 'got', got, 'want', want)
        moved = moved or w != v
        obj.validate()
        same(obj.tojson()['at'], iso_dt(want) if not isdate else
             want.isoformat() + 'T00:00:00.000Z', 'output')
    return ('date,' if isdate else '') + case['form'] if moved else False


# --- fmtd ------------------------------------------------------------------
PARTS = ['%Y', '%m', '%d', '%H', '%M', '%S', '%y', '%j', '%%', '-', '/', ' ',
         'T', ':', 'day ', '年', '%B', '%A', '%f']
MON = ['January', 'February', 'March', 'April', 'May', 'June', 'July',
       'August', 'September', 'October', 'November', 'December']
DAY = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday',
       'Sunday']


def dow(y, m, d):       # Zeller-style, Monday = 0
    t = [0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4]
    if m < 3:
        y -= 1
    return (y + y // 4 - y // 100 + y // 400 + t[m - 1] + d - 1) % 7


def fref(v, part):
    y, m, d, us = v
    s = us // 10**6
    return {'%Y': f'{y}', '%m': f'{m:02d}', '%d': f'{d:02d}',
            '%H': f'{s // 3600:02d}', '%M': f'{s // 60 % 60:02d}',
            '%S': f'{s % 60:02d}', '%y': f'{y % 100:02d}',
            '%j': f'{sum(mlen(y, k) for k in range(1, m)) + d:03d}',
            '%%': '%', '%B': MON[m - 1], '%A': DAY[dow(y, m, d)],
            '%f': f'{us % 10**6 // 1000 * 1000:06d}'}.get(part, part)


def fmt_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'date': st.booleans(), 'off': st.sampled_from(OFFS),
        'parts': st.lists(st.sampled_from(PARTS), min_size=1, max_size=6),
        'param': st.sampled_from(['const', 'call', 'call1']),
        'val': value_strategy(st), 'none': st.booleans()})


def run_fmt(case):
    t = T()
    f = ''.join(case['parts'])
    param = {'const': f, 'call': lambda: f, 'call1': lambda x: f}[
        case['param']]
    cls = jc('Fm', {'at': (t.date if case['date'] else t.datetime).fmtd(
        param), 'plain': t.date if case['date'] else t.datetime}, graph())
    if case['none']:
        same(cls(at=None).tojson(), {'at': None, 'plain': None}
             if 'at' in cls().tojson() else {}, 'null')
    x = mk(case['val'], case['date'], case['off'])
    obj = cls(at=x, plain=x)
    v = case['val']
    if case['date']:
        v = v[:3] + [0]
    elif case['off'] is not None:
        u = x.astimezone(timezone.utc)
        v = [u.year, u.month, u.day,
             ((u.hour * 60 + u.minute) * 60 + u.second) * 10**6
             + u.microsecond]
    same(obj.tojson()['at'], ''.join(fref(v, p) for p in case['parts']),
         'formatted', x, f)
    same(obj.at, x, 'value')
    return any(p.startswith('%') for p in case['parts'])


# --- stamps ----------------------------------------------------------------
def stamp_strategy():
    from hypothesis import strategies as st
    return st.fixed_dictionaries({
        'gap': st.integers(-5, 5), 'unit': st.sampled_from(
            ['seconds', 'minutes', 'days', 'milliseconds']),
        'steps': st.lists(st.one_of(
            st.tuples(st.just('save'), st.just(0)),
            st.tuples(st.just('clean'), st.just(0)),
            st.tuples(st.just('touch'), st.integers(0, 3)),
            st.tuples(st.just('move'), st.integers(-6, 8))).map(list),
            max_size=8)})


def run_stamp(case):
    t = T()
    gap = timedelta(**{case['unit']: case['gap']})
    cls = jc('St', {'a_at': t.datetime.tscreated.required,
                    'b_at': t.datetime.tsupdated.required,
                    'mv': t.datetime.umininterval(gap), 'n': t.int}, graph())
    lo = datetime.now(timezone.utc)
    base = datetime(2020, 1, 1, tzinfo=timezone.utc)
    o = cls(mv=base)
    hi = datetime.now(timezone.utc)

    def within(v, lo, hi, what):
        check(type(v) is datetime and v.utcoffset() == timedelta(0), what,
              'is not UTC', v)
        check(lo <= v <= hi, what, v, 'not in', lo, hi)
    within(o.a_at, lo, hi, 'created')
    within(o.b_at, lo, hi, 'updated')
    first = o.a_at
    cur = prev = base
    new, changed, hasprev = True, set(), False
    saves = refused = 0
    for op, n in case['steps']:
        if op == 'touch':
            if o.n != n:
                o.n = n
                changed.add('n')
        elif op == 'move':
            nv = cur + n * timedelta(**{case['unit']: 1})
            o.mv = nv
            if nv != cur:
                if not new and not hasprev:
                    prev, hasprev = cur, True
                cur = nv
                changed.add('mv')
        elif op == 'clean':
            o._mark_unmodified()
            new, changed, hasprev = False, set(), False
        else:
            bad = hasprev and not cur >= prev + gap
            old = o.b_at
            lo = datetime.now(timezone.utc)
            try:
                o.save()
            except vexc() as e:
                check(bad, 'refused', prev, cur, gap, e.keypath_messages)
                same(list(e.keypath_messages), ['mv'], 'path')
                refused += 1
                same(o.b_at, old, 'refused save stamped')
                continue
            check(not bad, 'interval not enforced', prev, cur, gap)
            hi = datetime.now(timezone.utc)
            if new or changed:
                within(o.b_at, lo, hi, 'updated on save')
                changed.add('b_at')
            else:
                same(o.b_at, old, 'stamped without a change')
            saves += 1
        same(o.a_at, first, 'creation time changed')
    return ('refused' if refused else 'saved') if saves + refused else False


FAMILIES = [
    Family('bounds', strategy, run, 'some value is moved by the chain',
           quick=3000, thorough=60000, shards=3, tshards=4),
    Family('fmtd', fmt_strategy, run_fmt, 'the format has a directive',
           quick=1500, thorough=30000, shards=2, tshards=3),
    Family('stamps', stamp_strategy, run_stamp, 'at least one save',
           quick=1000, thorough=20000, shards=2, tshards=3)]
