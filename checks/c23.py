"""C23: the user configuration answers exactly what config.json says."""
import importlib
import json
import os
import shutil
import sys
import tempfile
from vp.core import Family, Violation, check, same

WORDS = ['db', 'host', 'user', 'max', 'size', 'key', 'url', 'op', 'log']
ENVS = ['VPX_A', 'VPX_B', 'VPX_LONG_NAME', 'VPX_2', 'vpx.b-c',
        'VPX_MISSING']


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def key(draw):
        ws = draw(st.lists(st.sampled_from(WORDS), min_size=1, max_size=3))
        how = draw(st.sampled_from(['camel', 'snake', 'pascal']))
        return [ws, how]

    def env(draw, missing):
        n = draw(st.sampled_from(ENVS if missing else ENVS[:-1]))
        return draw(st.sampled_from([
            "environ['%s']", 'environ["%s"]', " environ['%s']",
            "environ['%s'] ", "pre environ['%s']", "environ[%s]",
            "environ['%s']x", "environ['%s']", 'environ["%s"]'])) % n

    @st.composite
    def case(draw):
        missing = draw(st.sampled_from([False, False, False, True]))

        def val(depth):
            k = draw(st.integers(0, 9 if depth else 5))
            if k <= 1:
                return draw(st.one_of(st.none(), st.booleans(),
                                      st.integers(-5, 5), st.floats(-9, 9)))
            if k <= 3:
                return draw(st.sampled_from(['', 'v', 'camelCase', 'a.b',
                                             '0', 'environ', '日本']))
            if k <= 5:
                return env(draw, missing)
            if k <= 7:
                return {'$d': obj(depth - 1)}
            return [val(depth - 1)
                    for _ in range(draw(st.integers(0, 3)))]

        def obj(depth):
            return [[draw(key()), val(depth)]
                    for _ in range(draw(st.integers(0, 4)))]
        return {'conf': obj(3), 'a': draw(st.sampled_from(
            ['', 'va', "environ['VPX_B']", 'camelCase'])),
            'probe': draw(st.lists(st.lists(st.one_of(
                key(), st.integers(0, 3)), min_size=1, max_size=4),
                max_size=4)),
            'style': draw(st.sampled_from(['dot', 'bracket', 'chain'])),
            'file': draw(st.sampled_from([True] * 9 + [False]))}
    return case()


def snake(k):
    return '_'.join(k[0])


def spell(k):
    ws, how = k
    if how == 'snake':
        return '_'.join(ws)
    s = ''.join(w.capitalize() for w in ws)
    return s if how == 'pascal' else s[:1].lower() + s[1:]


class Missing(Exception):
    pass


def run(case):
    env = {'VPX_A': case['a'], 'VPX_B': 'vb', 'VPX_LONG_NAME': '12',
           'VPX_2': 'v2', 'vpx.b-c': 'vc'}
    nenv = [0]

    def model(v):
        if isinstance(v, str):
            for q in '\'"':
                if v.startswith('environ[' + q) and v.endswith(q + ']'):
                    n = v[9:-2]
                    nenv[0] += 1
                    if n not in env:
                        raise Missing(n)
                    return env[n]
            return v
        if isinstance(v, list):
            return [model(x) for x in v]
        if isinstance(v, dict):
            return mobj(v['$d'])
        return v

    def dedupe(pairs):
        return list({snake(k): (k, x) for k, x in pairs}.values())

    def mobj(pairs):
        return {snake(k): model(x) for k, x in dedupe(pairs)}

    def raw(v):
        if isinstance(v, list):
            return [raw(x) for x in v]
        if isinstance(v, dict):
            return robj(v['$d'])
        return v

    def robj(pairs):
        return {spell(k): raw(x) for k, x in dedupe(pairs)}
    try:
        want = mobj(case['conf'])
    except Missing as e:
        want = e
    tmp = tempfile.mkdtemp(prefix='vpconf')
    cwd = os.getcwd()
    importlib.import_module('jsonclasses.uconf')
    m = sys.modules['jsonclasses.uconf']
    try:
        for k in ENVS:
            os.environ.pop(k, None)
        os.environ.update(env)
        if case['file']:
            with open(os.path.join(tmp, 'config.json'), 'w') as f:
                json.dump(robj(case['conf']), f)
        os.chdir(tmp)
        m = importlib.reload(m)
        try:
            conf = m.uconf()
        except KeyError as e:
            check(isinstance(want, Missing) and case['file'],
                  'KeyError', e, 'for', robj(case['conf']))
            check(str(want) in str(e), 'message', e)
            return 'missing variable'
        if not case['file']:
            want = {}
        check(not isinstance(want, Missing), 'missing variable ignored', want)
        check(m.uconf() is conf, 'two configurations')
    finally:
        os.chdir(cwd)
        for k in ENVS:
            os.environ.pop(k, None)
        shutil.rmtree(tmp)

    def look(path):
        cur = conf
        if case['style'] == 'chain':
            for p in path:
                if not isinstance(cur, m.UserConf):
                    return None
                cur = cur[p]
            return cur
        if case['style'] == 'bracket':
            s = str(path[0]) + ''.join(f'[{p}]' for p in path[1:])
        else:
            s = '.'.join(str(p) for p in path)
        a, b = conf.get(s), conf[s]
        check(type(a) is type(b) and (isinstance(a, m.UserConf) or a == b),
              'get and [] differ', s)
        return a

    def shape(v):
        return v._conf if isinstance(v, m.UserConf) else v

    def walk(v, path):
        n = 0
        if path:
            got = look(path)
            if isinstance(v, (dict, list)):
                check(isinstance(got, m.UserConf), path, got)
            else:
                same(got, v, 'value at', path)
            n = 1
        if isinstance(v, dict):
            for k, x in v.items():
                n += walk(x, path + [k])
            check(look(path + ['zz_none']) is None, 'missing key', path)
        elif isinstance(v, list):
            for i, x in enumerate(v):
                n += walk(x, path + [i])
            check(look(path + [len(v)]) is None, 'missing index', path)
        return n
    n = walk(want, [])
    for p in case['probe']:
        p = [x if isinstance(x, int) else snake(x) for x in p]
        v = want
        for x in p:
            if isinstance(v, dict):
                v = v.get(str(x))
            elif isinstance(v, list):
                if not isinstance(x, int):
                    v = Ellipsis
                    break
                v = v[x] if x < len(v) else None
            else:
                v = None
        if v is Ellipsis or isinstance(v, (dict, list)):
            continue
        same(look(p), v, 'probe', p)
    return ('env' if nenv[0] else 'plain') if n >= 2 else False


# --- local uploads ----------------------------------------------------------
FILES = ['a.png', 'A.PNG', 'b.tar.gz', 'noext', '.hidden', 'x.JpG', 'ü.Txt',
         'a b.pdf', '../x.png', '../../y.txt', '../../../z.bin', 'd/e.csv',
         'a.png']


def upload_strategy():
    from hypothesis import strategies as st
    up = st.fixed_dictionaries({
        'who': st.integers(0, 3), 'name': st.sampled_from(FILES),
        'data': st.sampled_from(['', 'one', 'two', 'x' * 3000]),
        'kind': st.sampled_from(['UploadFile', 'FileStorage']),
        'how': st.sampled_from(['init', 'set', 'field', 'list'])})
    return st.fixed_dictionaries({
        'confs': st.lists(st.tuples(
            st.sampled_from(['img', 'docs', 'a/b']),
            st.sampled_from(['http://h', 'https://cdn.x/y', ''])).map(list),
            min_size=1, max_size=3),
        'ups': st.lists(up, min_size=1, max_size=5),
        'bad': st.sampled_from([None, None, 'noconf', 'noname', 'noengine',
                                'engine'])})


def run_upload(case):
    from vp.build import jc, T, graph
    top = tempfile.mkdtemp(prefix='vpup')
    base = os.path.join(top, 'a', 'b', 'c', 'd', 'e')
    os.makedirs(base)
    cwd = os.getcwd()
    names = [f'up_{i}' for i in range(len(case['confs']))]
    conf = {'uploaders': {n: {'client': 'localfs', 'config': {
        'dir': d, 'url': u}} for n, (d, u) in zip(names, case['confs'])}}
    conf['uploaders']['broken'] = {'client': 'nowhere', 'config': {'a': 1}}
    conf['uploaders']['empty'] = {'config': {'a': 1}}
    if case['bad'] == 'noconf':
        conf = {}
    with open(os.path.join(base, 'config.json'), 'w') as f:
        json.dump(conf, f)

    class UploadFile:
        def __init__(self, filename, data):
            import io
            self.filename, self.file = filename, io.BytesIO(data)
            self.content_type = 'x/y'

    class FileStorage:
        def __init__(self, filename, data):
            self.filename, self.data = filename, data
            self.content_type = 'x/y'

        def save(self, dest):
            if not os.path.realpath(dest).startswith(
                    os.path.realpath(top) + os.sep):
                raise Violation(f'written outside: {dest}')
            with open(dest, 'wb') as f:
                f.write(self.data)

    def files():
        out = {}
        for d, _, fs in os.walk(top):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, 'rb') as h:
                    out[os.path.relpath(p, base)] = h.read()
        return out
    try:
        os.chdir(base)
        for m in ('jsonclasses.uconf', 'jsonclasses.uploaders'):
            importlib.import_module(m)
            importlib.reload(sys.modules[m])
        import jsonclasses.modifiers.uploader_modifier as um
        ups = sys.modules['jsonclasses.uploaders']
        importlib.reload(um)
        t = T()
        Mod = um.UploaderModifier

        def fld(n):
            from jsonclasses.types import Types
            return Types(t.str, Mod(n))
        if case['bad']:
            n = {'noconf': 'up_0', 'noname': 'nope', 'noengine': 'empty',
                 'engine': 'broken'}[case['bad']]
            try:
                fld(n)
            except ValueError:
                return 'refused'
            raise Violation(f'uploader {n} accepted')
        cls = jc('Up', {n: fld(n) for n in names} | {
            'lst': t.listof(fld(names[0]))}, graph())
        before = files()
        known = dict(before)
        o = cls()
        for u in case['ups']:
            i = u['who'] % len(names)
            n = names[i]
            data = u['data'].encode()
            v = {'UploadFile': UploadFile, 'FileStorage': FileStorage}[
                u['kind']](u['name'], data)
            if u['how'] == 'init':
                o = cls(**{n: v})
            elif u['how'] == 'list':
                i = 0
                o.set(lst=[v])
            else:
                o.set(**{n: v})
            got = o.lst[0] if u['how'] == 'list' else getattr(o, n)
            d, url = case['confs'][i]
            head = f'{url}/public/{d}/'
            check(type(got) is str and got.startswith(head), 'url', got)
            name = got[len(head):]
            check('/' not in name and name not in ('', '.', '..'), 'name',
                  name)
            suf = os.path.splitext(os.path.basename(u['name']))[1].lower()
            check(name.endswith(suf), 'suffix', name, suf)
            rel = os.path.join('public', d, name)
            check(rel not in known, 'name used twice', name)
            known[rel] = data
            now = files()
            check(now == known, 'files', sorted(now), 'want', sorted(known))
            o.validate()
        o.set(**{names[0]: None})
        check(getattr(o, names[0]) is None, 'null uploaded')
        check(files() == known, 'null wrote a file')
        return 'uploads' + (',several' if len(case['ups']) > 1 else '')
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)


FAMILIES = [
    Family('conf', strategy, run, 'at least two configured values',
           quick=2500, thorough=50000, shards=3, tshards=6),
    Family('uploads', upload_strategy, run_upload, 'always', quick=800,
           thorough=15000, shards=2, tshards=3)]
