"""C35: the class definition tells integrations exactly what was declared."""
from vp.core import Family, check, expect_raises, same
from vp.build import jc, T, graph, camel

SC = {'str': 'str', 'int': 'int', 'float': 'float', 'bool': 'bool',
      'date': 'date', 'datetime': 'datetime', 'any': 'any', 'list': 'list',
      'dict': 'dict', 'union': 'union', 'obj': 'instance', 'objs': 'list',
      'enum': 'enum'}
REF = ['one', 'many', 'hasone', 'hasmany', 'thru', 'joined']
MARKS = ['primary', 'index', 'unique', 'cindex:a', 'cindex:b', 'cunique:a',
         'cunique:c', 'queryable', 'unqueryable', 'readonly', 'writeonly',
         'readwrite', 'writeonce', 'writenonnull', 'internal', 'required',
         'present', 'nocopy', 'authidentity', 'authby', 'temp', 'embedded',
         'strict', 'deny', 'cascade', 'nullify', 'compare', 'setonsave',
         'fsetonsave', 'minlength', 'transform']
RMARKS = ['deny', 'cascade', 'nullify', 'required', 'readonly', 'writeonce',
          'internal', 'index', 'unqueryable', 'referrer:x_id',
          'referee:y_id', 'cunique:a']
NAMES = ['aa', 'first_name', 'b2', 'owner', 'top_items', 'parent_x', 'cats',
         'zz']
PLURAL = {'aa': 'aa', 'first_name': 'first_name', 'b2': 'b2',
          'owner': 'owner', 'top_items': 'top_item', 'parent_x': 'parent_x',
          'cats': 'cat', 'zz': 'zz'}


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def field(draw, name):
        if draw(st.integers(0, 2)):
            k = draw(st.sampled_from(list(SC)))
            ms = draw(st.lists(st.sampled_from(MARKS), max_size=4))
        else:
            k = draw(st.sampled_from(REF))
            ms = draw(st.lists(st.sampled_from(RMARKS), max_size=3))
        # where the link itself stands among the marks
        return [name, k, ms, draw(st.integers(0, 3))]

    @st.composite
    def case(draw):
        names = draw(st.permutations(NAMES))[:draw(st.integers(1, 7))]
        own = [draw(field(n)) for n in names]
        again = [draw(field(n)) for n in names
                 if draw(st.integers(0, 4)) == 0]
        fresh = [n for n in NAMES if n not in names]
        again += [draw(field(n)) for n in fresh if draw(st.integers(0, 3))
                  == 0]
        return {'own': own, 'sub': again, 'inh': draw(st.booleans()),
                'snake': draw(st.integers(0, 3)) == 0,
                'reuse': draw(st.booleans()), 'late': draw(st.booleans())}
    return case()


def build(f, g, back, made):
    """Declare the field; record its facts as they are documented."""
    t = T()
    name, k, marks, at = f
    fact = dict(ftype=SC.get(k), fstore='embedded', primary=False,
                index=False, unique=False, cindex=False, cindex_names=[],
                cunique=False, cunique_names=[], required=False,
                read_rule='unlimited', write_rule='unlimited',
                delete_rule=None, queryability=None, copy_behavior=None,
                auth_identity=False, auth_by=False, foreign_key=None,
                use_join_table=None, join_table_cls=None,
                join_table_referrer_key=None, join_table_referee_key=None,
                force_set_on_save=False, calc=False)
    if k == 'enum':
        from enum import Enum
        x = t.enum(Enum('Hue35', ['RED']))
    elif k in ('list', 'dict'):
        x = t.listof(str) if k == 'list' else t.dictof(int)
    elif k == 'union':
        x = t.union([t.int, t.str])
    elif k in ('one', 'hasone', 'obj'):
        x = t.objof('Far')
        fact['ftype'] = 'instance'
    elif k in ('many', 'hasmany', 'thru', 'objs', 'joined'):
        x = t.listof('Far')
        fact['ftype'] = 'list'
    else:
        x = getattr(t, k)
    steps = list(marks)
    if k in REF:
        steps.insert(at, 'LINK')
    for m in steps:
        m, _, arg = m.partition(':')
        made.append(x)
        if m == 'LINK':
            if k in ('one', 'many'):
                x = x.linkto
                fact['fstore'] = 'local_key'
            elif k == 'joined':
                x = x.linkedin('Join')
                fact.update(fstore='foreign_key', use_join_table=True,
                            join_table_cls='Join')
            else:
                other = 'r_' + name
                if k == 'thru':
                    x = x.linkedthru(other)
                    back[other] = t.listof('Main').linkedthru(name)
                else:
                    x = x.linkedby(other)
                    back[other] = t.objof('Main').linkto
                fact.update(fstore='foreign_key', foreign_key=other,
                            use_join_table=k == 'thru')
            if fact['delete_rule'] is None:
                fact['delete_rule'] = 'nullify'
            continue
        if arg:
            x = getattr(x, m)(arg)
        elif m == 'authby':
            x = x.authby(t.passin)
        elif m == 'compare':
            x = x.compare(lambda a, b: True)
        elif m in ('setonsave', 'fsetonsave'):
            x = getattr(x, m)(lambda v: v)
        elif m == 'minlength':
            x = x.minlength(0)
        elif m == 'transform':
            x = x.transform(lambda v: v)
        elif m == 'strict' and k not in ('obj',):
            continue
        else:
            x = getattr(x, m)
        if m in ('primary', 'index', 'unique', 'required'):
            fact[m] = True
        elif m == 'present':
            fact['required'] = True
        elif m in ('cindex', 'cunique'):
            fact[m] = True
            fact[m + '_names'] = fact[m + '_names'] + [arg]
        elif m in ('queryable', 'unqueryable'):
            fact['queryability'] = m
        elif m in ('deny', 'cascade', 'nullify'):
            fact['delete_rule'] = m
        elif m == 'nocopy':
            fact['copy_behavior'] = 'nocopy'
        elif m == 'authidentity':
            fact['auth_identity'] = True
        elif m == 'authby':
            fact['auth_by'] = True
        elif m == 'readonly':
            fact['write_rule'] = 'no_write'
        elif m == 'writeonly':
            fact['read_rule'] = 'no_read'
        elif m == 'internal':
            fact['write_rule'] = 'no_write'
            fact['read_rule'] = 'no_read'
        elif m == 'readwrite':
            fact['write_rule'] = fact['read_rule'] = 'unlimited'
        elif m == 'writeonce':
            fact['write_rule'] = 'write_once'
        elif m == 'writenonnull':
            fact['write_rule'] = 'write_nonnull'
        elif m == 'referrer':
            fact['join_table_referrer_key'] = arg
        elif m == 'referee':
            fact['join_table_referee_key'] = arg
        elif m == 'temp':
            fact['fstore'] = 'temp'
        elif m == 'embedded':
            fact['fstore'] = 'embedded'
        elif m == 'fsetonsave':
            fact['force_set_on_save'] = True
    return x, fact


def plain(v):
    return getattr(v, 'value', v)


def names_of(fs):
    return [f.name for f in fs]


def judge(C, order, facts, snake, Far, main):
    cd = C.cdef
    js = (lambda s: s) if snake else camel
    check(cd.cls is C and cd.name == C.__name__, 'class and name')
    same(names_of(cd.fields), order, 'fields in order')
    for f in cd.fields:
        check(f.cdef is cd and f.fdef.cdef is cd, 'owner of', f.name)
        check(cd.field_named(f.name) is f, 'lookup of', f.name)
        same(f.json_name, js(f.name), 'JSON name')
        fact = facts[f.name]
        for k, want in fact.items():
            if k == 'calc':
                continue
            got = plain(getattr(f.fdef, k))
            if k == 'queryability' and want is None:
                # queryable by default
                check(got in (None, 'queryable'), 'queryability', got)
                continue
            if k == 'copy_behavior' and want is None:
                check(got in (None, 'copy'), 'copy behavior', got)
                continue
            same(got, want, f.name, k)
        isl, isi = fact['ftype'] == 'list', fact['ftype'] == 'instance'
        loc = fact['fstore'] == 'local_key'
        far = fact['fstore'] == 'foreign_key'
        same([f.is_primary, f.is_inst_field, f.is_list_field,
              f.is_foreign_key_store, f.is_local_key_store,
              f.is_foreign_one_ref, f.is_foreign_many_ref,
              f.is_local_one_ref, f.is_local_many_ref, f.is_join_table_ref],
             [fact['primary'], isi, isl, far, loc, far and isi, far and isl,
              loc and isi, loc and isl, fact['use_join_table'] is True],
             'predicates of', f.name)
        same(bool(f.fdef.is_ref), loc or far, 'is_ref')
        if loc or far:
            check(f.foreign_class is Far and f.foreign_cdef is Far.cdef,
                  'foreign class of', f.name)
            same(f.ref_name, ref(f.name, fact), 'reference name')
            if fact['foreign_key'] and main:
                ff = f.foreign_field
                same(ff.name, fact['foreign_key'], 'foreign field')
                same(f.foreign_fname, ff.name, 'foreign field name')
                check(ff.foreign_field is f, 'and back')
            elif not fact['foreign_key'] and main:
                check(f.foreign_field is None, 'no foreign field')

    def pick(fn):
        return [n for n in order if fn(facts[n])]
    prim = pick(lambda x: x['primary'])
    same(cd.primary_field.name if cd.primary_field else None,
         prim[-1] if prim else None, 'primary field')
    same(names_of(cd.unique_fields), pick(lambda x: x['unique']), 'unique')
    same(names_of(cd.auth_identity_fields),
         pick(lambda x: x['auth_identity']), 'identities')
    same(names_of(cd.auth_by_fields), pick(lambda x: x['auth_by']),
         'auth by')
    for r in ('deny', 'nullify', 'cascade'):
        same(names_of(getattr(cd, r + '_fields')),
             pick(lambda x: x['delete_rule'] == r), r)
    same(names_of(cd.calc_fields), [], 'calculated')
    one = pick(lambda x: x['fstore'] == 'local_key'
               and x['ftype'] == 'instance')
    many = pick(lambda x: x['fstore'] == 'local_key' and x['ftype'] == 'list')
    virt = pick(lambda x: x['fstore'] == 'foreign_key'
                and x['use_join_table'])
    for ns, plainn, cam in ((one, cd.reference_names,
                             cd.camelized_reference_names),
                            (many, cd.list_reference_names,
                             cd.camelized_list_reference_names),
                            (virt, cd.virtual_reference_names,
                             cd.camelized_virtual_reference_names)):
        rs = {ref(n, facts[n]) for n in ns}
        same(set(plainn), rs, 'reference names')
        same(set(cam), {js(r) for r in rs}, 'their JSON names')
        for n in ns:
            same(cd.rname_to_jfield(ref(n, facts[n])).name, n, 'by reference')
    same({k: f.name for k, f in cd.virtual_reference_fields.items()},
         {ref(n, facts[n]): n for n in virt}, 'virtual references')
    rs = {ref(n, facts[n]) for n in one + many}
    same(set(cd.update_names), set(order) | rs, 'names to update')
    same(set(cd.available_names), set(order) | rs | {
        js(n) for n in list(order) + list(rs)}, 'names accepted')
    for bad in ('nope', '', 'firstName', '__class__'):
        if bad not in facts:
            expect_raises(ValueError, lambda: cd.field_named(bad), bad)


def ref(name, fact):
    return PLURAL[name] + '_ids' if fact['ftype'] == 'list' else name + '_id'


def run(case):
    t = T()
    g = graph()
    conf = {}
    if case['snake']:
        conf['output_key_strategy'] = lambda x: x
    back, made = {}, []
    own = {f[0]: build(f, g, back, made) for f in case['own']}
    # foreign fields name the class that declares the other side
    facts = {n: x[1] for n, x in own.items()}
    farbase = {'id': t.str.primary}
    Far = None
    if not case['late']:
        Far = jc('Far', {**farbase, **back}, g, **conf)
    Main = jc('Main', {n: x[0] for n, x in own.items()}, g, **conf)
    if case['reuse']:
        # extending or reusing what was declared changes nothing declared
        for x in made + [x[0] for x in own.values()]:
            x.cindex('q').cunique('w').index.unique.deny.internal.primary
        jc('Again', {n: x[0].unique.cindex('zz') for n, x in own.items()
                     if x[1]['foreign_key'] is None}, g, **conf)
    if Far is None:
        Far = jc('Far', {**farbase, **back}, g, **conf)
    judge(Main, list(own), facts, case['snake'], Far, True)
    if case['inh']:
        back2 = {}
        sub = {f[0]: build(f, g, back2, []) for f in case['sub']
               if f[1] not in ('hasone', 'hasmany', 'thru')}
        Sub = jc('Sub', {n: x[0] for n, x in sub.items()}, g, bases=(Main,),
                 **conf)
        f2 = {**facts, **{n: x[1] for n, x in sub.items()}}
        judge(Sub, list(own) + [n for n in sub if n not in own], f2,
              case['snake'], Far, False)
        judge(Main, list(own), facts, case['snake'], Far, True)
    return any(f[2] or f[1] in REF for f in case['own'])


FAMILIES = [
    Family('declared', strategy, run, 'some field is marked or linked',
           quick=2000, thorough=50000, shards=4, tshards=8)]
