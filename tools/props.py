NOTE = ('Seeded random exploration with shrinking; it never proves absence. '
        'Trusts the reference model in the check and CPython. ')
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe, tech,
      note=''):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      quant=quant, why=why,
                      files=['jsonclasses/' + f for f in files],
                      mech=[(n, 'jsonclasses/' + w) for n, w in mech],
                      observe=observe, tech=tech, note=NOTE + note))


P('C01', 'Write rules hold for every untrusted write at any depth',
  'Building an object from input and batch setting it never change a field '
  'marked readonly or internal, never change a writeonce field that already '
  'has a value, and never put null into a writenonnull field; a refused '
  'write is silently skipped (a new object then gets its default) while '
  'every other key of the same input takes effect.  This holds for nested '
  'objects, objects in lists and dicts, key path writes, reference key '
  'writes, both key spellings, and when several marks combine the last one '
  'wins.  Attribute assignment and update are trusted and ignore the marks.',
  ['inputs', 'histories'],
  'every class shape, combination of marks, input and sequence of init, set, '
  'key path set, update and assignment',
  'tests sample one mark on one flat field per test; the interplay of mark, '
  'nesting, spelling, default and earlier writes is a product space',
  ['modifiers/instanceof_modifier.py', 'jsonclassify.py', 'fdef.py'],
  [('write rule test while filling fields',
    'modifiers/instanceof_modifier.py InstanceOfModifier.transform'),
   ('key path write test', 'jsonclassify.py _keypath_set')],
  ['field values after every step'],
  'stateful generation against a reference model of the write rules')

P('C02', 'Hidden values never reach the output',
  'The output of an object contains no value of a field marked writeonly or '
  'internal (unless the caller explicitly asks to ignore the marks) and '
  'never a value of a temporary field, at any depth: nested objects, '
  'objects in lists and dicts, referenced objects and the keys of hidden '
  'references.  Every other field is output under its JSON name, with null '
  'present exactly when null output is enabled.',
  ['inputs', 'configurations'],
  'every class shape, combination of marks, value and output option',
  'tests look at one hidden flat field; leaks appear through nesting, '
  'collections, reference keys and option combinations',
  ['modifiers/instanceof_modifier.py', 'modifiers/collection_type_modifier.py',
   'jsonclassify.py'],
  [('read rule test', 'modifiers/instanceof_modifier.py '
    'InstanceOfModifier.tojson')],
  ['tojson result', 'every hidden marker string searched in the output'],
  'generated object trees with unique marker values against a reference '
  'output')

P('C03', 'Unknown input keys are rejected when strict and inert otherwise',
  'With strict input in force for an object (by its class or by the field '
  'that holds it), an input key that names no field raises a validation '
  'error that reports the path of an offending key, and an unknown plain top '
  'level key leaves the object unchanged.  Without strict input unknown '
  'keys have no effect at all: the result equals that of the same input '
  'without them, whatever their names.',
  ['inputs', 'configurations'],
  'every nesting of strict and lenient classes and fields, and every '
  'position and name of unknown keys',
  'tests use one unknown key at the top or one level down',
  ['modifiers/instanceof_modifier.py', 'modifiers/strict_modifier.py',
   'cdef.py'],
  [('strictness check', 'modifiers/instanceof_modifier.py '
    'InstanceOfModifier._strictness_check')],
  ['exception and its key paths', 'resulting object'],
  'generated nested inputs with planted unknown keys; reference walk and '
  'metamorphic comparison with the stripped input')

P('C04', 'JSON output is plain JSON and round trips',
  'The output of a valid object consists of plain JSON values in the '
  'documented form (ISO UTC timestamps with milliseconds, enum members by '
  'the chosen output form, dict keys untouched) and the JSON encoder yields '
  'the same text anywhere in a document.  Feeding the output back builds an '
  'equal object whose output is identical.',
  ['inputs'],
  'every schema of scalars, enums, unions, nested lists, dicts, objects and '
  'references, and every valid value',
  'tests check single types with hand picked values; the round trip over '
  'nested types, offsets, extreme values and key strategies is not sampled',
  ['modifiers/instanceof_modifier.py', 'modifiers/date_modifier.py',
   'modifiers/datetime_modifier.py', 'modifiers/enum_modifier.py',
   'modifiers/collection_type_modifier.py', 'encoder.py'],
  [('output', 'jsonclassify.py tojson'), ('encoder', 'encoder.py')],
  ['tojson result', 'json.dumps', 'rebuilt object'],
  'random schemas and values; reference encoder plus round trip')

P('C05', 'Keys are named consistently on input, output, defaults and errors',
  'Field names and reference keys appear in output and in error paths under '
  'the output key strategy of the class (camelCase unless configured '
  'otherwise), input accepts both the JSON name and the attribute name with '
  'the same effect for every value, entries of dicts are data whose keys '
  'are never renamed, and reference keys follow the reference naming '
  'strategy.',
  ['inputs', 'configurations'],
  'every class tree, key strategy per class, spelling and value',
  'tests use one class with the default strategy; falsy values, digits, '
  'nesting and mixed strategies are not covered',
  ['modifiers/instanceof_modifier.py', 'jfield.py', 'cdef.py', 'jconf.py',
   'ctx.py'],
  [('json names', 'jfield.py JField.json_name'),
   ('input lookup', 'modifiers/instanceof_modifier.py _get_field_value')],
  ['attributes after input', 'output keys', 'error key paths'],
  'generated class trees with per class strategies; reference key mapping')

P('C06', 'Validators accept exactly the values they document',
  'For every built-in validator (type checks, bounds, ranges, lengths, '
  'equality, choices, patterns, prefix and suffix, character classes, '
  'parity, sign, date order, password strength, colour, email and URL form, '
  'and user supplied validators) an object is valid exactly when every '
  'validator of the chain accepts the value; null is accepted unless the '
  'field is required; parameters given as constants, callables or type '
  'chains behave alike; and the same holds in lists, dicts and nested '
  'objects, whether or not all errors are collected.  Validating never '
  'changes the object and returns it; a rejection is always a validation '
  'error that names the path of the offending field.',
  ['inputs', 'configurations'],
  'every validator chain, parameter form, value and position',
  'tests try one or two values per validator at top level; boundary values, '
  'falsy values, wrong types and positions are a product space',
  ['modifiers/', 'types.py'],
  [('chain validation', 'modifiers/chained_modifier.py validate'),
   ('parameters', 'modifiers/modifier.py resolve_param')],
  ['validate outcome and key paths', 'is_valid'],
  'boundary biased generation against a table of reference predicates')

P('C07', 'Validation reports every violation and only violations, by path',
  'Asked to collect everything, validation reports exactly one message for '
  'each offending path of the object tree (fields, list positions, dict '
  'keys, objects nested and linked at any depth) and nothing for valid '
  'ones; asked to stop early, it reports one of them.  Objects shared or '
  'linked in cycles are reported once.  Malformed input raises the same '
  'kind of error with the path of the offending value.',
  ['inputs', 'configurations'],
  'every class tree, object tree with shared parts, set of violations and '
  'reporting mode',
  'tests check one message at one path; completeness over a tree with '
  'several violations is not sampled',
  ['modifiers/instanceof_modifier.py', 'modifiers/collection_type_modifier.py',
   'modifiers/chained_modifier.py', 'vmsgcollector.py', 'ctx.py'],
  [('collecting', 'modifiers/instanceof_modifier.py '
    'InstanceOfModifier.validate'),
   ('item paths', 'modifiers/collection_type_modifier.py')],
  ['keypath_messages of the raised error'],
  'generated object trees with planted violations against the planted set')

P('C08', 'Transforms have their documented meaning and apply left to right',
  'A value given to a field becomes the composition, left to right, of the '
  'documented functions of the transforms in its chain; null passes '
  'through untouched and text that is no number passes through number '
  'conversions untouched; validators placed before an eager transform see the '
  'value at that point and those after the last one see the final value. '
  'Formatters and random value generators produce values of the documented '
  'form.  The result is the same for input, batch set and any nesting.',
  ['inputs', 'configurations'],
  'every chain of transforms with validators between them and every value',
  'tests run one transform on one value; order, staging, boundary values '
  'and nesting are a product space',
  ['modifiers/', 'types.py'],
  [('chain transform', 'modifiers/chained_modifier.py transform'),
   ('staging', 'modifiers/eager_modifier.py')],
  ['attribute values after input', 'validation outcome'],
  'random chains against a table of reference functions')

P('C09', 'Save time setters and change hooks run exactly when they should',
  'Saving runs each set-on-save function once in chain order and stores '
  'its result, runs on-save hooks on every save, on-write and on-update '
  'and compare hooks exactly when the field was written or changed since '
  'the last clean state (with the old and new value), for the root and for '
  'every embedded and linked object reachable in it.  A vetoed save '
  'changes nothing in storage.',
  ['histories', 'inputs'],
  'every class with several hooked fields and every sequence of writes, '
  'saves and clean points',
  'tests save once after one change; hooks depend on the history of '
  'modifications, newness and nesting',
  ['modifiers/setonsave_modifier.py', 'modifiers/onsave_modifier.py',
   'modifiers/onupdate_modifier.py', 'modifiers/onwrite_modifier.py',
   'modifiers/instanceof_modifier.py', 'jsonclassify.py'],
  [('serialize pass', 'modifiers/instanceof_modifier.py '
    'InstanceOfModifier.serialize'), ('save', 'jsonclassify.py save')],
  ['log of hook calls with their arguments', 'values after save'],
  'stateful generation against a reference model of hook firing')

P('C10', 'Modification tracking never misses and never invents a change',
  'After any history an existing object lists a field as modified whenever '
  'its value, at any depth of its lists and dicts, differs from the last '
  'clean state, lists only fields that were written since then, names the '
  'path of a changed nested collection, reports persisted modified fields '
  'without temporary ones, and is modified exactly when the list is not '
  'empty.  A new object reports no modification.',
  ['histories'],
  'every sequence of attribute, list and dict operations, sets and clean '
  'points',
  'tests perform one operation per test on one collection',
  ['jsonclassify.py', 'olist.py', 'odict.py', 'outils.py'],
  [('change notices', 'jsonclassify.py __setattr__ / __olist_add__ / '
    '__odict_add__')],
  ['modified_fields', 'persisted_modified_fields', 'is_modified'],
  'stateful generation mirrored on built-in containers')

P('C11', 'Previous values are the last clean state, and reset restores it',
  'In a class that keeps previous values, after any history the recorded '
  'previous value of every changed field equals, at any depth, its value '
  'at the last clean point, fields never touched have none, and reset '
  'brings the object back to exactly that state with nothing modified. '
  'Recorded values are not altered by later changes; reset is refused for '
  'new objects and for classes that do not enable it.  The previous '
  'primary key of a stored object is the key it was last saved under.',
  ['histories'],
  'every sequence of attribute, list and dict operations, resets and clean '
  'points',
  'tests reset after one change; aliasing of nested collections and '
  'repeated changes are not sampled',
  ['jsonclassify.py', 'outils.py', 'olist.py', 'odict.py'],
  [('recording', 'jsonclassify.py __setattr__ / __olist_will_change__ / '
    '__odict_will_change__'), ('reset', 'jsonclassify.py reset')],
  ['previous_values', 'field values after reset'],
  'stateful generation with snapshots of the clean state')

P('C12', 'Owned lists and dicts behave like the built-ins',
  'Every operation on a list or dict held by an object has the result, the '
  'exceptions and the effect it has on a built-in list or dict; nested '
  'collections put in by any operation are monitored as well, and the '
  'owner is told of each item added with its position or key and each item '
  'removed, so that replaying the notices rebuilds the collection.',
  ['histories'],
  'every sequence of list and dict operations with arbitrary positions, '
  'slices, iterables and nested values',
  'tests call each method once with one argument form',
  ['olist.py', 'odict.py', 'outils.py', 'jsonclassify.py'],
  [('list', 'olist.py OwnedList'), ('dict', 'odict.py OwnedDict')],
  ['contents, results and exceptions', 'owner notices'],
  'model-based generation against built-in list and dict')

P('C13', 'Both sides of every relationship agree after any history',
  'Whatever sequence of assignments, list operations and nested inputs is '
  'applied, an object holds another in a linked field exactly when the '
  'other holds it in the matching field: adding on one side adds on the '
  'other, moving an object detaches it from its former holder, removing it '
  'removes both ends, and lists keep the order the operations imply without '
  'duplicates of the reverse end.  Objects detached this way are remembered '
  'as unlinked until saved, those linked again are not.',
  ['histories', 'inputs'],
  'every one to one, one to many, many to many and self relationship, and '
  'every sequence of operations on either side',
  'tests link one pair; moves, steals, swaps, equal but distinct objects and '
  'self relationships interact over histories',
  ['jsonclassify.py', 'olist.py', 'cdef.py', 'jfield.py'],
  [('linking', 'jsonclassify.py __link_field__ / __unlink_field__')],
  ['linked fields of all objects', 'unlinked_objects'],
  'stateful generation against a reference model of the relation')

P('C14', 'Reference keys always name the linked objects',
  'After any history the key of a reference field equals the primary key of '
  'the linked object, and the keys of a referenced list are those of its '
  'items in order, joined by the keys of items not loaded; assigning keys '
  'names objects without loading them, removing an object removes its key '
  'and never another one.  A change of a reference marks the side that '
  'stores the key as modified.',
  ['histories'],
  'every sequence of link, unlink, list and key operations on either side of '
  'every kind of relationship',
  'tests look at the key after one assignment',
  ['jsonclassify.py', 'olist.py', 'jfield.py'],
  [('key maintenance', 'jsonclassify.py __link_field__ / '
    '__unlink_field__ / __setattr__')],
  ['reference key attributes', 'modified_fields'],
  'stateful generation against a reference model of keys')

P('C15', 'One object per class and primary key in a connected graph',
  'Input that names the same class and primary key several times, in '
  'either spelling of the key, yields one object holding the values of all '
  'occurrences, linked everywhere it is named.  Linking two graphs that '
  'contain different objects with the same class and primary key raises a '
  'conflict exception, and linking graphs without such a pair never does.',
  ['inputs', 'histories'],
  'every nested input with repeated keys and every sequence of links',
  'tests use a single repeated object',
  ['ograph.py', 'modifiers/instanceof_modifier.py', 'jsonclassify.py',
   'objref.py'],
  [('object graph', 'ograph.py ObjectGraph'),
   ('recognition in input', 'modifiers/instanceof_modifier.py '
    'InstanceOfModifier.transform')],
  ['object identity over the result', 'conflict exception'],
  'generated inputs and link sequences against a reference graph')

P('C16', 'Permission guards hold for every operator and action',
  'Creating, updating, deleting or outputting a guarded object goes ahead '
  'exactly when its guard (callable, types chain or a list of '
  'alternatives) accepts the operator, and is otherwise refused with an '
  'unauthorized error before anything is written or shown; without an '
  'operator a guarded action is refused.  Field guards for create, update, '
  'write and read decide each field in the same way, for changed fields '
  'only on update, also in nested objects.',
  ['inputs', 'histories', 'configurations'],
  'every guard, operator, object state and action',
  'tests use one guard with one operator per test',
  ['jsonclassify.py', 'modifiers/canc_modifier.py',
   'modifiers/canu_modifier.py', 'modifiers/canr_modifier.py',
   'modifiers/isthis_modifier.py', 'modifiers/isobj_modifier.py',
   'modifiers/instanceof_modifier.py'],
  [('class guards', 'jsonclassify.py save / delete / tojson'),
   ('field guards', 'modifiers/can*_modifier.py')],
  ['exceptions', 'what was written', 'output'],
  'generated guards and operators against a reference verdict')

P('C17', 'Save and delete run their stages in order and stop at a failure',
  'A save runs guard, create or update callbacks, validation, save time '
  'hooks, the write and then the saves of unlinked objects, each once and '
  'in this order; a delete runs guard, delete callbacks and the deletion.  '
  'A failure at any stage reaches the caller and no later stage runs, so an '
  'invalid or refused object is never written.',
  ['histories', 'fault_sequences'],
  'every object state, class shape and position of an injected failure',
  'tests inject no failures and look at one stage at a time',
  ['jsonclassify.py', 'orm.py'],
  [('stages', 'jsonclassify.py save / delete')],
  ['log of stages', 'exceptions', 'set of objects written'],
  'stateful generation with injected failures against a reference log')

P('C18', 'Annotations mean the same as the types chains they stand for',
  'A field declared by a Python annotation, as text or as an object, with '
  'optional, union, list, dict, enum and class names nested at will, '
  'behaves exactly like the field declared with the corresponding types '
  'chain: it accepts and rejects the same inputs, with the same values, '
  'output and error paths.  Annotated links (linkto, linkedby, linkedthru, '
  'linkedin) stand for the chains that declare the same relationship.  A '
  'value assigned in the class body is the default.',
  ['inputs', 'configurations'],
  'every nesting of annotations and every input',
  'tests list a few annotations with one value each',
  ['rtypes.py', 'jsonclass.py', 'cdef.py'],
  [('annotation reading', 'rtypes.py rtypes / to_types')],
  ['acceptance, values, output and error paths of both classes'],
  'differential generation: annotation form against types form')

P('C19', 'Objects share no mutable state with inputs, outputs or defaults',
  'The lists and dicts held by an object, at any depth of its fields, are '
  'its own: changing a value that was passed in to build, set, update or '
  'assign, a value that was returned as output, the declared default value '
  'or another object never changes the object.  Reading input never '
  'changes the input, and changing an object never changes a default.',
  ['inputs', 'histories'],
  'every field type, nesting of lists and dicts, default and sequence of '
  'writes',
  'tests never mutate inputs or outputs afterwards; aliasing shows only '
  'through a later change of the other side',
  ['olist.py', 'odict.py',
   'modifiers/default_modifier.py', 'modifiers/any_modifier.py',
   'modifiers/collection_type_modifier.py', 'jsonclassify.py'],
  [('copying on assignment', 'jsonclassify.py __setattr__'),
   ('default copies', 'modifiers/default_modifier.py')],
  ['identity of every reachable list and dict', 'values after wrecking the '
   'other side'],
  'generated histories with an aliasing oracle: no shared containers and no '
  'effect of wrecking the other side')

P('C21', 'Date and time rules land on the right moment for every calendar value',
  'The begin-of and next boundary transforms, the formatted date output and '
  'the creation and update stamps agree with the calendar for every date '
  'and datetime, keeping type and time zone.  The creation stamp never '
  'changes afterwards, the update stamp changes exactly when a modified '
  'object is saved, and a minimum update interval refuses exactly the '
  'changes that come too early.',
  ['inputs', 'histories'],
  'every date, datetime, time zone, chain of boundary steps and history of '
  'saves',
  'tests check one fixed date per transform; month ends, leap years, year '
  'ends and offsets are where they differ',
  ['modifiers/toboday_modifier.py', 'modifiers/tonextmon_modifier.py',
   'modifiers/tonextyear_modifier.py', 'modifiers/tonextday_modifier.py',
   'modifiers/fmtd_modifier.py', 'types.py'],
  [('boundaries', 'modifiers/tobo*_modifier.py, tonext*_modifier.py'),
   ('stamps', 'types.py tscreated / tsupdated / umininterval')],
  ['values', 'output', 'exceptions'],
  'generated calendar values against an independent calendar, and generated '
  'save histories')

P('C22', 'Enum fields take and give exactly the chosen forms',
  'An enum field accepts exactly the input forms chosen for it (name, lower '
  'case name, value, or all; the name by default) and '
  'enum members themselves, tries values before names, and rejects '
  'everything else with a validation error at the field.  It '
  'outputs exactly the chosen form, so that output fed back in a matching '
  'form gives the same member, also inside lists, dicts and nested '
  'objects.',
  ['inputs', 'configurations'],
  'every enum, chosen forms, input and position',
  'tests use one enum whose names and values never collide',
  ['modifiers/enum_modifier.py', 'fdef.py'],
  [('reading and output', 'modifiers/enum_modifier.py EnumModifier')],
  ['values', 'output', 'exceptions'],
  'generated enums and forms against a reference reading')

P('C23', 'User configuration and uploads do exactly what config.json says',
  'The user configuration answers every key of config.json, in snake or '
  'camel spelling, by item, attribute or path, with the value written '
  'there (environment variables substituted, a missing one reported) and '
  'answers null for anything else.  The local uploader stores each upload '
  'exactly once with its bytes under a fresh name inside the configured '
  'directory and sets the field to the configured URL of that name.',
  ['inputs', 'configurations'],
  'every configuration document, environment and upload',
  'tests use one fixed document',
  ['uconf.py', 'uploaders.py', 'modifiers/uploader_modifier.py'],
  [('configuration', 'uconf.py UserConf'),
   ('uploads', 'uploaders.py')],
  ['values looked up', 'files written in a scratch directory'],
  'generated documents against a reference lookup, generated uploads '
  'against a model of the directory')

P('C24', 'Class graphs and inheritance keep classes apart and complete',
  'A class name is resolved only in the class graph it was used in, defining '
  'a name twice in a graph is refused and leaves the first definition '
  'usable, and names may be used before they are defined.  A subclass '
  'behaves exactly like a class that declares all inherited fields itself, '
  'overridden ones replaced, and defining subclasses or other classes never '
  'changes the behaviour of an existing class; relationships declared by a '
  'base work alike for instances of every descendant; an abstract class '
  'cannot be instantiated while its subclasses can.',
  ['inputs', 'configurations', 'histories'],
  'every set of class definitions, graph, order of definition, inheritance '
  'tree and history',
  'tests define one or two classes each; interference needs several '
  'definitions in a particular order',
  ['cgraph.py', 'cdef.py', 'jsonclass.py', 'jsonclassify.py', 'jsonenum.py'],
  [('registry', 'cgraph.py CGraph'), ('definition', 'cdef.py Cdef')],
  ['lookups', 'behaviour of probes before and after more definitions'],
  'stateful generation of definitions, and differential generation of a '
  'subclass against its flattened class')

P('C25', 'Presence rules refuse exactly the objects with a missing value',
  'Validation refuses an object exactly when a required or present field is '
  'null, a field is null while the field it must be present with is not, '
  'or a field is null together with all fields it may be absent '
  'with; false, zero and empty values count as present.  A required '
  'reference is satisfied by its key alone, a required foreign '
  'relationship is not demanded, and list and dict items must '
  'be non-null unless nullable; every missing value is reported at its '
  'path at any depth.',
  ['inputs', 'configurations'],
  'every class shape, combination of rules, values and position',
  'tests check one rule with one value; falsy values, references and '
  'combinations are not sampled',
  ['modifiers/required_modifier.py', 'modifiers/present_modifier.py',
   'modifiers/presentwith_modifier.py',
   'modifiers/presentwithout_modifier.py', 'modifiers/nonnull_modifier.py',
   'modifiers/collection_type_modifier.py',
   'modifiers/chained_modifier.py'],
  [('rules', 'modifiers/required_modifier.py and its siblings')],
  ['error paths', 'is_valid'],
  'generated objects against a reference verdict')

P('C26', 'A union field behaves as the first of its types that accepts',
  'A union field gives to every input the value, output and save time '
  'hooks that the first of its types accepting the input would give '
  'alone, in declaration order, at any depth in lists, dicts and objects.  '
  'An input that no type accepts is refused with an error at the field, '
  'and null follows the presence rules of the field.',
  ['inputs', 'configurations'],
  'every list of types and input',
  'tests use a union of two scalar types',
  ['modifiers/union_modifier.py', 'modifiers/oneisvalid_modifier.py'],
  [('choice', 'modifiers/union_modifier.py UnionModifier')],
  ['values', 'output', 'exceptions', 'hook calls'],
  'differential generation: union class against single type classes')

P('C20', 'Extending or reusing a types chain never changes another one',
  'A types chain is a value: extending it, using it in several classes, as '
  'item of lists and dicts, as member of unions or as a parameter never '
  'changes the behaviour of the chain it was made from or of any class that '
  'uses it, in whatever order chains are extended and classes are '
  'defined.  Names inside a reused chain are resolved in the class graph '
  'of the class that uses it.',
  ['inputs', 'configurations', 'histories'],
  'every tree of chain extensions, order of class definitions and input',
  'tests build each chain once and use it once',
  ['types.py', 'fdef.py', 'cdef.py', 'modifiers/chained_modifier.py',
   'modifiers/union_modifier.py'],
  [('chain extension', 'types.py Types.__init__'),
   ('ownership of field definitions', 'cdef.py CDef.__init__')],
  ['behaviour and field definition of every class'],
  'differential generation: shared chains against freshly built ones')

P('C27', 'Linked graphs with cycles are output, validated and saved completely',
  'Output, validation and saving finish for every graph of linked objects '
  'and leave the links unchanged: output contains every reference key and '
  'expands linked objects along each path until a class repeats on it, not '
  'going back along the relationship it came by unless asked to.  '
  'Validation judges every reachable object exactly once and reports an '
  'invalid one at a path that leads to it, and saving runs the save time '
  'hooks of every reachable object exactly once, with or without primary '
  'keys.',
  ['inputs', 'configurations'],
  'every set of relationships between classes and every graph of objects',
  'tests use one hand made cycle',
  ['modifiers/instanceof_modifier.py', 'mgraph.py', 'ctx.py', 'encoder.py'],
  [('visited objects', 'mgraph.py MGraph'),
   ('output chain', 'modifiers/instanceof_modifier.py '
    'InstanceOfModifier.tojson')],
  ['output', 'error paths', 'hook calls', 'links'],
  'generated object graphs against a reference traversal',
  'Items of a list also leave out relationships whose other side has the '
  'name of the list field, as the repository tests require. ')

P('C28', 'A stored object is judged by its changes, a new one completely',
  'Validation and saving of a stored object refuse exactly the invalid '
  'values in fields changed since it was loaded or last saved, by '
  'assignment, batch set or a change inside a list or dict; invalid values '
  'in unchanged fields never block it.  A new object, also one newly placed '
  'inside a stored one, is judged completely, referenced objects are judged '
  'by their own changes, and after a successful save nothing counts as '
  'changed.',
  ['inputs', 'histories'],
  'every history of changes, saves and validations',
  'tests validate new objects almost exclusively',
  ['modifiers/instanceof_modifier.py', 'jsonclassify.py', 'olist.py',
   'odict.py'],
  [('selection of fields', 'modifiers/instanceof_modifier.py '
    'InstanceOfModifier.validate')],
  ['error paths', 'what was written'],
  'stateful generation against a model of changed fields')

P('C29', 'Input is accepted exactly when it conforms, and never crashes',
  'Whatever JSON value is given for whatever field, building or setting an '
  'object and validating it either succeeds or raises a validation error, '
  'never anything else, and the input is left as it was.  It succeeds '
  'exactly when every value conforms to its declared type at every depth, '
  'and the paths reported are paths of values that do not conform.',
  ['inputs', 'configurations'],
  'every class shape (scalars, dates, enums, lists, dicts, objects, '
  'references, unions) and every JSON input',
  'tests give a few wrong values to flat fields; hostile input is nested '
  'and of unexpected type at any level',
  ['modifiers/instanceof_modifier.py', 'modifiers/collection_type_modifier.py',
   'modifiers/type_modifier.py', 'modifiers/date_modifier.py',
   'modifiers/datetime_modifier.py', 'modifiers/float_modifier.py',
   'modifiers/enum_modifier.py', 'jsonclassify.py'],
  [('reading', 'modifiers/*_modifier.py transform'),
   ('type checks', 'modifiers/type_modifier.py TypeModifier.validate')],
  ['exceptions', 'error paths', 'output'],
  'structured fuzzing with a reference verdict',
  'Key path keys, link commands and repeated primary keys are judged by '
  'other properties. ')

P('C30', 'Pick and omit restrict the output to the chosen fields only',
  'After any sequence of picks and omits the output of an object is its '
  'full output restricted to the chosen fields, a reference together with '
  'its key: a pick replaces the selection and an omit removes from it.  '
  'Values, validity, nested objects, other objects of the class and the '
  'lists passed in are not affected.',
  ['inputs', 'histories'],
  'every sequence of picks and omits and every object',
  'there is no test',
  ['jsonclassify.py', 'modifiers/instanceof_modifier.py'],
  [('selection', 'jsonclassify.py pick / omit')],
  ['output', 'output of other objects'],
  'stateful generation against the restricted full output')

P('C31', 'Calculated fields always show the current state and store nothing',
  'A calculated field gives, on every read, in output and in validation, '
  'the value its getter computes from the current state of the very '
  'object, after any change, also in subclasses.  Setting it runs its '
  'setter and changes only what the setter changes; without a setter it '
  'cannot be set, input for it is ignored, and it never counts as a '
  'modified field.',
  ['inputs', 'histories'],
  'every history of changes and every mix of function and chain getters',
  'tests read a calculated field once after construction',
  ['jsonclassify.py', 'cdef.py', 'modifiers/getter_modifier.py',
   'modifiers/setter_modifier.py', 'modifiers/assign_modifier.py',
   'modifiers/passin_modifier.py', 'modifiers/fval_modifier.py'],
  [('reads', 'jsonclassify.py __getattribute__'),
   ('writes', 'jsonclassify.py __setattr__')],
  ['values', 'output', 'modified fields', 'exceptions'],
  'stateful generation against a model of the state')

P('C32', 'Operator fields hold the acting operator of a new object',
  'When an operator acts on a new object, every operator field of it refers '
  'to that operator, or to the object its function derives from it; on a '
  'stored object nothing is assigned.  A new object without an operator '
  'assigned, or one whose operator field was emptied, is refused at that '
  'field and not written, and no other object is affected.',
  ['inputs', 'histories'],
  'every mix of operator fields and history of operators, changes and saves',
  'tests assign one operator once',
  ['jsonclassify.py', 'modifiers/asop_modifier.py',
   'modifiers/asopd_modifier.py'],
  [('assignment', 'jsonclassify.py opby')],
  ['reference keys', 'exceptions', 'what was written'],
  'stateful generation against a model of operator fields')

P('C33', 'Defaults fill exactly the missing values',
  'A new object takes the default, constant, computed for this object or '
  'declared in the class body, exactly for the fields whose value is '
  'missing or not allowed to be written; a chained default also replaces '
  'null input, also in batch setting.  A given value is never replaced, '
  'false, zero and empty ones included, later steps of the chain apply to '
  'the default too, and trusted writes of null stay null.',
  ['inputs', 'histories'],
  'every field type, kind of default, write mark, position and input',
  'tests use a missing value with one truthy default',
  ['modifiers/default_modifier.py', 'modifiers/instanceof_modifier.py',
   'cdef.py'],
  [('filling', 'modifiers/instanceof_modifier.py '
    'InstanceOfModifier._fill_default_value')],
  ['values'],
  'generated inputs against a model of filling')

P('C34', 'Loading related objects or missing values is not a change',
  'Including a relationship of a stored object gives exactly the related '
  'objects the storage holds, as the objects already loaded, linked back. '
  'Including, completing a partial object or reading through a reference '
  'leaves the modification state and previous values of that object, which '
  'keys are referenced and all plain values of loaded objects as they were, and '
  'later changes and reset work as without it.',
  ['inputs', 'histories'],
  'every stored graph and every history of loads, includes, completions, '
  'writes and resets',
  'there is no test with a storage',
  ['jsonclassify.py', 'modifiers/fobj_modifier.py'],
  [('include', 'jsonclassify.py include'),
   ('complete', 'jsonclassify.py complete')],
  ['related objects', 'modification state', 'previous values',
   'reference keys'],
  'stateful generation against a model of the storage')

P('C35', 'A class definition reports exactly what was declared',
  'For every declared field and every order of its marks, the class '
  'definition that storage integrations read reports the declared type, '
  'storage, keys, indexes, uniqueness, access, requiredness, delete rule, '
  'reference key names and relationship side.  Lookups by name, primary, '
  'auth and reference fields find exactly the declared ones, and in '
  'subclasses an override wins and the base is unaffected.',
  ['inputs', 'programs'],
  'every set of fields, marks, orders of marks and overrides',
  'tests look at single marks on single fields',
  ['fdef.py', 'cdef.py', 'types.py', 'jfield.py'],
  [('collection', 'cdef.py Cdef'), ('marks', 'types.py Types')],
  ['field definitions', 'name lookups'],
  'generated class declarations against recorded facts')

P('C36', 'Secrets are kept only as salted hashes and judged by them',
  'A salted value is stored, in fields, lists, dicts and embedded objects, '
  'only as a freshly salted hash that verifies with exactly the given text '
  'after the steps before salting; rules before it judge the given text, '
  'null stays null, and no later validation, save, read, other change or '
  'reset hashes it again or changes it.  Checking a given secret, directly, '
  'through an auth field or through another stored object, passes exactly '
  'for the original text and reports a failure at the checked field.',
  ['inputs', 'histories'],
  'every text, position, history of changes and every given secret',
  'a test salts one string once',
  ['modifiers/salt_modifier.py', 'modifiers/checkpw_modifier.py',
   'modifiers/cross_fetch_modifier.py', 'modifiers/authby_modifier.py',
   'types.py', 'ctx.py'],
  [('salting', 'modifiers/salt_modifier.py SaltModifier'),
   ('checking', 'modifiers/checkpw_modifier.py CheckpwModifier')],
  ['stored values', 'output', 'validation verdicts'],
  'stateful generation against bcrypt and the given texts')

P('C37', 'A write by key path reaches exactly the addressed place',
  'Setting by a key path (dots or brackets, attribute or JSON field names, '
  'list positions, dict keys) through embedded and linked objects, lists and '
  'dicts in any nesting has the same effect as navigating there and writing '
  'at that place: the addressed object takes the value as input, the '
  'addressed list or dict item is assigned, the owner of the place notes the '
  'change and its previous value, and nothing else changes.  A path through '
  'null is refused with a ValueError, one through a missing key or position '
  'is refused too, and a refused write changes nothing.',
  ['inputs', 'histories'],
  'every tree, path, spelling and sequence of path writes',
  'the tests write a handful of short paths on fixed objects',
  ['jsonclassify.py', 'keypath.py', 'olist.py', 'odict.py'],
  [('walking the path', 'jsonclassify.py _keypath_set / _set_to_container'),
   ('splitting the path', 'keypath.py keypath_split')],
  ['values of the whole tree', 'modified fields and previous values of every '
   'object'],
  'generated trees and paths against a plain model and a twin written by '
  'hand navigation')
