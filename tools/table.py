"""The properties, and how each is decided.

``tools/generate.py`` writes ``properties.jsonl`` and ``MANIFEST.json``."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, **anchors):
    P.append(
        dict(
            id=id, title=title, statement=statement, over=over, text=text,
            why=why, files=files, mechanism=mechanism, technique=technique,
            note=note, anchors=anchors,
        ),
    )


SCHEMA = 'marsh/schema/types'

prop(
    'C01',
    'Round trip: unmarshaling a marshaled value restores it',
    'For every supported type T that describes all of its content and every '
    'instance v of T, unmarshal(T, marshal(v)) is equal to v with the same '
    'types at every level, also when the element is sent through JSON text. '
    'Marshaling the restored value gives the same element again. A union is '
    'only covered where the rules of the union read the original value back.',
    ['inputs'],
    'All nestings of supported types and all instances of them.',
    'Tests marshal and unmarshal a few literals per type, never nested types '
    'with drawn values, and compare without the types of the content.',
    ['marsh/schema/core/marshal.py', 'marsh/schema/core/unmarshal.py', SCHEMA],
    [
        ('marshal', 'marsh/schema/core/marshal.py and the classes in marsh/schema/types'),
        ('unmarshal', 'marsh/schema/template/*.py, marsh/schema/types/*.py'),
    ],
    'differential monitor over generated types and instances (round-trip oracle, typed deep equality)',
    'Held on the executions that were driven, no proof. Trusts the typed equality of mon/values.py.',
)

prop(
    'C02',
    'marshal yields plain, JSON-serializable, canonical elements',
    'Whatever marshal returns consists only of plain str, int, float, bool, None, '
    'sequences and mappings with plain string keys, in the order of the value, and holds '
    'exactly the content of the value. Marshaling an element again does '
    'not change it. A value that has no element, at any depth, is a MarshalError.',
    ['inputs'],
    'All nestings of supported values, subclasses of the builtin types, '
    'containers of the user, and unsupported values at any depth.',
    'Tests marshal a few values per type; subclasses, keys and nestings are hardly touched.',
    ['marsh/schema/core/marshal.py', 'marsh/_functional.py', SCHEMA],
    [('marshal schemas', 'MarshalSchema subclasses in marsh/schema/types')],
    'reference-model monitor of marshal over generated values',
    'Held on the executions that were driven. Trusts the model of mon/refmarshal.py.',
)

prop(
    'C03',
    'unmarshal returns exactly the value that the type describes',
    'For every supported type and every element unmarshal accepts exactly the elements '
    'that the rules of the type accept, and the value that is returned '
    'is the one the rules describe. Every value that is returned is an '
    'instance of the type, at every level.',
    ['inputs'],
    'All nestings of supported types, valid and damaged elements, one-shot and reused schemas.',
    'Tests pick one or two elements per type and rarely nest; the combinations decide.',
    ['marsh/schema/template', SCHEMA, 'marsh/schema/core/unmarshal.py'],
    [
        ('conversion rules', 'unmarshal methods of marsh/schema/types/*.py'),
        ('structured binding', 'marsh/schema/template/structured.py'),
    ],
    'differential monitor: real unmarshal against an independent reference model',
    'Held on the executions that were driven. Trusts the reference model mon/specs.py.',
)

prop(
    'C04',
    'unmarshal fails only with UnmarshalError; missing values are told apart',
    'Whatever object is handed to unmarshal for a supported type, the call returns a value or '
    'raises an UnmarshalError that can be printed, never another exception. '
    'The error is a MissingValueError exactly if a required value is absent or marked as missing.',
    ['inputs'],
    'All supported types with damaged elements, elements of unrelated types, and arbitrary python objects.',
    'Tests check a few failing elements per type; totality is a statement about all inputs.',
    ['marsh/errors.py', 'marsh/schema/template', SCHEMA],
    [
        ('error conversion', 'marsh/errors.py maybe_handle_error/prepend and the unmarshal methods'),
        ('missing values', 'marsh/utils.py is_missing and the get_default methods of the schemas'),
    ],
    'monitor on escaping exceptions over hostile inputs, reference model for missing values',
    'Held on the executions that were driven. Exceptions of constructors of the user are out of scope.',
)

prop(
    'C05',
    'The path of an UnmarshalError locates the failure',
    'The path of an UnmarshalError names, from the root, the keys, indices and field names that lead to '
    'the subelement that could not be unmarshaled or to the absent field. Keys that contain '
    'the delimiter are escaped, so that the path can be split again.',
    ['inputs'],
    'All nestings of types, one or more damaged subelements at any place.',
    'Tests hardly look at paths; every container prepends its own part.',
    ['marsh/errors.py', 'marsh/path.py', 'marsh/schema/template', SCHEMA],
    [('path bookkeeping', 'marsh/errors.py prepend/append, used by every container schema')],
    'fault placement monitor: damage at a known place, path compared with place and model',
    'Held on the executions that were driven. Trusts the reference model mon/specs.py.',
)

prop(
    'C06',
    'Conversions between scalars are total, exact and strict',
    'bool, int, float, complex, str, bytes, None, slice, enums and subclasses of these read exactly the scalars '
    'that stand for a value of the type (a number written as text, true/false, null, base64, start:stop:step) and '
    'produce that value without loss; every other scalar is an UnmarshalError. '
    'No number is silently rounded, no bool is read as a number or the reverse unless the type rules say so.',
    ['inputs'],
    'All pairs of scalar types and scalars, including huge numbers, inf/nan, odd text, subclasses of scalars.',
    'Tests try a handful of pairs; the defects that were found here (overflow, non-ASCII, subclasses) sit between them.',
    [SCHEMA + '/primitive.py', SCHEMA + '/none.py', SCHEMA + '/bytes.py', SCHEMA + '/complex.py', SCHEMA + '/slice.py'],
    [('scalar conversion', 'unmarshal methods of primitive.py, bytes.py, complex.py, none.py, slice.py, enum.py')],
    'exhaustive table and random text with a reference-model monitor and exactness laws',
    'Held on the executions that were driven. Trusts the reference model mon/specs.py.',
)

prop(
    'C07',
    'Unions, optionals, literals and enums choose as declared',
    'A union returns the result of the first alternative, in the order of declaration, that accepts the element, except that an '
    'optional prefers its other alternatives over None; it fails only if all alternatives fail. '
    'A literal yields one of the declared objects of the same type and value, an enum the member of that name first and '
    'then the member of that value. The alternatives are never reordered or merged.',
    ['inputs'],
    'All unions (any spelling and nesting), literals and enums, elements that several alternatives accept.',
    'Tests use unions of two types with elements that only one of them accepts.',
    ['marsh/schema/template/union.py', SCHEMA + '/union.py', SCHEMA + '/literal.py', SCHEMA + '/enum.py'],
    [('choice', 'marsh/schema/template/union.py unmarshal; literal.py; enum.py')],
    'metamorphic monitor: the union against its alternatives read alone, and a reference model',
    'Held on the executions that were driven.',
)

prop(
    'C08',
    'Elements are bound to fields and parameters like python binds them',
    'Unmarshaling a dataclass, named tuple, typed dict, tuple, class or callable binds a mapping (by name) or a sequence (by position) '
    'to the fields or parameters exactly like a python call with the unmarshaled arguments: all kinds of parameters, defaults, '
    'default factories, inheritance, InitVar, KW_ONLY, *args and **kwargs. Absent required, unknown and superfluous items are errors.',
    ['inputs'],
    'All signatures and structured types, elements as mappings and sequences, complete, incomplete or damaged.',
    'Tests use a few signatures; the combinations of kinds of parameters, inheritance and options decide.',
    ['marsh/schema/template/structured.py', 'marsh/schema/template/callable.py', SCHEMA + '/dataclass.py', SCHEMA + '/namedtuple.py', SCHEMA + '/typeddict.py', 'marsh/schema/argument.py'],
    [('binding', 'marsh/schema/template/structured.py and callable.py'), ('call', 'marsh/_functional.py unmarshal_args')],
    'differential monitor over generated source modules: recorded construction against a python call',
    'Held on the executions that were driven. Trusts mon/specs.py for the arguments.',
)

prop(
    'C09',
    'Inputs stay untouched, results share nothing with them',
    'marshal and unmarshal never change the element, the value or the declared defaults they are given, whether they '
    'succeed or fail. Two results never share a mutable container with each other, with the input or with defaults that have a factory; '
    'damaging a result does not influence a later call.',
    ['inputs', 'history'],
    'All types and elements, sequences of calls with the same schema.',
    'Tests compare results only and never look at the inputs afterwards or call twice.',
    ['marsh/schema/template', SCHEMA, 'marsh/_functional.py', 'marsh/element.py'],
    [('copying', 'unmarshal/marshal methods, get_default of the schemas, utils.merge of keyword arguments')],
    'image monitor (identity, type and content of all containers) around every call, damage and repeat',
    'Held on the executions that were driven. Untyped places pass their element on.',
)

prop(
    'C15',
    'Fields survive being written into paths',
    'path.join/split/escape and the other path operations are inverse: any non-empty fields, whatever characters they contain, '
    'joined to a path and split again are the same fields; head, tail, parent, prefix tests and so on agree with split. '
    'Malformed paths are a PathError.',
    ['inputs'],
    'All fields and delimiters, all path text.',
    'Tests use simple identifiers; quotes, escapes and delimiters interact.',
    ['marsh/path.py'],
    [('splitting', 'marsh/path.py split/join/escape')],
    'reference-model monitor and laws over random fields and path text',
    'Held on the executions that were driven. Empty fields are out of scope.',
)

prop(
    'C16',
    'select, override and remove address exactly one place',
    'select returns the subelement at a path, override returns a copy where just that place is replaced (or added), '
    'remove a copy where just that place is gone, and everything else keeps content and order; the inputs stay untouched. '
    'A place that can not exist is a PathError that locates the first impossible part.',
    ['inputs'],
    'All elements, and paths of existing and missing places in all notations.',
    'Tests use small literal elements; negative indices, odd keys and shared subelements are not covered.',
    ['marsh/element.py', 'marsh/path.py'],
    [('addressing', 'marsh/element.py select, override, remove, iterative_select')],
    'reference-model monitor, laws between operations, images of the inputs',
    'Held on the executions that were driven. Trusts mon/elements.py.',
)

prop(
    'C17',
    'merging keeps everything, the last element wins',
    'merge of any elements holds every place of every element, the value of a place is the one of the last element that has it (and is '
    'not missing, if so asked), sequences are concatenated if asked for; keys keep the order of their first occurrence, a missing element is neutral, merging is idempotent and equal to merging one element after the other, inputs stay untouched.',
    ['inputs'],
    'All tuples of elements with shared keys and both modes of merging.',
    'Tests merge two or three small dicts.',
    ['marsh/element.py'],
    [('merge', 'marsh/element.py merge')],
    'reference-model monitor and algebraic laws over random elements',
    'Held on the executions that were driven. Trusts mon/elements.py.',
)

prop(
    'C18',
    'standardize, has_missing and resolve keep the content',
    'standardize converts all containers to the requested types and nothing else; has_missing is true exactly if a missing value is at '
    'any depth; resolve replaces interpolations by the values they refer to and keeps everything else.',
    ['inputs'],
    'All elements with all kinds of containers, missing values and interpolations.',
    'Tests use single, shallow elements.',
    ['marsh/element.py', 'marsh/utils.py'],
    [('conversion', 'marsh/element.py standardize, has_missing, resolve')],
    'reference-model monitor over random elements',
    'Held on the executions that were driven. Interpolation is what omegaconf defines.',
)

prop(
    'C10',
    'Results do not depend on what was done before',
    'The outcome of unmarshal, marshal and of a held schema depends on the type and the element alone: not on which types were used '
    'before, on types that compare equal (unions in other order, equal defaults of other types), on other classes of the same name or names in other modules, on classes that were deleted, '
    'on failed attempts, nor on caches that are kept, cleared, disabled or garbage collected.',
    ['histories', 'inputs'],
    'All sequences of uses of all supported types, with cache operations and garbage collection in between.',
    'Each test uses a type once or twice; the order of the tests never varies, and the caches are only tested by themselves.',
    ['marsh/schema/core/unmarshal.py', 'marsh/schema/core/base.py', 'marsh/utils.py', 'marsh/schema/template'],
    [('schema caches', 'UnmarshalSchema metaclass, type_cache, marsh/utils.py WeakTypeCache, ValueCache, CachePool')],
    'memoryless reference model evaluated against long random histories of the real caches',
    'Held on the executions that were driven. Mutation of a registered type by the user is out of scope.',
)

prop(
    'C11',
    'Threads do not influence each other',
    'Threads that unmarshal, marshal, document or clear caches at the same time, also the very same new types or the same schema, each '
    'get the outcome that they get alone; none blocks forever; an iterable that is shared is produced once and seen completely by all; keys that are absent in their own defaultdicts of one type give each of them the zero of the type; components that threads register are all there.',
    ['schedules', 'inputs'],
    'All interleavings at lines and bytecode instructions of up to four threads (plus eight free running ones).',
    'No test starts a thread.',
    ['marsh/schema/core/unmarshal.py', 'marsh/schema/core/base.py', 'marsh/utils.py', 'marsh/schema/namespace.py', 'marsh/schema/types/defaultdict.py'],
    [('shared state', 'caches of schemas, wrapper schemas built lazily, thread-local guards, IterableFromIterator lock, initializers of defaultdicts, namespaces')],
    'controlled, seeded thread interleavings (settrace scheduler) and stress with tiny switch intervals, outcomes judged by a reference model',
    'Held on the interleavings that were driven. Registering schemas for types in use by other threads is out of scope.',
)

prop(
    'C12',
    'Types may refer to themselves and to each other',
    'Types that refer to themselves or each other, by quoted or postponed annotations, inside of any container, unmarshal, round trip and are '
    'documented as if the definition was unrolled, whatever type is used first; same-named local classes are told apart; missing and infinite recursion ends with an error of the element.',
    ['inputs', 'histories'],
    'All modules of one to four mutually recursive dataclasses, named tuples, typed dicts and classes and all elements of them.',
    'Tests have two or three hand-written recursive dataclasses.',
    ['marsh/schema/core/unmarshal.py', 'marsh/schema/template/structured.py', 'marsh/utils.py'],
    [('forward references', 'wrapper schemas and ForwardRef evaluation in marsh/schema')],
    'reference-model monitor over generated modules of recursive types',
    'Held on the executions that were driven. Mutually recursive documentation may depend on the order of use.',
)

prop(
    'C19',
    'The parser reads back what was written for it',
    'Every element of strings, numbers, booleans, null, sequences and mappings that is written in the syntax of the parser, in any notation '
    '(quotes, escapes, both brackets, optional whitespace, JSON on one line), is read as that element (sequences as tuples, integral numbers as integers); '
    'any other text is either a plain element or a ParseError with a message, as the grammar says.',
    ['inputs'],
    'All texts: written elements in all notations, damaged texts and random texts.',
    'Tests parse a few dozen literal strings; quoting within nested brackets and whitespace are barely combined.',
    ['marsh/parse.py'],
    [('parser', 'marsh/parse.py element, terminal, string, sequence, mapping, config_names')],
    'round-trip oracle (independent writer) and differential monitor against an independent reference parser',
    'Held on the executions that were driven. Trusts mon/parsing.py. Nesting deeper than the stack is out of scope.',
)

prop(
    'C20',
    'Overrides do what they say, one after the other',
    'An override (path=value, +=, @, +@, ~path) that is written in any notation is read as the operation, path and value it was written from, and every other '
    'text is a ParseError or is read as the grammar says. A history of overrides gives the element that results from applying each of them to the previous result: set replaces, + combines, '
    '@ loads configs, ~ removes; a place that can not exist is a PathError, inputs stay untouched.',
    ['inputs', 'histories'],
    'All override texts and all sequences of overrides on all elements, with config files.',
    'Tests apply single literal overrides to small mappings; histories, sequences, quoting in paths and failed overrides are not sampled.',
    ['marsh/parse.py', 'marsh/element.py', 'marsh/path.py', 'marsh/config.py'],
    [('overrides', 'marsh/parse.py override, Override classes'), ('places', 'marsh/element.py override, remove')],
    'reference-model monitor over generated histories of overrides (fold of an independent model), round-trip oracle for texts',
    'Held on the executions that were driven. Deleting the root is out of scope.',
)

prop(
    'C21',
    'Config files hold what was written and are found by name',
    'An element that is written to a config file of any supported kind is read back as that element; a config name finds exactly the file (or directory) '
    'of the directory that has this name, an ambiguous, unsupported or absent one is an error, also after kinds of config files were registered or removed; several configs are merged in order; metadata and interpolations are '
    'resolved in the merged content and removed where asked for.',
    ['inputs', 'configurations'],
    'All elements, directory contents, config names and file kinds.',
    'Tests use a handful of fixed directories and one file kind at a time.',
    ['marsh/config.py', 'marsh/element.py'],
    [('configs', 'marsh/config.py load, save, find and tree functions')],
    'reference-model monitor over generated directories, round-trip oracle over files',
    'Held on the executions that were driven. Errors of omegaconf and yaml are raised as they are.',
)

prop(
    'C22',
    'An entry point calls its function with what is on the command line',
    'A decorated function is called exactly once, with the unmarshaled configuration that overrides and config files of the command line describe, combined with the arguments passed in code, and its result is returned; '
    'an invalid configuration, place or file is printed with its path and exits with 1 without calling the function; config-dir, output, config-out, help and logging options do what they say and the working directory is restored.',
    ['inputs', 'configurations', 'faults'],
    'All signatures, command lines, passed arguments, directories and functions that fail.',
    'Tests call a few entry points with fixed arguments; signatures, defaults, options and failures are never combined.',
    ['marsh/entry_point.py', 'marsh/config.py', 'marsh/parse.py', 'marsh/schema/template/callable.py'],
    [('entry point', 'marsh/entry_point.py main')],
    'monitor of recorded calls, exit codes, output and files of generated programs against a reference model, also in processes',
    'Held on the executions that were driven. Text that is no override and errors of omegaconf are raised as they are.',
)

prop(
    'C23',
    'Documentation, help and selection follow the structure of the type',
    'For every structured type the documentation holds exactly its fields in order, with their types, marshaled defaults and the descriptions written in docstrings (any of four styles), attribute docstrings or the nearest base class, down to the asked depth and nested for structured fields; rendered help shows exactly these, in order, indented by depth, aligned and not wider than asked for as long as words fit; '
    'tables and lists of types hold their cells; the components of a namespace are part of the documentation of its base and can be selected by their names; every type is displayed as what it is made of, a wrapper as what it wraps; selecting a path gives the schema of exactly the field at that path and a PathError with the last path that exists for any other; suggestions, also those in errors about names, name a candidate that is close.',
    ['inputs', 'configurations'],
    'All modules of structured types and callables, docstring styles, depths, widths and formatting options.',
    'Tests render a handful of hand-written types at one or two widths; inheritance, nesting, narrow widths and every docstring style are not combined.',
    ['marsh/doc/terminal.py', 'marsh/doc/common.py', 'marsh/doc/restructuredtext.py', 'marsh/doc/markdown.py', 'marsh/utils.py', 'marsh/schema/core/unmarshal.py'],
    [('help', 'marsh/doc/terminal.py format_terminal_value, format_unmarshal_fields, format_unmarshal_help'), ('descriptions', 'marsh/utils.py get_attribute_description, get_description'), ('tables', 'marsh/doc/restructuredtext.py format_table, format_types'), ('suggestions', 'marsh/utils.py get_closest')],
    'model-based monitor: generated modules of source code whose declarations are known; the documentation, the rendered text and selections are compared with what was declared',
    'Held on the executions that were driven. Recursive types, and descriptions that a dataclass or named tuple carries beside its docstring summary are out of scope.',
)

prop(
    'C24',
    'Caches and containers behave like the containers they stand for',
    'Under every history of operations SafeDict and ValueCache behave like an insertion-ordered mapping over equal (or equal and equally typed) keys, hashable or not, with exact statistics; '
    'WeakTypeCache holds exactly the living types, newest first, and keeps none alive; every iteration of IterableFromIterator sees all items once although the iterator is consumed once, lazily; '
    'a singleton class has one instance while it is in use; pools list, clear, disable and enable exactly their caches.',
    ['histories', 'inputs'],
    'All histories of operations and all keys.',
    'Tests run one short history per container; deletions and replacements among mixed keys are not sampled.',
    ['marsh/utils.py'],
    [('containers', 'marsh/utils.py SafeDict, ValueCache, WeakTypeCache, IterableFromIterator, SingletonMeta, CachePool')],
    'model-based monitor: random histories of operations next to a list model, with weak references as witness of collection',
    'Held on the executions that were driven. Iterators that raise are out of scope.',
)

prop(
    'C25',
    'A cached function returns what the function returns',
    'A function or method decorated with utils.cache returns, for every history of calls, what the function returned for equal arguments (equally typed if asked for), calls it exactly as often as an LRU cache '
    'of that size would, calls it directly for unhashable arguments and while disabled, stores no errors, counts exactly, and keeps no object alive with weak binding; hash keys are equal exactly for equal arguments.',
    ['histories', 'inputs'],
    'All histories of calls, arguments, options and instances.',
    'Tests make two or three calls per option.',
    ['marsh/utils.py'],
    [('cache decorator', 'marsh/utils.py cache'), ('hash keys', 'marsh/utils.py make_hash_key, make_typed_hash_key')],
    'differential monitor: call log and statistics next to functools.lru_cache driven by the same history, weak references as witness of collection',
    'Held on the executions that were driven. Trusts functools.lru_cache.',
)

prop(
    'C13',
    'Namespaces dispatch to what is registered at the time',
    'After every history of namespaces that are added and removed and of classes that are registered and replaced, unmarshaling a class of a namespace with a name constructs exactly the registered subclass of that name '
    '(at every depth, without the name), without a name the class itself, and fails at path "name" for any other name; marshaling adds the name, so that reading back gives an equal object; lookups and build agree with the registrations; a refused registration changes nothing.',
    ['histories', 'inputs'],
    'All histories of registrations, class hierarchies, names and elements.',
    'Tests register a few classes once; registrations after use, replacements, removal, several namespaces and stale caches are not sampled.',
    ['marsh/schema/namespace.py', 'marsh/schema/types/namespace.py'],
    [('namespaces', 'marsh/schema/namespace.py Namespaces, Namespace'), ('schemas', 'marsh/schema/types/namespace.py NamespaceMarshalSchema, NamespaceUnmarshalSchema')],
    'model-based monitor: histories of registrations and uses of generated class hierarchies next to a model without caches',
    'Held on the executions that were driven. Schemas that are held while the namespaces change are out of scope.',
)

prop(
    'C14',
    'Schemas are matched in the order of their priority',
    'A prioritized sequence keeps, for every history, higher priorities in front, newer values in front of older ones of the same priority, and relative priorities before both; removal recomputes what depended on the removed value and a refused value changes nothing. '
    'A registry gives exactly the wrappers and the first other schema that match, in that order, also after later registrations and apart from other registries, and user-defined schemas are used accordingly at every depth of every type.',
    ['histories', 'configurations'],
    'All histories of registrations with absolute and relative priorities, values and wrappers.',
    'Tests add few values once; registrations after use, removal, replacement and wrappers are not sampled.',
    ['marsh/utils.py', 'marsh/schema/core/base.py', 'marsh/schema/core/unmarshal.py', 'marsh/schema/core/marshal.py', 'marsh/schema/_functional.py'],
    [('order', 'marsh/utils.py PriorityOrder'), ('registry', 'marsh/schema/core/base.py SchemaRegistry, SchemaSelection, WrapperSchema')],
    'model-based monitor: histories of additions, removals and matches next to a model of insertion by priority',
    'Held on the executions that were driven. Contradictory relative priorities over more than two values and registration during use by other threads are out of scope.',
)

prop(
    'C26',
    'Annotations are applied in order around the conversion',
    'Every occurrence of Annotated, at any depth, calls its pre-annotations on the element in order, then converts, then calls its annotations on the value (or on the default) in order, each exactly once with what the one before returned, whether given as class or instance and whatever other metadata stands between; '
    'an exception of one stops the rest and is seen as UnmarshalError at the path of that occurrence with cause and name, errors of marsh and non-exceptions pass unchanged; the provided annotations accept exactly the positive, negative, unsigned numbers and populated collections; documentation and selection are those of the annotated type.',
    ['inputs', 'configurations'],
    'All types with annotations anywhere, all orders of annotations, all elements, and all failures of them.',
    'Tests apply one or two annotations to a number at the root; order, nesting, defaults, foreign metadata, kinds of exceptions and nan are not sampled.',
    ['marsh/schema/types/annotated.py', 'marsh/annotation.py', 'marsh/utils.py'],
    [('annotated types', 'marsh/schema/types/annotated.py AnnotatedUnmarshalSchema'), ('provided annotations', 'marsh/annotation.py Positive, Negative, Unsigned, Populated')],
    'trace monitor: the calls that recording annotations observe, with their arguments, next to a model; injected failures are followed to the error',
    'Held on the executions that were driven. Annotation classes that can not be instantiated without arguments, and the order between siblings, are out of scope.',
)

prop(
    'C27',
    'Casts, keyword arguments and arguments agree with marshal and unmarshal',
    'cast gives for every type and value what unmarshaling the marshaled value gives, leaves the value alone and repeats itself on its result; unmarshal with keyword arguments gives what the element updated with the marshaled keywords gives, and refuses them for elements that are no mapping; '
    'unmarshal_args and cast_args give, without calling it, exactly the arguments that fit the signature and with which the function would be called, also with arguments that were given before, which the element replaces.',
    ['inputs', 'configurations'],
    'All pairs of types and values, elements, keywords, signatures and arguments given before.',
    'Tests cast a few scalars; combinations of value and target types, replaced keywords and given arguments are not sampled.',
    ['marsh/_functional.py', 'marsh/schema/argument.py', 'marsh/schema/template/structured.py', 'marsh/schema/template/callable.py'],
    [('functions', 'marsh/_functional.py unmarshal, cast, cast_args, unmarshal_args'), ('binding', 'marsh/schema/template/structured.py StructuredUnmarshalSchema'), ('arguments', 'marsh/schema/argument.py ArgumentsUnmarshalSchema')],
    'model-based monitor: outcomes next to reference models of marshal, unmarshal and binding; recorded calls; differential with the composition of both steps',
    'Held on the executions that were driven. Trusts inspect.signature. Arguments given before that fit no parameter are out of scope.',
)

prop(
    'C28',
    'Errors keep path, type and cause, and are handled as asked for',
    'After every history of fields added before and behind it, directly or by contexts, the path of an error splits into exactly these fields; text, repr and pretty show message, path, nearest foreign cause, type and element, also of copies and pickled errors; '
    'contexts leave all other exceptions alone and raise the same object; a callback gets exactly the asked errors once unless MARSH_FULL_ERROR is set; a failure looks the same but for its path inside another type.',
    ['histories', 'inputs', 'configurations'],
    'All histories of fields, kinds of errors, chains of causes and settings.',
    'Tests look at a few messages; escaping, chains of causes, foreign exceptions, copies and the environment variable are not combined.',
    ['marsh/errors.py', 'marsh/path.py'],
    [('errors', 'marsh/errors.py MarshError, UnmarshalError, maybe_handle_error, prepend')],
    'model-based monitor: histories of operations on errors next to a list of fields and a model of the text; identity of exceptions that pass through contexts',
    'Held on the executions that were driven. Paths that consist of nothing but delimiters are out of scope.',
)

prop(
    'C29',
    'Work grows with the size of the input, not exponentially',
    'Twice as long a text, twice as large or as deep an element or value, twice as many fields or levels of a type, and twice as many operations on one container cost at most about four times the steps: '
    'parsing, paths, conversions in both directions, failures, operations on elements, building schemas of types whose levels name the one below several times, text and documentation all end after a number of steps that is bounded by a small power of the size.',
    ['inputs', 'histories'],
    'All shapes of texts, elements, types and histories, at every size.',
    'Tests use inputs of a handful of items, at which exponential and linear work look the same.',
    ['marsh/parse.py', 'marsh/path.py', 'marsh/element.py', 'marsh/utils.py', SCHEMA, 'marsh/schema/core', 'marsh/doc'],
    [('cached schemas', 'marsh/schema/core/unmarshal.py UnmarshalSchema.__call__ and its cache'), ('parser', 'marsh/parse.py'), ('containers', 'marsh/utils.py SafeDict, ValueCache, PriorityOrder')],
    'online monitor that counts executed lines and jumps (sys.monitoring) of the same operation on n and 2n, judged by their ratio; a CPU limit for operations that do not end',
    'Held on the executions that were driven, at sizes of up to 200. Work inside of functions of C is not counted, only limited in time. Results that are of exponential size themselves are out of scope.',
)

prop(
    'C30',
    'Nothing accumulates with use, nothing is kept alive',
    'After types are used once, using them again in any way leaves the number of objects, allocated blocks and cache entries as it was; elements, values and errors are released with the last reference of the caller; '
    'classes, functions, entry points, and removed namespaces with their classes are released once the caches are cleared.',
    ['histories', 'inputs'],
    'All types, elements, values, failures and orders of use.',
    'Tests never look at what is left behind.',
    ['marsh/utils.py', 'marsh/schema/core/unmarshal.py', 'marsh/schema/namespace.py', 'marsh/_functional.py', 'marsh/errors.py'],
    [('caches', 'marsh/utils.py cache, ValueCache, CachePool, WeakTypeCache'), ('namespaces', 'marsh/schema/namespace.py Namespaces.__delitem__')],
    'leak monitor: weak references to everything inside of elements, values, errors and classes; counts of objects, blocks and cache entries before and after rounds of use',
    'Held on the executions that were driven, in CPython. What other packages (omegaconf, dateutil) keep is left out.',
)

prop(
    'C31',
    'Containers of the user hold what their type parameters say',
    'Every class that is derived from containers of python, generic or not, over any number of levels, with parameters that are swapped, bound, nested, repeated or unused, and every alias of a generic class that looks like a sequence or mapping, is unmarshaled into an instance of exactly this class with content of the type that the parameters determine (their bounds or constraints if none are given); '
    'content that does not fit fails at its path; values are marshaled and come back; the same class with other parameters, and its relatives, are kept apart, also inside of other types.',
    ['inputs', 'configurations'],
    'All hierarchies of container classes, all type arguments and all elements.',
    'Tests contain one or two classes derived from a container with fixed content.',
    ['marsh/utils.py', 'marsh/schema/types/sequence.py', 'marsh/schema/types/mapping.py', 'marsh/schema/types/set.py', 'marsh/schema/types/defaultdict.py', 'marsh/schema/types/generic.py'],
    [('type parameters', 'marsh/utils.py iter_generic_bases, substitute_type_parameters, inspect_sequence_type, inspect_mapping_type'), ('look-alikes', 'marsh/schema/types/generic.py')],
    'differential monitor over generated class hierarchies against a model that substitutes type parameters by itself',
    'Held on the executions that were driven. Parameters that are never bound are out of scope, as are look-alikes whose content is not given (they are called with arguments).',
)

prop(
    'C32',
    'Data is only data, and calls leave the process alone',
    'Elements, texts, paths, config files and command lines are never executed, unpickled, imported or called, whatever they contain: unmarshaling, marshaling, parsing, resolving, merging, building and documenting do nothing but return or raise; '
    'loading and writing configs and starting a program open only the files that are named; and no call prints (except for help and errors of programs), warns, or changes the environment, working directory, search path, recursion limit, signals, random state, logging or other state of the process.',
    ['inputs'],
    'All texts, elements, files and command lines.',
    'Tests check results; what else happens on the way is not looked at.',
    ['marsh/_functional.py', 'marsh/parse.py', 'marsh/element.py', 'marsh/config.py', 'marsh/entry_point.py', SCHEMA, 'marsh/schema/types'],
    [('files', 'marsh/config.py load, find_config, ConfigSchema, OmegaConfConfigSchema'), ('programs', 'marsh/entry_point.py EntryPoint.__call__, run'), ('texts', 'marsh/parse.py')],
    'runtime monitor of audit events of python (compile, exec, import, open, processes, sockets, ...), of output, warnings and snapshots of the state of the process, around each call on hostile data',
    'Held on the executions that were driven. Imports and reads on first use are excluded (everything is warmed up), as are resolvers of omegaconf and the language files of dateparser.',
)

prop(
    'C33',
    'The same work has the same outcome in every process',
    'What marsh returns, raises and prints depends on its input only: not on the hash seed, optimization (-O, -OO), development mode, allocator, locale, home or working directory, order of the work, other threads, fork, tracing, profiling, garbage collection or filters of warnings. '
    'Every module can be imported first, provides the names it promises, prints nothing and warns about nothing.',
    ['configurations', 'histories'],
    'All types, elements, texts, files, programs and configurations of the interpreter.',
    'Tests run in one process with one configuration.',
    ['marsh/__init__.py', 'marsh/utils.py', 'marsh/_functional.py', 'marsh/parse.py', 'marsh/element.py', 'marsh/config.py', 'marsh/entry_point.py', SCHEMA, 'marsh/schema/namespace.py', 'marsh/doc'],
    [('modules', 'marsh/__init__.py and all modules below'), ('order', 'marsh/utils.py get_closest, PriorityOrder; marsh/schema/namespace.py')],
    'differential monitor: the text of all outcomes of the same random work, recorded in processes of different configuration',
    'Held on the executions that were driven. The order of sets is that of python; datetimes of time zones are left out where the zone differs.',
)

prop(
    'C34',
    'Objects may compare as they like; every type and value has answers',
    'Objects whose equality, order, truth, hash or attributes raise, are ambiguous (arrays), or are always true are treated like any unknown object, as elements, values, defaults and instances of classes with schemas of their own. Dataclasses whose metaclass defines equality are treated like others. '
    'The predicates and helpers of utils answer for every object, agree between a value and its type, and give the same answer for all spellings of a type (typing, builtin, X | None, Annotated).',
    ['inputs'],
    'All objects, types and spellings.',
    'Tests ask about a few well-behaved types and values.',
    ['marsh/utils.py', SCHEMA, 'marsh/schema/core', 'marsh/schema/types', 'marsh/schema/template'],
    [('questions', 'marsh/utils.py is_missing, is_sequence, is_mapping, is_typing_alias, is_optional, inspect_sequence_type, inspect_mapping_type, get_type_name'), ('conversions', 'marsh/utils.py bytes_to_base64, str_to_bool, float_to_int, cast_none')],
    'metamorphic monitor: the same operation with hostile objects and with plain unknown ones in the same places; predicates are asked about everything and compared between values, types and spellings',
    'Held on the executions that were driven. A __repr__, __class__ or __len__ that raises is left out, as are sets of such objects.',
)

prop(
    'C35',
    'The assertions of marsh.testing hold exactly if what they assert is so',
    'unmarshal_succeeds, unmarshal_fails, marshal_succeeds, marshal_fails and catch_cause pass if and only if the value is read or written as asserted, or the error of that class is raised and an error of the asserted class is in its chain of causes (explicit ones before implicit ones); '
    'they return what was made, raise the error of an assertion of success as it is, and show the chain that was found. Sequences of any type are the same element.',
    ['inputs'],
    'All types, elements, values and chains of errors, and true and false assertions about them.',
    'Tests use the helpers, nothing tests that they fail when they should.',
    ['marsh/testing.py'],
    [('assertions', 'marsh/testing.py unmarshal_succeeds, unmarshal_fails, marshal_succeeds, marshal_fails'), ('causes', 'marsh/testing.py catch_cause')],
    'model-based monitor: true and false assertions, which they are is known from the reference model and from how the chain of errors was made',
    'Held on the executions that were driven. Values that do not equal themselves are left out.',
)

prop(
    'C36',
    'Schemas of the user work like those of marsh',
    'A schema that is registered for a class of the user is used wherever that class occurs: in collections, unions, fields, parameters, defaults and inside of itself. Schemas that are built on the templates '
    '(SequenceUnmarshalSchema, MappingUnmarshalSchema, StructuredUnmarshalSchema, CallableUnmarshalSchema, UnionUnmarshalSchema) read the same elements, report the same paths, missing values and defaults, are selected from and '
    'documented like the builtin types of the same shape; exceptions of the construction of collections are UnmarshalErrors. Marshal schemas of the user are used for the values that they match, at every depth; wrappers are applied in the order of their priority around the schema that is used without them.',
    ['inputs', 'configurations'],
    'All combinations of templates, types inside of them and around them, and elements.',
    'Tests contain a few schemas, one template at a time, with fixed types inside.',
    ['marsh/schema/template', 'marsh/schema/core', SCHEMA],
    [('templates', 'marsh/schema/template/*.py unmarshal, construct, select, doc_fields'), ('dispatch', 'marsh/schema/core/base.py SchemaMeta, register')],
    'differential monitor: real schemas of the user against a reference model, descriptions compared with builtin types of the same shape',
    'Held on the executions that were driven. Exceptions of constructors of structured types are raised as they are.',
)
