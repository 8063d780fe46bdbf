"""C29: the work grows with the size of what is given, not exponentially"""
import collections
import dataclasses
import enum
import os
import typing
import warnings

import marsh

from .. import files, growth
from ..core import Check
from ..oracles import observe

check = Check(
    'C29',
    rule=(
        'Texts, elements, types, documentation and histories of random shape '
        'are built in one size and in twice that size; the lines and jumps '
        'that python executes are counted for both. Twice the size may take '
        'at most 5.5 times as many. Non-trivial: distinct shapes and '
        'operations.'
    ),
)
check.require(**{
    'comparisons': 1800,
    'texts': 700,
    'elements': 420,
    'types': 300,
    'types: build': 25,
    'types: unmarshal': 25,
    'types: wrong': 8,
    'types: marshal': 8,
    'types: help': 6,
    'fields': 100,
    'recursions': 80,
    'histories': 250,
    'steps': 15000000,
    'linear': 400,
})

ATOMS = '[]{}(),:"\'\\ .=+@~ab1-_#$\n\t/*'


def text_of(rng):
    def some(n):
        return ''.join(rng.choice(ATOMS) for _ in range(n))
    atom = some(rng.choice((1, 1, 2, 3)))
    prefix, suffix = some(rng.choice((0, 0, 1, 2, 3))), some(rng.choice((0, 0, 1, 2)))
    return lambda n: prefix + atom * n + suffix


class Color(enum.Enum):
    red = 1
    blue = 2


def unmarshaler(t):
    return lambda text: marsh.unmarshal(t, text)


READERS = {
    'element': marsh.parse.element,
    'override': marsh.parse.override,
    'config_names': marsh.parse.config_names,
    'split': marsh.path.split,
    'head': marsh.path.head,
    'tail': marsh.path.tail,
    'escape': marsh.path.escape_field,
    'strip': marsh.path.strip_delimiter,
    'prepend': lambda text: marsh.path.prepend(text, 'a'),
    'append': lambda text: marsh.path.append(text, 'a'),
    'bool': unmarshaler(bool),
    'int': unmarshaler(int),
    'float': unmarshaler(float),
    'complex': unmarshaler(complex),
    'bytes': unmarshaler(bytes),
    'slice': unmarshaler(slice),
    'none': unmarshaler(None),
    'enum': unmarshaler(Color),
    'literal': unmarshaler(typing.Literal['a', 1, 'bb']),
    'optional': unmarshaler(typing.Optional[int]),
    'select': lambda text: marsh.element.select({'a': {'b': [1]}}, text),
    'closest': lambda text: marsh.utils.get_closest(text, ['abc', 'a', 'b']),
    'resolve': lambda text: marsh.element.resolve({'a': text, 'b': 1}),
}


@check.workload(quick=700, thorough=60000)
def texts(case):
    rng = case.rng
    make = text_of(rng)
    name = rng.choice(list(READERS))
    reader = READERS[name]
    if name == 'resolve' and '$' in make(1) and '{' in make(1):
        # interpolations are read by omegaconf
        name, reader = 'element', marsh.parse.element
    n = rng.choice((30, 60, 100))
    small, large = make(n), make(2 * n)
    case.note(reader=name, text=small)
    case.distinct((name, make(1)))
    case.sample(f'{name}: {make(1)!r} repeated {n} and {2 * n} times')
    case.event('texts')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        growth.compare(case, lambda: reader(small), lambda: reader(large))


def element_of(rng):
    """Gives elements of a depth and the path to the innermost."""
    layers = [rng.choice(('map', 'seq', 'maps', 'seqs', 'tuple')) for _ in range(rng.randrange(1, 4))]
    leaf = rng.choice((1, 'text', None, '???', 0.5, [], {}))

    def make(n):
        element, path = leaf, []
        for i in range(n):
            layer = layers[i % len(layers)]
            if layer == 'map':
                element = {'a': element}
                path.append('a')
            elif layer == 'maps':
                element = {'b': 1, 'a.c': element, 'd': [2]}
                path.append('a.c')
            elif layer == 'seqs':
                element = [1, element, {'x': 2}]
                path.append('1')
            else:
                element = [element] if layer == 'seq' else (element,)
                path.append('0')
        return element, marsh.path.join_fields(path[::-1])
    return make, (tuple(layers), repr(leaf))


def wide_of(rng):
    inner, shape = element_of(rng)
    mapping = rng.random() < 0.5
    depth = rng.randrange(0, 3)

    def make(n):
        item, path = inner(depth)
        if mapping:
            element, first = {f'k{i}': item for i in range(n)}, f'k{n - 1}'
        else:
            element, first = [item] * n, str(n - 1)
        return element, marsh.path.join_fields([first, *marsh.path.split(path)])
    return make, (mapping, depth, shape)


def parse_of(element, path):
    import json
    return marsh.parse.element(json.dumps(element))


OPERATIONS = {
    'marshal': lambda e, p: marsh.marshal(e),
    'unmarshal': lambda e, p: marsh.unmarshal(typing.Any, e),
    'cast': lambda e, p: marsh.cast(typing.Any, e),
    'select': lambda e, p: marsh.element.select(e, p),
    'select nothing': lambda e, p: marsh.element.select(e, p + '.q.q'),
    'override': lambda e, p: marsh.element.override(e, {'x': 1}, p),
    'combine': lambda e, p: marsh.element.override(e, e, '', combine=True),
    'remove': lambda e, p: marsh.element.remove(e, p),
    'merge': lambda e, p: marsh.element.merge(e, e),
    'merge missing': lambda e, p: marsh.element.merge(e, e, allow_missing=True),
    'concatenate': lambda e, p: marsh.element.merge(e, e, concatenate=True),
    'has_missing': lambda e, p: marsh.element.has_missing(e),
    'standardize': lambda e, p: marsh.element.standardize(e),
    'resolve': lambda e, p: marsh.element.resolve(e),
    'wrong': lambda e, p: marsh.unmarshal(typing.List[typing.List[int]], e),
    'split': lambda e, p: marsh.path.split(p),
    'parse': parse_of,
}


@check.workload(quick=420, thorough=25000)
def elements(case):
    rng = case.rng
    wide = rng.random() < 0.4
    make, shape = (wide_of if wide else element_of)(rng)
    name = rng.choice(list(OPERATIONS))
    n = rng.choice((16, 32, 48))
    case.note(operation=name, shape=shape, wide=wide)
    case.distinct((name, wide, shape))
    case.sample(f'{name}: {shape} in size {n} and {2 * n}')
    case.event('elements')
    operation = OPERATIONS[name]
    small, large = make(n), make(2 * n)
    growth.compare(case, lambda: operation(*small), lambda: operation(*large))


# -- types ----------------------------------------------------------------

class Layer:
    """One level of a type: how it is built around the inner type, and how
    an element of it is built around the element of the inner type."""
    branches = 1

    def __init__(self, name, hint, element, key=''):
        self.name = name
        self.hint = hint
        self.element = element
        self.key = key


COUNT = [0]


def class_name():
    COUNT[0] += 1
    return f'Class{COUNT[0]}'


def data(*fields, frozen=False):
    def make(inner):
        made = [
            (name, inner if t is None else t, *([default(inner)] if default else []))
            for name, t, default in fields
        ]
        return dataclasses.make_dataclass(class_name(), made, frozen=frozen)
    return make


def nothing(inner):
    return dataclasses.field(default=None)


def factory(inner):
    return dataclasses.field(default_factory=list)


def pair(inner):
    return dataclasses.field(default=(1, 2))


def callable_of(inner):
    def function(x, *args: int, y: str = 'y'):
        return x
    function.__annotations__['x'] = inner
    return function


def protocol_free_class(inner):
    def __init__(self, x):
        self.x = x
    __init__.__annotations__['x'] = inner
    return type(class_name(), (), {'__init__': __init__})


LAYERS = [
    Layer('list', lambda t: typing.List[t], lambda e: [e]),
    Layer('sequence', lambda t: typing.Sequence[t], lambda e: [e, e][:1]),
    Layer('dict', lambda t: typing.Dict[str, t], lambda e: {'k': e}),
    Layer('mapping', lambda t: typing.Mapping[str, t], lambda e: {'k': e}),
    Layer('tuple', lambda t: typing.Tuple[t, int], lambda e: [e, 1]),
    Layer('tuples', lambda t: typing.Tuple[t, ...], lambda e: [e]),
    Layer('optional', lambda t: typing.Optional[t], lambda e: e),
    Layer('union', lambda t: typing.Union[bool, t, None], lambda e: e),
    Layer('union after', lambda t: typing.Union[t, str], lambda e: e),
    Layer('annotated', lambda t: typing.Annotated[t, 'x'], lambda e: e),
    Layer('dataclass', data(('x', None, None), ('y', int, lambda t: 1)), lambda e: {'x': e}),
    Layer('args', data(('x', None, None)), lambda e: [e]),
    Layer('frozen', data(('x', None, None), ('y', str, lambda t: 'y'), frozen=True), lambda e: {'x': e}),
    Layer('diamond', data(('x', None, None), ('y', None, nothing)), lambda e: {'x': e}),
    Layer('diamond of factories', data(('x', None, None), ('y', None, factory)), lambda e: {'x': e}),
    Layer('diamond of values', data(('x', None, None), ('y', None, pair)), lambda e: {'x': e}),
    Layer('diamond of required', data(('x', None, None), ('y', None, None)), None),
    Layer(
        'namedtuple', lambda t: typing.NamedTuple(class_name(), [('x', t), ('y', t)]), None,
    ),
    Layer(
        'typeddict', lambda t: typing.TypedDict(class_name(), {'x': t, 'y': t}, total=False),
        lambda e: {'x': e},
    ),
    Layer('callable', callable_of, lambda e: {'x': e}),
    Layer('class', protocol_free_class, lambda e: [e]),
]
for layer in LAYERS:
    layer.diamond = 'diamond' in layer.name or layer.name in ('namedtuple', 'typeddict')


def clear():
    marsh.schema.caches.cache_clear()
    marsh.schema.UnmarshalSchema.cache_clear()


@check.workload(quick=300, thorough=16000)
def types(case):
    """Types in which each level names the one below at most a few times."""
    rng = case.rng
    operation = rng.choice((
        'build', 'build', 'unmarshal', 'unmarshal', 'wrong', 'missing', 'absent',
        'marshal', 'doc', 'help', 'text', 'select',
    ))
    layers = LAYERS
    if operation not in ('build', 'select'):
        layers = [layer for layer in layers if layer.element]
    if operation in ('doc', 'help', 'text', 'absent'):
        # the result itself is of exponential size
        layers = [layer for layer in layers if not layer.diamond]
    pattern = [rng.choice(layers) for _ in range(rng.randrange(1, 4))]
    if not any(layer.name not in ('optional', 'union', 'union after', 'annotated') for layer in pattern):
        pattern.append(rng.choice([layer for layer in layers if layer.name in ('list', 'dict', 'dataclass')]))
    leaf = {'wrong': 'x', 'missing': '???'}.get(operation, 1)
    n = 6 if operation in ('doc', 'help', 'text', 'build', 'select') else 9
    # the same type is the outermost one in both sizes
    n -= n % len(pattern)

    def make(size):
        hint, element = int, leaf
        for i in range(size):
            layer = pattern[i % len(pattern)]
            hint = layer.hint(hint)
            if layer.element:
                element = layer.element(element)
        return hint, element

    case.note(operation=operation, layers=[layer.name for layer in pattern], levels=n)
    case.distinct((operation, tuple(layer.name for layer in pattern)))
    case.sample(f'{operation}: {[layer.name for layer in pattern]} in {n} and {2 * n} levels')
    case.event('types')
    case.event(f'types: {operation}')

    def work(hint, element):
        if operation == 'build':
            return lambda: marsh.schema.UnmarshalSchema(hint)
        schema = marsh.schema.UnmarshalSchema(hint)
        if operation in ('unmarshal', 'wrong', 'missing'):
            return lambda: schema.unmarshal(element)
        if operation == 'absent':
            return lambda: schema.unmarshal(marsh.MISSING)
        if operation == 'marshal':
            value = schema.unmarshal(element)
            return lambda: marsh.marshal(value)
        if operation == 'doc':
            return lambda: schema.doc(100)
        if operation == 'help':
            doc = schema.doc(100)
            return lambda: marsh.doc.terminal.format_unmarshal_help(doc, 80)
        if operation == 'text':
            return lambda: str(schema)
        return lambda: schema.select('x')

    small, large = make(n), make(2 * n)
    prepare = clear if operation == 'build' else None
    growth.compare(case, work(*small), work(*large), prepare)


@check.workload(quick=100, thorough=4000)
def fields(case):
    """Types of many fields, unions of many types."""
    rng = case.rng
    form = rng.choice(('dataclass', 'callable', 'namedtuple', 'union', 'literal', 'tuple', 'enum', 'typeddict'))
    operation = rng.choice(('build', 'unmarshal', 'wrong', 'doc', 'help', 'text'))
    described = form == 'dataclass' and rng.random() < 0.5

    def make(n):
        names = [f'x{i}' for i in range(n)]
        element = dict.fromkeys(names, 1)
        if form == 'dataclass':
            hint = dataclasses.make_dataclass(class_name(), [(name, int) for name in names])
            if described:
                hint.__doc__ = 'Text.\n\nArguments:\n' + ''.join(
                    f'    {name}: Of this.\n' for name in names
                )
        elif form == 'callable':
            scope = {}
            exec(f'def function({", ".join(f"{n}: int" for n in names)}): return 1', scope)
            hint = scope['function']
        elif form == 'namedtuple':
            hint = typing.NamedTuple(class_name(), [(name, int) for name in names])
        elif form == 'typeddict':
            hint = typing.TypedDict(class_name(), dict.fromkeys(names, int))
        elif form == 'union':
            hint = typing.Union[tuple(
                dataclasses.make_dataclass(class_name(), [(name, int)]) for name in names
            )]
            element = {names[-1]: 1}
        elif form == 'literal':
            hint, element = typing.Literal[tuple(names)], names[-1]
        elif form == 'tuple':
            hint, element = typing.Tuple[(int,) * n], [1] * n
        else:
            hint, element = enum.Enum(class_name(), names), names[-1]
        if operation == 'wrong':
            if isinstance(element, dict):
                element[names[-1]] = 'x'
            elif isinstance(element, list):
                element[-1] = 'x'
            else:
                element = 'wrong'
        return hint, element

    n = rng.choice((8, 16))
    case.note(form=form, operation=operation, fields=n)
    case.distinct((form, operation, n, described))
    case.event('fields')

    def work(hint, element):
        if operation == 'build':
            return lambda: marsh.schema.UnmarshalSchema(hint)
        schema = marsh.schema.UnmarshalSchema(hint)
        if operation in ('unmarshal', 'wrong'):
            return lambda: schema.unmarshal(element)
        if operation == 'doc':
            return lambda: schema.doc(2)
        if operation == 'help':
            doc = schema.doc(2)
            return lambda: marsh.doc.terminal.format_unmarshal_help(doc, 80)
        return lambda: str(schema)

    growth.compare(
        case, work(*make(n)), work(*make(2 * n)), clear if operation == 'build' else None,
    )


@check.workload(quick=80, thorough=4000)
def recursions(case):
    """Values of types that refer to themselves."""
    rng = case.rng
    form = rng.choice(('optional', 'list', 'dict', 'union', 'namedtuple', 'typeddict'))
    outcome = rng.choice(('value', 'wrong', 'missing', 'marshal'))
    hint = RECURSIVE[form]
    leaf = {'wrong': 'x', 'missing': '???'}.get(outcome, 1)

    def make(n):
        element = {'v': leaf}
        for _ in range(n):
            element = {'v': 1, 'next': {
                'list': lambda: [element],
                'dict': lambda: {'k': element},
            }.get(form, lambda: element)()}
        return element

    n = rng.choice((10, 20, 40))
    case.note(form=form, outcome=outcome, depth=n)
    case.distinct((form, outcome, n))
    case.event('recursions')
    schema = marsh.schema.UnmarshalSchema(hint)

    def work(element):
        if outcome == 'marshal':
            value = schema.unmarshal(element)
            return lambda: marsh.marshal(value)
        return lambda: schema.unmarshal(element)

    growth.compare(case, work(make(n)), work(make(2 * n)))


@dataclasses.dataclass
class OptionalNode:
    v: int
    next: typing.Optional['OptionalNode'] = None


@dataclasses.dataclass
class ListNode:
    v: int
    next: typing.List['ListNode'] = dataclasses.field(default_factory=list)


@dataclasses.dataclass
class DictNode:
    v: int
    next: typing.Dict[str, 'DictNode'] = dataclasses.field(default_factory=dict)


@dataclasses.dataclass
class UnionNode:
    v: int
    next: typing.Union[int, 'UnionNode', str, None] = None


class TupleNode(typing.NamedTuple):
    v: int
    next: typing.Optional['TupleNode'] = None


class TypedNode(typing.TypedDict, total=False):
    v: int
    next: 'TypedNode'


RECURSIVE = {
    'optional': OptionalNode,
    'list': ListNode,
    'dict': DictNode,
    'union': UnionNode,
    'namedtuple': TupleNode,
    'typeddict': TypedNode,
}


# -- histories ------------------------------------------------------------------

def keyed(rng):
    """What the keys of a history look like."""
    kind = rng.choice(('numbers', 'texts', 'unhashable', 'mixed'))
    return kind, {
        'numbers': lambda i: i,
        'texts': lambda i: f'k{i}',
        'unhashable': lambda i: [i],
        'mixed': lambda i: (i, [i], f'k{i}')[i % 3],
    }[kind]


def dictionary(rng):
    kind, key = keyed(rng)
    steps = rng.sample(('set', 'get', 'set again', 'iterate', 'contains'), rng.randrange(1, 6))
    delete = rng.random() < 0.5

    def work(n):
        d = marsh.utils.SafeDict()
        for i in range(n):
            d[key(i)] = i
        for step in steps:
            if step == 'iterate':
                list(d.items()), list(reversed(d)), len(d)
            for i in range(n):
                if step.startswith('set'):
                    d[key(i)] = i
                elif step == 'get':
                    d.get(key(i)), d.get(key(-i))
                elif step == 'contains':
                    key(i) in d
        for i in range(n) if delete else ():
            del d[key(i)]
    return work, (kind, tuple(steps), delete)


def values(rng):
    kind, key = keyed(rng)
    copies = rng.choice((1, 3))

    def work(n):
        cache = marsh.utils.ValueCache()
        for _ in range(copies):
            for i in range(n):
                cache[key(i)] = i
                cache[key(i)]
    return work, (kind, copies)


def priorities(rng):
    how = rng.choice(('numbers', 'behind', 'before', 'first', 'one by one'))

    def work(n):
        order = marsh.utils.PriorityOrder()
        order.add(0)
        for i in range(1, n):
            order.add(i, **{
                'numbers': lambda: {'priority': i % 5},
                'behind': lambda: {'higher_priority': i - 1},
                'before': lambda: {'lower_priority': i - 1},
                'first': lambda: {'lower_priority': 0},
                'one by one': lambda: {},
            }[how]())
            order[0], len(order)
        list(order)
    return work, how


def overrides(rng):
    """One override after the other, as in a command line."""
    how = rng.choice(('keys', 'deep', 'items', 'same', 'combine', 'remove'))

    def work(n):
        element = {}
        for i in range(n):
            if how == 'keys':
                element = marsh.element.override(element, i, f'k{i}')
            elif how == 'deep':
                element = marsh.element.override({} if i == 0 else element, i, f'a.b.k{i}')
            elif how == 'items':
                element = marsh.element.override(element, i, f'a.{i}') if i else {'a': [0]}
            elif how == 'same':
                element = marsh.element.override(element, {'x': {'y': i}}, 'a')
            elif how == 'combine':
                element = marsh.element.override(element, {'x': {f'k{i}': i}}, 'a', combine=True)
            else:
                element = marsh.element.override(element, i, f'k{i}')
                if i % 2:
                    element = marsh.element.remove(element, f'k{i}')
    return work, how


def failures(rng):
    """Fields are added to an error, one after the other."""
    how = rng.choice(('prepend', 'append', 'both', 'contexts'))

    def nested(n):
        with marsh.errors.prepend('field'):
            if n == 0:
                raise marsh.errors.UnmarshalError('failed')
            nested(n - 1)

    def work(n):
        if how == 'contexts':
            try:
                nested(n)
            except marsh.errors.UnmarshalError as err:
                str(err)
            return
        path = ''
        for i in range(n):
            if how in ('prepend', 'both'):
                path = marsh.path.prepend(path, 'a.b')
            if how in ('append', 'both'):
                path = marsh.path.append(path, f'f{i}')
        marsh.path.split(path)
    return work, how


def iterations(rng):
    """An iterator that is read again and again."""
    part = rng.choice((1, 2, 4))

    def work(n):
        iterable = marsh.utils.IterableFromIterator(iter(range(n)))
        for i in range(0, n, part):
            for j in iterable:
                if j >= i:
                    break
            bool(iterable)
        list(iterable)
    return work, part


def spaces(rng):
    """Classes are registered in a namespace and used."""
    steps = rng.sample(('lookup', 'own name', 'unmarshal', 'unknown', 'subclasses', 'iterate'), rng.randrange(1, 5))

    def work(n):
        base = type('Base', (), {})
        name = 'growth'
        namespace = marsh.namespaces.new(name, base=base)
        try:
            for i in range(n):
                namespace.register(type(f'C{i}', (base,), {}), name=f'c{i}')
            for step in steps:
                for i in range(n):
                    if step == 'lookup':
                        namespace[f'c{i}']
                    elif step == 'own name':
                        namespace.find_class(base)
                    elif step == 'unmarshal':
                        marsh.unmarshal(base, {'name': f'c{i}'})
                    elif step == 'unknown':
                        namespace.get(f'x{i}')
                if step == 'subclasses':
                    namespace.find_subclasses(base), marsh.namespaces.find_namespaces(base)
                elif step == 'iterate':
                    list(namespace), len(namespace), dict(namespace)
        finally:
            del marsh.namespaces[name]
    return work, tuple(steps)


def folders(rng):
    """Directories inside of each other, or next to each other."""
    how = rng.choice(('deep', 'deep', 'wide', 'files'))

    def work(n):
        with files.scratch() as folder:
            path = folder
            for i in range(n):
                if how == 'deep':
                    path = os.path.join(path, 'd')
                    os.mkdir(path)
                elif how == 'wide':
                    path = os.path.join(folder, f'd{i}')
                    os.mkdir(path)
                if how != 'deep' or i == n - 1:
                    with open(os.path.join(path, f'conf{i}.json'), 'w') as file:
                        file.write('{"a": 1}')
            marsh.config.tree(folder)
            marsh.config.load('conf%d' % (n - 1), root=path)
            observe(marsh.config.load, 'cnf', root=path)
    return work, how


HISTORIES = {
    'folders': folders,
    'dictionary': dictionary,
    'values': values,
    'priorities': priorities,
    'overrides': overrides,
    'failures': failures,
    'iterations': iterations,
    'namespaces': spaces,
}


@check.workload(quick=250, thorough=12000)
def histories(case):
    """Twice as many operations on something that is kept."""
    rng = case.rng
    name = rng.choice(list(HISTORIES))
    work, shape = HISTORIES[name](rng)
    n = rng.choice((12, 24, 36))
    case.note(history=name, shape=shape, operations=n)
    case.distinct((name, shape, n))
    case.sample(f'{name}: {shape}, {n} and {2 * n} times')
    case.event('histories')
    case.event(f'histories: {name}')
    growth.compare(case, lambda: work(n), lambda: work(2 * n), clear)
