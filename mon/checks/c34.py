"""C34: objects may compare as they like, and questions about types are answered for all of them"""
import collections
import dataclasses
import enum
import inspect
import re
import types
import typing
import unittest.mock

import typing_extensions

import marsh

from .. import containers, gen, specs
from ..core import Check
from ..oracles import observe
from ..values import freeze

u = marsh.utils

check = Check(
    'C34',
    scale=3,
    rule=(
        'Objects with hostile equality, truth, hash and attributes take '
        'the place of a plain unknown object in elements, values and defaults, '
        'the outcome must be the same. The predicates and helpers for '
        'types and values are asked about them, about values and '
        'about types in all spellings. Non-trivial: distinct types with elements, and '
        'distinct questions.'
    ),
    assumptions=['A __repr__, __class__ or __len__ that raises is an error of the class.'],
)
check.require(**{
    'elements': 10000,
    'accepted': 1500,
    'rejected': 3000,
    'hostile objects returned': 1000,
    'values': 1400,
    'defaults': 2000,
    'known classes': 800,
    'documented': 500,
    'questions': 100000,
    'values and their types': 1400,
    'spellings': 2000,
    'helpers': 3000,
    'compared classes': 800,
    'compared containers': 250,
})


# -- hostile objects ------------------------------------------------------------

class Hostile:
    def __repr__(self):
        return 'Opaque()'

    __hash__ = object.__hash__


class Ambiguous(Hostile):
    """Like an array."""

    def __eq__(self, other):
        return type(self)()

    def __bool__(self):
        raise ValueError('The truth value is ambiguous')

    __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__
    __hash__ = None


class Tensor(Ambiguous):
    """Like an array that is hashed by its identity."""
    __hash__ = object.__hash__


class EqualsNothing(Hostile):
    def __eq__(self, other):
        raise RuntimeError('not comparable')

    __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__
    __hash__ = object.__hash__


class EqualsEverything(Hostile):
    """Like unittest.mock.ANY."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return hash('???')


class Twin(Hostile):
    """Equal to its like."""

    def __eq__(self, other):
        return isinstance(other, Twin)

    def __hash__(self):
        return 7


class False_(Hostile):
    def __bool__(self):
        return False


class HashRaises(Hostile):
    def __hash__(self):
        raise RuntimeError('no hash')


class AnyAttribute(Hostile):
    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        return self


class NoAttribute(Hostile):
    def __getattr__(self, name):
        raise AttributeError(name)


class Says(Hostile):
    """Prints like a missing value or null."""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


KINDS = [
    Ambiguous, Tensor, EqualsNothing, EqualsEverything, Twin, False_, HashRaises, AnyAttribute, NoAttribute,
]
NAMES = {kind: kind.__name__ for kind in KINDS}
for kind_ in KINDS:
    # named in texts
    kind_.__name__ = kind_.__qualname__ = specs.Opaque.__name__
    kind_.__module__ = specs.Opaque.__module__


def image(value, objects):
    """The value with the objects numbered."""
    numbers = {f'{id(obj):x}': i for i, obj in enumerate(objects)}
    return re.sub(
        r'\w+@([0-9a-f]+)',
        lambda m: f'object{numbers[m[1]]}' if m[1] in numbers else m[0],
        freeze(value),
    )


def outcome_of(outcome, objects):
    if outcome.error is None:
        return 'value', image(outcome.value, objects)
    return 'error', type(outcome.error).__name__, getattr(outcome.error, 'path', None), str(outcome.error)


def judge(case, hostile, plain, objects, opaques):
    a, b = outcome_of(hostile, objects), outcome_of(plain, opaques)
    case.note(hostile=a, plain=b)
    case.check(a == b, 'an object is treated differently because of its operators')
    case.event('accepted' if plain.error is None else 'rejected')
    if plain.error is None and 'object' in b[1]:
        case.event('hostile objects returned')


def fill(element, objects):
    """Copies of the element that contain the objects."""
    if isinstance(element, Hole):
        return objects[element.index]
    if specs.is_map(element):
        return {key: fill(element[key], objects) for key in element}
    if specs.is_seq(element):
        return [fill(item, objects) for item in element]
    return element


class Hole:
    def __init__(self, index):
        self.index = index


def holes(rng, element, n):
    for i in range(n):
        paths = [p for p in specs.positions(element)]
        where = rng.choice(paths)

        def change(sub, i=i):
            if isinstance(sub, list) and rng.random() < 0.5:
                return [*sub, Hole(i)]
            if isinstance(sub, dict) and rng.random() < 0.3:
                return {**sub, rng.choice('abx'): Hole(i)}
            return Hole(i)
        element = specs.replace(element, where, change)
    return element


def draw(case):
    rng = case.rng
    if rng.random() < 0.15:
        return specs.AnyS()
    while True:
        if rng.random() < 0.1:
            spec = containers.gen_container(rng, 1)
        else:
            spec = gen.draw(case, depth=(0, 1, 2, 2))
        # sets need hashes and equality
        if not any(re.search('[Ss]et', getattr(s, 'label', None) or repr(s)) for s in spec.walk()):
            return spec


def listed(element):
    if specs.is_map(element):
        return {key: listed(element[key]) for key in element}
    if specs.is_seq(element):
        return [listed(item) for item in element]
    return element


@check.workload(quick=1500, thorough=40000)
def elements(case):
    rng = case.rng
    spec = draw(case)
    for _ in range(4):
        element = listed(gen.draw_element(case, spec, rng.choice((0, 0, 1))))
        n = rng.choice((1, 1, 2, 3))
        element = holes(rng, element, n)
        objects = [rng.choice(KINDS)() for _ in range(n)]
        opaques = [specs.Opaque() for _ in range(n)]
        case.note(type=spec, element=fill(element, opaques), kinds=[NAMES[type(obj)] for obj in objects])
        case.distinct((spec.label, repr(fill(element, opaques))))
        case.event('elements')
        a = observe(marsh.unmarshal, spec.t, fill(element, objects))
        b = observe(marsh.unmarshal, spec.t, fill(element, opaques))
        judge(case, a, b, objects, opaques)


@check.workload(quick=800, thorough=20000)
def values(case):
    """Marshaling and operations on elements."""
    rng = case.rng
    n = rng.choice((1, 1, 2, 3))
    value = holes(rng, listed(specs.rand_element(rng, 3)), n)
    objects = [rng.choice(KINDS)() for _ in range(n)]
    opaques = [specs.Opaque() for _ in range(n)]
    box = dataclasses.make_dataclass('Box', [('x', typing.Any), ('y', typing.Any, None)], eq=False)
    tuple_ = collections.namedtuple('Pair', 'x y')
    wrap = rng.choice((
        lambda v: v, lambda v: box(v), lambda v: [box(v)], lambda v: {'a': box(1, v)}, lambda v: tuple_(v, 1),
        lambda v: collections.deque([v]), lambda v: collections.UserDict(a=v),
    ))
    path = '.'.join(rng.choice('abx01') for _ in range(rng.randrange(3)))
    e = marsh.element
    name, operation = rng.choice((
        ('marshal', lambda v: marsh.marshal(wrap(v))),
        ('marshal', lambda v: marsh.marshal(wrap(v))),
        ('cast', lambda v: marsh.cast(typing.Any, wrap(v))),
        ('standardize', lambda v: e.standardize(v)),
        ('has_missing', lambda v: e.has_missing(v)),
        ('merge', lambda v: e.merge(v, v)),
        ('concatenate', lambda v: e.merge([v], [v], concatenate=True)),
        ('override', lambda v: e.override({'a': [1]}, v, path or 'a')),
        ('override', lambda v: e.override(v, 1, path)),
        ('select', lambda v: e.select(v, path)),
        ('remove', lambda v: e.remove(v, path or 'a')),
        ('error', lambda v: str(marsh.errors.UnmarshalError('text', element=v, path=path, type=int))),
    ))
    case.note(operation=name, path=path, value=fill(value, opaques), kinds=[NAMES[type(obj)] for obj in objects])
    case.distinct((name, path, repr(fill(value, opaques))))
    case.event('values')
    a = observe(operation, fill(value, objects))
    b = observe(operation, fill(value, opaques))
    judge(case, a, b, objects, opaques)


def make_type(rng, default, t):
    form = rng.choice(('function', 'keyword', 'class', 'dataclass', 'factory', 'namedtuple', 'field'))
    if form in ('function', 'keyword'):
        kind = inspect.Parameter.KEYWORD_ONLY if form == 'keyword' else inspect.Parameter.POSITIONAL_OR_KEYWORD

        def made(*args, **kwargs):
            bound = made.__signature__.bind(*args, **kwargs)
            bound.apply_defaults()
            return bound.arguments['x']
        made.__signature__ = inspect.Signature([inspect.Parameter('x', kind, default=default, annotation=t)])
        made.__annotations__ = {'x': t}
        return form, made, lambda v: v
    if form == 'class':
        class Made:
            def __init__(self, x=default):
                self.x = x
        Made.__init__.__annotations__ = {'x': t}
    elif form == 'namedtuple':
        Made = typing.NamedTuple('Made', [('x', t)])
        Made.__new__.__defaults__ = (default,)
        Made._field_defaults['x'] = default
        return form, Made, lambda v: v[0]
    else:
        class Made:
            pass
        Made.__annotations__ = {'x': t}
        if form == 'factory' or type(default).__hash__ is None:
            Made.x = dataclasses.field(default_factory=lambda: default)
        elif form == 'field':
            Made.x = dataclasses.field(default=default, repr=False, compare=False)
        else:
            Made.x = default
        Made = dataclasses.dataclass(eq=False)(Made)
    return form, Made, lambda v: v.x


@check.workload(quick=1500, thorough=30000)
def defaults(case):
    """A default is used as it is, and not that of another type."""
    rng = case.rng
    t = rng.choice((typing.Any, int, typing.List[int], typing.Optional[int], typing.Union[int, str]))
    kinds = [rng.choice(KINDS)] * 2 if rng.random() < 0.6 else rng.sample(KINDS, 2)
    state = rng.getstate()
    for kind in kinds * 2:
        rng.setstate(state)
        default = kind()
        form, made, get = make_type(rng, default, t)
        case.note(form=form, type=t, kind=NAMES[kind])
        case.distinct((form, str(t), NAMES[kinds[0]], NAMES[kinds[1]]))
        case.event('defaults')
        for element in ({}, {'x': '???'}):
            seen = observe(lambda: get(marsh.unmarshal(made, element)))
            case.note(observed=seen)
            case.check(seen.error is None and seen.value is default, 'the default is not used', element=element)
        seen = observe(lambda: get(marsh.unmarshal(made, {'x': '1' if t is not typing.List[int] else [1]})))
        case.check(seen.error is None and seen.value is not default, 'the default replaces a value', observed=seen)
        if case.index % 20 == 0:
            outcome = observe(lambda: (marsh.schema.UnmarshalSchema(made).doc(2), str(marsh.schema.UnmarshalSchema(made))))
            case.check(outcome.error is None, 'no documentation', observed=outcome)
            case.event('documented')


class Known(Tensor):
    def __init__(self, data):
        self.data = data


@marsh.schema.register
class KnownUnmarshal(marsh.schema.UnmarshalSchema):
    @classmethod
    def match(cls, value):
        return value is Known

    @staticmethod
    def doc_static_type():
        return 'Known'

    @staticmethod
    def doc_static_description():
        return 'Known'

    def unmarshal(self, element):
        return Known(element)


@marsh.schema.register
class KnownMarshal(marsh.schema.MarshalSchema):
    @classmethod
    def match(cls, value):
        return isinstance(value, Known)

    @staticmethod
    def doc_static_type():
        return 'Known'

    @staticmethod
    def doc_static_description():
        return 'Known'

    def marshal(self):
        return self.value.data


@check.workload(quick=600, thorough=12000)
def known_classes(case):
    """Classes with such operators may have schemas."""
    rng = case.rng
    data = specs.rand_element(rng, 2)
    data = marsh.marshal(data)
    known = Known(data)
    t, value, element, get = rng.choice((
        (Known, known, data, lambda v: v),
        (typing.List[Known], [known], (data,), lambda v: v[0]),
        (typing.Dict[str, Known], {'a': known}, {'a': data}, lambda v: v['a']),
        (typing.Optional[Known], known, data, lambda v: v),
        (typing.Tuple[int, Known], (1, known), (1, data), lambda v: v[1]),
        (dataclasses.make_dataclass('Has', [('k', Known)], eq=False), None, {'k': data}, lambda v: v.k),
    ))
    if value is None:
        value = t(known)
    if t == typing.Optional[Known] and data is None or specs.missing(data):
        return
    case.note(type=t, data=data)
    case.distinct((str(t), repr(data)))
    case.event('known classes')
    seen = observe(marsh.marshal, value)
    case.check(seen.error is None and freeze(seen.value) == freeze(element), 'marshaled differently', observed=seen)
    seen = observe(marsh.unmarshal, t, element)
    case.check(
        seen.error is None and freeze(get(seen.value).data) == freeze(data), 'unmarshaled differently', observed=seen,
    )
    seen = observe(marsh.cast, t, value)
    case.check(seen.error is None and type(get(seen.value)) is Known, 'cast differently', observed=seen)


# -- questions ------------------------------------------------------------------

PREDICATES = sorted(
    name for name, fn in vars(u).items()
    if name.startswith('is_') and callable(fn) and len(inspect.signature(fn).parameters) == 1
)


class Plain:
    x = 1


class Base(typing.Protocol):
    def f(self): ...


class Td(typing.TypedDict):
    x: int


class Nt(typing.NamedTuple):
    x: int


Untyped = collections.namedtuple('Untyped', 'x')
OldUntyped = collections.namedtuple('OldUntyped', '')


class Colour(enum.Enum):
    RED = 1


THINGS = [
    None, ..., 1, 1.5, True, 'x', '', '???', b'x', 1j, float('nan'), object(), object, type, type(None), int, str,
    bool, float, bytes, list, tuple, dict, set, frozenset, collections.deque, collections.OrderedDict,
    collections.defaultdict, collections.UserDict, collections.UserList, collections.ChainMap, range, range(3), slice(1),
    [], (), {}, set(), frozenset(), [1], (1,), {'a': 1}, {1}, collections.deque(), collections.defaultdict(int),
    collections.UserDict(), collections.UserList(), collections.UserString('x'), types.MappingProxyType({}),
    Plain, Plain(), Base, Td, Nt, Nt(1), Untyped, Untyped(1), OldUntyped, Colour, Colour.RED, len, lambda x: x,
    Plain().__init__, typing, types, dataclasses.MISSING, marsh.MISSING, NotImplemented, iter([]), (x for x in ()),
    memoryview(b''), bytearray(), types.SimpleNamespace(__bases__=()), unittest.mock.ANY, unittest.mock.Mock(),
    unittest.mock.MagicMock(), typing.Any, typing.List, typing.Dict, typing.Tuple, typing.Union, typing.Optional,
    typing.Literal, typing.Callable, typing.Generic, typing.Protocol, typing.TypeVar('T'), typing.NamedTuple,
    typing.TypedDict, typing.Annotated, typing.ClassVar, typing.Final, typing.NoReturn, typing.LiteralString,
    typing_extensions.LiteralString, typing.TypeAlias, typing.Self, typing.ForwardRef('int'), typing.NewType('New', int),
    typing.ParamSpec('P'), typing.Hashable, typing.Sized, typing.SupportsInt, typing.Sequence, typing.Mapping,
    typing.DefaultDict, typing.Deque, typing.Type, typing.AnyStr, typing.Text,
    typing.List[int], list[int], typing.Dict[str, int], dict[str, int], typing.Tuple[()], tuple[()], tuple[int, ...],
    typing.Tuple[int, str], typing.Union[int, str], int | str, typing.Optional[int], int | None, typing.Literal[1],
    typing_extensions.Literal['a'], typing.Annotated[int, 1], typing.Annotated[typing.Optional[int], []],
    typing.Callable[[int], str], typing.Callable[..., int], typing.Type[int], type[int], typing.ClassVar[int],
    typing.DefaultDict[str, int], collections.defaultdict[str, int], typing.Generator[int, None, None],
    typing.Required[int], typing.List[typing.List['Plain']], typing.Unpack[typing.Tuple[int]], typing.ChainMap[str, int],
    lambda: 1, property(), staticmethod(len), classmethod(len),
]


@check.workload(quick=900, thorough=15000)
def questions(case):
    """Each predicate answers yes or no."""
    rng = case.rng
    for _ in range(8):
        roll = rng.random()
        if roll < 0.25:
            thing = rng.choice(KINDS)()
        elif roll < 0.3:
            thing = rng.choice(KINDS)
        elif roll < 0.65:
            thing = rng.choice(THINGS)
        elif roll < 0.85:
            thing = draw(case).t
        else:
            thing = gen.typed_value(case, draw(case))
        case.note(thing=repr(thing)[:200])
        for name in PREDICATES:
            seen = observe(getattr(u, name), thing)
            case.event('questions')
            case.distinct((name, repr(thing)[:80]))
            case.check(
                seen.error is None and (seen.value is True or seen.value is False), f'{name} does not answer',
                observed=seen,
            )
        for name, fn in (('get_type', u.get_type), ('get_type_name', u.get_type_name)):
            seen = observe(fn, thing)
            case.check(seen.error is None, f'{name} does not answer', observed=seen)
        case.check(isinstance(u.get_type_name(thing), str), 'the name of a type is no string')


@check.workload(quick=1200, thorough=20000)
def values_and_types(case):
    """A value is what its type says."""
    rng = case.rng
    if rng.random() < 0.5:
        value = gen.typed_value(case, draw(case))
    else:
        value = rng.choice((*THINGS, *[kind() for kind in KINDS]))
    if isinstance(value, (type, types.GenericAlias, types.ModuleType, unittest.mock.Mock)) or (
        getattr(type(value), '__module__', '') in ('typing', 'typing_extensions', 'types')
        and not isinstance(value, (types.MappingProxyType, types.SimpleNamespace))
    ):
        return
    t = type(value)
    case.event('values and their types')
    case.note(value=repr(value)[:200], type=t)
    case.distinct(('value', repr(value)[:100], t.__name__))

    def agree(a, b, what):
        case.check(bool(a) == bool(b), what, value_says=a, type_says=b)
    agree(u.is_obj_instance(value), True, 'a value is no instance')
    agree(u.is_obj_instance(t), False, 'a type is an instance')
    case.check(u.get_type(value) is t, 'the type of a value', observed=u.get_type(value))
    case.check(u.get_type(t) is t, 'the type of a type', observed=u.get_type(t))
    agree(u.is_sequence(value), u.is_sequence_type(t), 'sequences and their types')
    agree(u.is_mapping(value), u.is_mapping_type(t), 'mappings and their types')
    agree(u.is_primitive(value), u.is_primitive_type(t), 'primitives and their types')
    agree(u.is_namedtuple(value), u.is_namedtuple_type(t), 'named tuples and their types')
    agree(u.is_typed_namedtuple(value), u.is_typed_namedtuple_type(t), 'typed named tuples and their types')
    agree(u.is_primitive(value), isinstance(value, (int, float, str)), 'primitives')
    agree(u.is_namedtuple(value), isinstance(value, tuple) and hasattr(value, '_fields'), 'named tuples')
    if isinstance(value, (list, tuple, collections.deque, collections.UserList, range)):
        agree(u.is_sequence(value), True, 'sequences')
    if isinstance(value, (dict, collections.UserDict, types.MappingProxyType, collections.ChainMap)):
        agree(u.is_mapping(value), True, 'mappings')
    if isinstance(value, (str, bytes, int, float, complex, set, type(None), slice, *KINDS)):
        agree(u.is_mapping(value) or u.is_sequence(value), False, 'no container')
    agree(u.is_sequence(value) and u.is_mapping(value), False, 'both a sequence and a mapping')
    for thing in (value, t):
        agree(u.is_sequence_type(thing) and u.is_mapping_type(thing), False, 'both a sequence and a mapping type')
        for name in ('is_sequence', 'is_mapping', 'is_primitive', 'is_namedtuple'):
            agree(
                getattr(u, name)(thing) and getattr(u, f'{name}_type')(thing), False,
                'both a value and a type', 
            )
    agree(u.is_missing(value), isinstance(value, str) and value == '???' or value is dataclasses.MISSING, 'missing values')


def same_type(a, b):
    return a is b or a == b


@check.workload(quick=1200, thorough=20000)
def spellings(case):
    """The same answers for all spellings of a type."""
    rng = case.rng
    spec = gen.draw(case, depth=(0, 1, 1, 2))
    t = spec.t
    if t is None or isinstance(t, (str, typing.ForwardRef)):
        return
    key = rng.choice((str, int, typing.Any))
    case.note(type=spec)
    case.distinct(('spelling', spec.label))
    note = rng.choice(('x', 1, [], Tensor()))
    case.event('spellings')
    for form in (
        typing.Optional[t], typing.Union[t, None], typing.Union[None, t], typing.Annotated[typing.Optional[t], note],
        *([t | None, typing.Annotated[t | None, note, 2]] if isinstance(t, type) else []),
    ):
        noneish = typing.get_origin(t) in (typing.Union, types.UnionType)
        if t is None or t is type(None):
            break
        case.check(u.is_optional(form), 'an optional is none', form=form)
        inner = u.get_optional_type(form)
        case.check(not u.is_optional(inner), 'an optional stays one', form=form, observed=inner)
        if not noneish:
            case.check(same_type(inner, t), 'the type of an optional', form=form, observed=inner)
        else:
            arms = [a for a in typing.get_args(t) if a is not type(None)]
            case.check(same_type(inner, typing.Union[tuple(arms)]), 'the types of an optional', form=form, observed=inner)
    expected = type(None) in typing.get_args(t) and typing.get_origin(t) in (typing.Union, types.UnionType)
    stripped = t
    while u.is_annotated(stripped):
        stripped = stripped.__origin__
        expected = u.is_optional(stripped)
    case.check(u.is_optional(t) == expected, 'optional or not', type=t)
    if not expected:
        seen = observe(u.get_optional_type, t)
        case.check(isinstance(seen.error, ValueError), 'an optional of nothing', observed=seen)
    annotated = typing.Annotated[t, note]
    case.check(u.is_annotated(annotated), 'annotated types')
    if not u.is_annotated(t):
        case.check(u.get_annotations(annotated)[-1] is note, 'annotations')
        case.check(not u.is_annotated(t), 'not annotated')
        case.check(isinstance(observe(u.get_annotations, t).error, ValueError), 'annotations of nothing')
        case.check(u.get_type_name(annotated) == u.get_type_name(t), 'the name of an annotated type', observed=u.get_type_name(annotated))
        if isinstance(t, type) and not isinstance(t, types.GenericAlias):
            case.check(u.get_type_name(t) == t.__name__, 'the name of a class', observed=u.get_type_name(t))
    for form in (
        typing.List[t], list[t], typing.Sequence[t], collections.abc.Sequence[t], typing.Tuple[t, ...], tuple[t, ...],
        typing.Deque[t], collections.deque[t], collections.abc.MutableSequence[t],
    ):
        for spelled in (form, typing.Annotated[form, note]):
            case.check(
                same_type(u.inspect_sequence_type(spelled), t), 'the content of a sequence',
                form=spelled, observed=u.inspect_sequence_type(spelled),
            )
        case.check(u.is_sequence_type(form) and not u.is_mapping_type(form), 'a sequence type', form=form)
        case.check(not u.is_fixed_size_tuple_type(form) and not u.is_empty_tuple_type(form), 'of no fixed size', form=form)
    for form in (
        typing.Dict[key, t], dict[key, t], typing.Mapping[key, t], collections.abc.MutableMapping[key, t],
        typing.DefaultDict[key, t], collections.defaultdict[key, t], typing.OrderedDict[key, t],
    ):
        for spelled in (form, typing.Annotated[form, note]):
            info = u.inspect_mapping_type(spelled)
            case.check(
                same_type(info.key, key) and same_type(info.value, t), 'the content of a mapping',
                form=spelled, observed=info,
            )
        case.check(u.is_mapping_type(form) and not u.is_sequence_type(form), 'a mapping type', form=form)
        case.check(
            u.is_defaultdict_type(form) == (typing.get_origin(form) is collections.defaultdict), 'default dicts', form=form,
        )
    for form in (typing.Tuple[t], tuple[t], typing.Tuple[t, t], tuple[t, int]):
        case.check(u.is_fixed_size_tuple_type(form), 'of fixed size', form=form)
        case.check(not u.is_empty_tuple_type(form), 'not empty', form=form)
    for form in (typing.Tuple[()], tuple[()]):
        case.check(u.is_empty_tuple_type(form) and u.is_fixed_size_tuple_type(form), 'the empty tuple', form=form)


WORDS = ['', 'a', 'ab', 'abc', 'abd', 'name', 'names', 'x y', 'é', '0', 'true', 'A', '?', '.']
TRUE = ['1', 'true', 'y', 'yes', 'on']
FALSE = ['0', 'false', 'n', 'no', 'off']


@check.workload(quick=1500, thorough=30000)
def helpers(case):
    rng = case.rng
    case.event('helpers')
    data = rng.randbytes(rng.choice((0, 1, 2, 3, 4, 5, 7, 20)))
    text = u.bytes_to_base64(data)
    case.note(data=data, text=text)
    case.distinct(data)
    case.check(isinstance(text, str) and set(text) <= set(
        'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_=',
    ), 'not safe in urls')
    for form in (text, text.rstrip('=')):
        seen = observe(u.base64_to_bytes, form)
        case.check(seen.error is None and seen.value == data, 'bytes are not kept', observed=seen, form=form)
    word = rng.choice((*TRUE, *FALSE, *WORDS, *(w.upper() for w in TRUE + FALSE), 'True', 'oN', ' on', 'yes '))
    seen = observe(u.str_to_bool, word)
    expected = True if word.lower() in TRUE else False if word.lower() in FALSE else None
    case.note(word=word, observed=seen)
    if expected is None:
        case.check(isinstance(seen.error, ValueError), 'no boolean')
    else:
        case.check(seen.error is None and seen.value is expected, 'a boolean')
    number = rng.choice((specs.rand_int(rng), specs.rand_float(rng)))
    seen = observe(u.primitive_to_bool, number)
    case.note(number=number, observed=seen)
    if number in (0, 1):
        case.check(seen.error is None and seen.value is bool(number), 'a boolean')
    else:
        case.check(isinstance(seen.error, ValueError), 'no boolean')
    number = specs.rand_float(rng)
    seen = observe(u.float_to_int, number)
    case.note(number=number, observed=seen)
    if number == number and abs(number) != float('inf') and number == int(number):
        case.check(seen.error is None and type(seen.value) is int and seen.value == number, 'an integer')
    else:
        case.check(isinstance(seen.error, (ValueError, OverflowError)), 'no integer')
    thing = rng.choice((None, 'null', 'None', 'NULL', '???', dataclasses.MISSING, type(None), 0, '', 'x', [], *[k() for k in KINDS]))
    seen = observe(u.cast_none, thing)
    case.note(thing=thing, observed=seen)
    none = thing is None or thing is type(None) or thing is dataclasses.MISSING or (
        isinstance(thing, str) and thing.lower() in ('null', 'none', '???')
    )
    case.check(
        seen.error is None and seen.value is None if none else isinstance(seen.error, ValueError), 'null or not',
    )
    candidates = [rng.choice(WORDS) for _ in range(rng.randrange(5))]
    word = rng.choice(WORDS)
    closest = u.get_closest(word, candidates)
    case.note(word=word, candidates=candidates, observed=closest)
    case.check(closest is None or closest in candidates, 'the closest is no candidate')
    if word in candidates and word:
        case.check(closest == word, 'another one is closer than itself')
    message = u.get_closest_error_message(word, candidates, 'thing')
    case.check(
        message.startswith(f'unknown thing "{word}"') and ('did you mean' in message) == bool(closest)
        and (not closest or f'"{closest}"?' in message), 'the message', observed=message,
    )
    doc = rng.choice(('', 'x', 'Short.\n\nLong.', 'Short.\n\nArgs:\n    x: int.\n', ':param', ':param x: y', 'a\n-\nb', '\n', *specs_texts(rng)))
    seen = observe(u.extract_description, doc)
    case.note(doc=doc, observed=seen)
    case.check(seen.error is None and isinstance(seen.value, str), 'no description')
    cls = type('Cls', (), {'__annotations__': {'a': int, 'b': list}, 'a': 1, 'b': dataclasses.field(default_factory=list)})
    made = u.as_dataclass(u.as_dataclass(cls))
    case.check(made().b == [] and made().b is not made().b and made(2).a == 2, 'a dataclass made twice')


def specs_texts(rng):
    return [specs.text(rng) for _ in range(2)]


# -- classes that are compared by their metaclass --------------------------------

class Expression:
    """The result of a comparison, like that of a query or a formula."""


class EqualMeta(type):
    def __eq__(cls, other):
        return True

    def __ne__(cls, other):
        return False

    __hash__ = type.__hash__


class ExpressionMeta(type):
    def __eq__(cls, other):
        return Expression()

    def __ne__(cls, other):
        return Expression()

    __hash__ = type.__hash__


class UnequalMeta(type):
    def __eq__(cls, other):
        return False

    def __ne__(cls, other):
        return True

    __hash__ = type.__hash__


METACLASSES = [EqualMeta, EqualMeta, ExpressionMeta, UnequalMeta]


def compared_class(metaclass, annotations, defaults):
    bases = () if metaclass is type else (metaclass('Base', (), {}),)
    cls = types.new_class('Compared', bases, {'metaclass': metaclass}, lambda ns: ns.update(
        {
            '__annotations__': dict(annotations), '__module__': __name__,
            # python asks for the signature of a class without one
            '__doc__': 'Compared by its metaclass.', **defaults,
        },
    ))
    return dataclasses.dataclass(cls)


def bare(seen, cls):
    """Texts of types are those of python."""
    if seen.error is not None:
        return type(seen.error).__name__, getattr(seen.error, 'path', None)
    return re.sub('0x[0-9a-f]+', '', freeze(seen.value)) if not isinstance(seen.value, (tuple, str)) else repr(seen.value)


CONTAINERS = [
    (list, [1, 2], (1, 2)), (tuple, [1], (1,)), (collections.deque, [3], (3,)), (collections.UserList, [4, 5], (4, 5)),
    (dict, {'a': 1}, {'a': 1}), (collections.OrderedDict, {'b': 1, 'a': 2}, {'b': 1, 'a': 2}),
    (collections.UserDict, {'a': 1}, {'a': 1}), (set, None, None), (list, [], ()), (dict, {}, {}),
]


@check.workload(quick=300, thorough=6000)
def compared_containers(case):
    """Containers whose class has a metaclass with an equality."""
    rng = case.rng
    outcomes = []
    base, element, back = rng.choice(CONTAINERS)
    metaclass = rng.choice(METACLASSES)
    form = rng.choice((
        lambda c: c, lambda c: c, lambda c: typing.Optional[c], lambda c: typing.List[c], lambda c: typing.Dict[str, c],
        lambda c: typing.Tuple[int, c], lambda c: dataclasses.make_dataclass('Has', [('a', c)], eq=False),
    ))
    elements = [element, [element], {'a': element}, [1, element], 1, 'x', None, '???']
    doubled = None
    for meta in (metaclass, type):
        bases = (base,)
        if meta is not type:
            # the class has the metaclass of its base as well
            doubled = type('Meta', (meta, type(base)), {}) if type(base) is not type else meta
            made = types.new_class('Kind', bases, {'metaclass': doubled}, lambda ns: ns.update({'__module__': __name__, '__doc__': 'Kind.'}))
        else:
            made = types.new_class('Kind', bases, {}, lambda ns: ns.update({'__module__': __name__, '__doc__': 'Kind.'}))
        t = form(made)
        got = []
        for e in elements:
            seen = observe(marsh.unmarshal, t, e)
            found = []

            def visit(value):
                if type(value) is made:
                    found.append((repr(e), type(value) is made))
                if dataclasses.is_dataclass(value):
                    visit(value.a)
                if isinstance(value, (list, tuple, collections.deque)):
                    for item in value:
                        visit(item)
                elif isinstance(value, dict):
                    for item in value.values():
                        visit(item)
            if seen.error is None:
                visit(seen.value)
                again = observe(marsh.marshal, seen.value)
                got.append(('marshal', repr(e), type(again.error), repr(again.value)))
            got.append((repr(e), type(seen.error), found))
        case.note(type=t, base=base.__name__, metaclass=metaclass.__name__)
        case.event('compared containers', sum(bool(g[2]) for g in got if g[0] != 'marshal'))
        case.distinct((str(t), base.__name__, metaclass.__name__))
        if meta is type and base is not set and t is made:
            case.check(any(g[2] for g in got), 'no container of the class', observed=got)
        outcomes.append(got)
    for a, b in zip(*outcomes):
        case.check(a == b, 'a container is treated differently because of its metaclass', compared=a, plain=b)


@check.workload(quick=500, thorough=10000)
def compared_classes(case):
    """The equality of classes is up to their metaclass."""
    rng = case.rng
    fields = {
        name: rng.choice((int, str, typing.List[int], typing.Optional[int], typing.Dict[str, int], complex))
        for name in rng.sample(('x', 'y', 'z'), rng.choice((1, 2)))
    }
    defaults = {}
    if rng.random() < 0.5:
        name = list(fields)[-1]
        defaults[name] = dataclasses.field(default_factory=rng.choice((list, lambda: 3)))
    metaclass = rng.choice(METACLASSES)
    inner = {n: rng.choice((1, '1', [1], None, {'a': 1}, 'x')) for n in fields}
    levels = rng.choice((0, 0, 1, 2, 3))
    nested = rng.choice((lambda c: c, lambda c: c, lambda c: typing.Optional[c], lambda c: typing.Annotated[c, 'x']))
    for _ in range(levels):
        inner = rng.choice(({'inner': inner}, {}, '???', [inner], {'inner': inner, 'other': rng.choice(({}, '???', inner))}))
    elements = [
        inner, list(inner.values()) if isinstance(inner, dict) else inner, [inner], {'a': inner}, [inner, 1], [1, inner],
        None, '1', 1, {}, [], '???', {'a': '???'}, {'a': {}}, ['???', 1],
    ]
    form = rng.choice((
        lambda c: c, lambda c: c, lambda c: typing.Optional[c], lambda c: typing.List[c], lambda c: typing.Dict[str, c],
        lambda c: typing.Union[int, c], lambda c: typing.Union[c, typing.List[c]], lambda c: typing.Tuple[c, int],
        lambda c: typing.Tuple[int, c], lambda c: typing.Tuple[c, ...], lambda c: typing.Tuple[c],
        lambda c: typing.Annotated[c, 'x'], lambda c: list[c], lambda c: typing.Sequence[c],
        lambda c: dataclasses.make_dataclass('Outer', [('a', c), ('b', typing.Optional[c], None)]),
        lambda c: typing.Union[str, int, c], lambda c: typing.Deque[c],
    ))
    outcomes = []
    for meta in (metaclass, type):
        cls = compared_class(meta, fields, defaults)
        for _ in range(levels):
            cls = compared_class(
                meta, {'inner': nested(cls), 'other': nested(cls)}, {'other': dataclasses.field(default='other')},
            )
        t = form(cls)
        case.note(type=t, metaclass=metaclass.__name__, fields=fields)
        case.event('compared classes')
        seen = [observe(marsh.unmarshal, t, element) for element in elements]
        got = [(repr(e), bare(s, cls)) for e, s in zip(elements, seen)]
        for s in seen:
            if s.error is None:
                again = observe(marsh.marshal, s.value)
                got.append(('marshal', bare(again, cls)))
                got.append(('cast', bare(observe(marsh.cast, t, s.value), cls)))
        schema = observe(marsh.schema.UnmarshalSchema, t)
        got.append(('schema', type(schema.error), type(schema.value)))
        if schema.error is None:
            got.append(('text', str(schema.value)))
            got.append(('fields', bare(observe(
                lambda: [*(schema.value.doc(2).fields or ())],
            ), cls)))
        for name in PREDICATES:
            if name == 'is_callable':
                # python inspects no signatures of classes that equal `type`
                continue
            got.append((name, observe(getattr(u, name), t).value))
            got.append((name, observe(getattr(u, name), cls).value))
        for name, fn in (
            ('sequence', u.inspect_sequence_type), ('mapping', u.inspect_mapping_type), ('optional', u.get_optional_type),
            ('type', u.get_type),
        ):
            answer = observe(fn, t)
            got.append((name, type(answer.error).__name__, answer.value is cls))
        space = marsh.namespaces.new('c34_compared', object)
        try:
            space.register(cls, name='compared')
            got.append(('find', [observe(space.find_class, c).value for c in (int, cls, complex, Plain)]))
            got.append(('subclasses', [observe(lambda c=c: list(space.find_subclasses(c))).value for c in (int, cls, Plain)]))
        finally:
            del marsh.namespaces['c34_compared']
        outcomes.append(got)
        case.distinct((str(t), metaclass.__name__, repr(fields)))
    for a, b in zip(*outcomes):
        case.check(a == b, 'a class is treated differently because of its metaclass', compared=a, plain=b)
