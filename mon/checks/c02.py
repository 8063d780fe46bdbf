"""C02: marshal yields plain JSON-like elements"""
import array
import collections
import dataclasses
import datetime
import decimal
import enum
import json
import types
import typing
import uuid

import omegaconf

import marsh

from .. import gen, refmarshal, specs
from ..core import Check
from ..oracles import observe
from ..values import freeze, is_element, same_element

check = Check(
    'C02',
    scale=20,
    rule=(
        'Random python values: instances of random type hints, untyped '
        'nestings of heterogeneous containers, subclasses of the builtin '
        'types, and values without any element. The observed element is '
        'compared with a reference model. Non-trivial: distinct elements.'
    ),
    assumptions=[
        'Keys of mappings that are marshaled into the same string collide.',
    ],
)
check.between = gen.clear_caches
check.require(**{
    'marshaled': 3000,
    'unsupported values': 100,
    'interpolations': 100,
})


class MyDict(dict):
    pass


class MyIntFlagless(enum.Enum):
    ONE = 1
    TWO = 'two'


class IntKind(enum.IntEnum):
    A = 1
    B = 20


class SubBytes(bytes):
    pass


class Bag:
    """Only iterable."""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


@dataclasses.dataclass
class Point:
    x: object
    y: object = None
    hidden: int = dataclasses.field(default=5, init=False)


Pair = collections.namedtuple('Pair', ['left', 'right'])


# the only value of a literal is its element
LITERALS = [
    typing.Literal[1], typing.Literal['x'], typing.Literal[None], typing.Literal[True], typing.Literal[b'x'],
    typing.Literal[MyIntFlagless.TWO], typing.Literal[IntKind.B], typing.Literal[0],
]
VIEWS = [
    lambda: bytearray(b'ab'), lambda: memoryview(b'ab'), lambda: array.array('d', [1.5, 2.0]),
    lambda: {'a': 1, 'b': b'x'}.keys(), lambda: {'a': 1, 'b': b'x'}.values(), lambda: {'a': 1, 'b': b'x'}.items(),
    lambda: collections.Counter('aab'), lambda: collections.ChainMap({'a': 1}, {'a': b'x', 'b': 1j}),
    lambda: collections.defaultdict(list, {'a': [b'x']}),
    lambda: range(3, 0, -1),
]


def untyped(rng, depth):
    if depth <= 0 or rng.random() < 0.3:
        return rng.choice(
            (
                lambda: specs.rand_scalar(rng),
                lambda: specs.rand_scalar(rng),
                lambda: specs.IntSub(specs.rand_int(rng)),
                lambda: specs.StrSub(specs.text(rng)),
                lambda: specs.LoudStr(specs.text(rng)),
                lambda: specs.FloatSub(specs.rand_float(rng)),
                lambda: rng.choice(list(MyIntFlagless)),
                lambda: rng.choice(list(IntKind)),
                lambda: rng.choice(list(specs.Tone)),
                lambda: specs.BytesS().value(rng),
                lambda: SubBytes(specs.BytesS().value(rng)),
                lambda: specs.ComplexS().value(rng),
                lambda: specs.SliceS().value(rng),
                lambda: specs.LoggerS().value(rng),
                lambda: specs.DateTimeS(datetime.datetime).value(rng),
                lambda: specs.DateTimeS(datetime.time).value(rng),
                lambda: specs.DateTimeS(datetime.date).value(rng),
                lambda: rng.choice(LITERALS),
                lambda: rng.choice(VIEWS)(),
            ),
        )()
    n = rng.choice((0, 1, 2, 3))
    items = [untyped(rng, depth - 1) for _ in range(n)]
    roll = rng.randrange(14)
    if roll < 5:
        keys = [rng.choice(
            (
                specs.text(rng), specs.StrSub(specs.text(rng)),
                rng.randrange(100), rng.choice(list(MyIntFlagless)),
                specs.BytesS().value(rng), 1.5,
                specs.LoudStr('k'), None, (1, 2),
                specs.DateTimeS(datetime.datetime).value(rng),
            ),
        ) for _ in range(n)]
        data = {}
        seen = set()
        for key, item in zip(keys, items):
            if refmarshal.marshal_key(key) not in seen:
                seen.add(refmarshal.marshal_key(key))
                data[key] = item
        return rng.choice(
            (dict, MyDict, collections.OrderedDict, types.MappingProxyType,
             specs.MapView, collections.UserDict),
        )(data)
    if roll < 9:
        return rng.choice(
            (list, tuple, collections.deque, collections.UserList),
        )(items)
    if roll == 9:
        hashable = []
        for item in items:
            try:
                hash(item)
                hashable.append(item)
            except TypeError:
                pass
        return rng.choice((set, frozenset))(hashable)
    if roll == 10:
        return Bag(items)
    if roll == 11:
        return Point(
            items[0] if items else 1,
            items[1] if len(items) > 1 else None,
        )
    if roll == 12:
        return Pair(items[0] if items else 1, 2)
    return range(n)


def compare(case, value, element):
    expected = refmarshal.marshal(value)
    case.event('marshaled')
    case.distinct(freeze(element))
    case.note(element=element, expected=expected)
    case.check(is_element(element), 'the element contains other than plain JSON-like values')
    case.check(same_element(element, expected), 'the element differs from the model')
    text = json.dumps(element)
    case.check(
        same_element(json.loads(text), expected),
        'the element does not survive JSON',
    )
    again = marsh.marshal(element)
    case.check(
        same_element(again, expected),
        'marshaling an element must not change it',
        again=again,
    )


@check.workload(quick=2500, thorough=40000)
def untyped_values(case):
    value = untyped(case.rng, case.rng.choice((0, 1, 2, 3)))
    case.note(value=value)
    case.sample(value)
    compare(case, value, marsh.marshal(value))
    second = marsh.marshal(value)
    case.check(
        same_element(second, refmarshal.marshal(value)),
        'a second marshal differs',
        second=second,
    )


@check.workload(quick=1000, thorough=15000)
def typed_values(case):
    spec = gen.draw(
        case,
        accept=lambda s: not gen.no_value(s, (specs.CallS, specs.AnnotatedS)),
    )
    value = gen.typed_value(case, spec)
    case.note(type=repr(spec), value=value)
    compare(case, value, marsh.marshal(value))


def unsupported(rng):
    return rng.choice(
        (
            object(), specs.Opaque(), int, print, lambda: 1, Point,
            decimal.Decimal('1.5'), uuid.UUID(int=5), types.SimpleNamespace(a=1),
            NotImplemented,
        ),
    )


@check.workload(quick=400, thorough=4000)
def values_without_element(case):
    """Anything that contains an unsupported value is a MarshalError."""
    rng = case.rng
    value = unsupported(rng)
    try:
        refmarshal.marshal(value)
        supported = True
    except refmarshal.NotSupported:
        supported = False
    if supported:
        return
    for _ in range(rng.randrange(0, 4)):
        value = rng.choice(
            (
                lambda: [1, value],
                lambda: {'a': value},
                lambda: (value,),
                lambda: Point(1, value),
                lambda: Pair(value, 1),
                lambda: collections.deque([value]),
                lambda: Bag([value]),
            ),
        )()
    outcome = observe(marsh.marshal, value)
    case.note(value=value, observed=repr(outcome))
    case.event('unsupported values')
    case.distinct(repr(value))
    case.check(
        isinstance(outcome.error, marsh.errors.MarshalError),
        'a value without element has to be a MarshalError',
    )


@check.workload(quick=200, thorough=3000)
def omegaconf_containers(case):
    """Containers of omegaconf are marshaled into their content."""
    rng = case.rng

    def scalar():
        return rng.choice((
            lambda: rng.choice(list(specs.Plain)),
            lambda: specs.BytesS().value(rng),
        ))()

    def key(i):
        if not odd:
            return rng.choice('abcdef') + str(i)
        return rng.choice((
            lambda: 'k%d' % i, lambda: i, lambda: i + 0.5, lambda: i % 2 == 0,
            lambda: rng.choice(list(specs.Plain)), lambda: b'b%d' % i,
        ))()

    def plain(depth):
        if odd and depth == 0 and rng.random() < 0.5:
            return scalar()
        if depth == 0 or rng.random() < 0.3:
            while True:
                value = specs.rand_scalar(rng)
                if not odd and rng.random() < 0.15:
                    case.event('interpolations')
                    return rng.choice(('${a0}', '${.b1}', 'x ${a0.b1} y', '${oc.env:HOME}', '${${a0}}', '${nowhere:1}'))
                if isinstance(value, str) and '$' in value:
                    continue
                return value
        if rng.random() < 0.5:
            return [plain(depth - 1) for _ in range(rng.randrange(3))]
        out = {}
        names = set()
        for i in range(rng.randrange(3)):
            k = key(i)
            name = refmarshal.marshal_key(k)
            if name not in names:
                names.add(name)
                out[k] = plain(depth - 1)
        return out

    # values and keys that are no elements
    odd = rng.random() < 0.5
    content = plain(rng.choice((1, 2, 3)))
    if not isinstance(content, (list, dict)):
        content = [content]
    value = omegaconf.OmegaConf.create(content)
    content = refmarshal.marshal(content)
    element = marsh.marshal(value)
    case.note(content=content, element=element)
    case.event('marshaled')
    case.distinct(freeze(element))
    case.check(
        is_element(element) and same_element(element, content),
        'the element differs from the content of the container',
    )
    nested = marsh.marshal({'x': value, 'y': [value]})
    case.check(
        same_element(nested, {'x': content, 'y': [content]}),
        'the element of a nested container differs',
        nested=nested,
    )
