"""Type specifications: generators, and an independent reference model.

A ``Spec`` pairs a type hint with

* ``un(element)``: the reference model of unmarshaling, written from the
  documentation without using any of marsh.  It returns the expected value or
  raises :class:`Err` with the expected path,
* ``value(rng)``: a random instance,
* ``element(rng)``: a random element that is accepted,
* ``conforms(value)``: a structural check against the type hint.

The model never asks marsh for anything.
"""
import base64
import collections
import collections.abc
import dataclasses
import datetime
import enum
import inspect
import logging
import math
import numbers
import types
import typing
from typing import (
    Any,
    DefaultDict,
    Deque,
    Dict,
    List,
    Literal,
    Mapping,
    MutableMapping,
    MutableSequence,
    NamedTuple,
    Optional,
    OrderedDict,
    Protocol,
    Sequence,
    Set,
    SupportsAbs,
    SupportsBytes,
    SupportsComplex,
    SupportsFloat,
    SupportsIndex,
    SupportsInt,
    Tuple,
    TypeVar,
    Union,
    runtime_checkable,
)

from typing_extensions import Annotated, LiteralString, NotRequired, Required, TypedDict

MISSING = '???'
NO = object()


class Err(Exception):
    """Expected failure of an unmarshal."""

    def __init__(self, path=(), missing=False):
        super().__init__(path, missing)
        self.path = tuple(path)
        self.missing = missing

    def under(self, field):
        return Err((field,) + self.path, self.missing)


class Unknown(Exception):
    """The model does not tell what is expected."""


class at:
    """Prepends a field to the path of expected errors."""

    def __init__(self, field):
        self.field = field

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc, tb):
        if isinstance(exc, Err):
            raise exc.under(str(self.field)) from None
        return False


def missing(element):
    return element is dataclasses.MISSING or (
        isinstance(element, str) and element == MISSING
    )


def is_map(element):
    return isinstance(element, collections.abc.Mapping)


def is_seq(element):
    return (
        isinstance(element, collections.abc.Sequence)
        and not isinstance(element, (str, bytes))
    )


def is_prim(element):
    return isinstance(element, (int, float, str))


def has_missing(element):
    if missing(element):
        return True
    if is_map(element):
        return any(map(has_missing, element.keys())) or any(
            map(has_missing, element.values()),
        )
    if is_seq(element):
        return any(map(has_missing, element))
    return False


def escape(field):
    return ''.join('\\' + c if c in '\\"\'.' else c for c in field)


def join(path):
    return '.'.join(escape(field) for field in path if field)


# -- scalars -----------------------------------------------------------------

TRUE = {'1', 'true', 'y', 'yes', 'on'}
FALSE = {'0', 'false', 'n', 'no', 'off'}


def cast_scalar(kind, element):
    """The documented conversion between primitives."""
    if issubclass(kind, bool):
        if isinstance(element, (int, float)) and not isinstance(element, bool):
            if element == 1:
                return True
            if element == 0:
                return False
            raise ValueError
        if isinstance(element, bool):
            return element
        text = element.lower()
        if text in TRUE:
            return True
        if text in FALSE:
            return False
        raise ValueError
    if issubclass(kind, int):
        if isinstance(element, str):
            try:
                element = int(element)
            except ValueError:
                element = float(element)
        if isinstance(element, float):
            if math.isnan(element) or math.isinf(element):
                raise ValueError
            if element != math.floor(element):
                raise ValueError
            element = int(element)
        return kind(element)
    if issubclass(kind, float):
        return kind(element)
    return kind(element)


WORDS = (
    'a', 'b', 'x', 'name', 'value', 'yes', 'No', 'ON', 'true', 'False',
    'null', 'None', '0', '1', '-1', '007', '1.0', '1e3', '1.5', 'nan', 'inf',
    '-inf', ' 12 ', '1_000', '', ' ', '.', 'a.b', "it's", '"q"', '\\', 'é',
    '日本', '\u0663', '\n', 'path', 'items', 'keys', '{', '[1]', '1:2',
    '9007199254740993', 'ab cd', '${x}', '#', 'a=b', 'A', '2020-01-02',
)

INTS = (
    0, 1, -1, 2, 3, 7, 10, 255, -128, 2**31, 2**53 + 1, -2**63, 10**30,
)

FLOATS = (
    0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 3.0, 0.1, 1e-300, 1e300, 1e22,
    123456789.125, float('inf'), float('-inf'), float('nan'), 5e-324,
)


def rand_str(rng):
    roll = rng.random()
    if roll < 0.5:
        return rng.choice(WORDS)
    if roll < 0.9:
        return ''.join(
            rng.choice('abcXYZ019 ._-"\'\\éß日\t=[]{},:')
            for _ in range(rng.randrange(0, 7))
        )
    return ''.join(
        chr(rng.choice((rng.randrange(32, 0x250), rng.randrange(0x4e00, 0x4e80))))
        for _ in range(rng.randrange(0, 5))
    )


def text(rng):
    while True:
        value = rand_str(rng)
        if value != MISSING:
            return value


def rand_int(rng):
    if rng.random() < 0.6:
        return rng.choice(INTS)
    return rng.randrange(-10**6, 10**6) * rng.choice((1, 1, 10**9))


def rand_float(rng):
    if rng.random() < 0.6:
        return rng.choice(FLOATS)
    return rng.uniform(-1000, 1000)


def rand_scalar(rng):
    roll = rng.randrange(6)
    if roll == 0:
        return None
    if roll == 1:
        return rng.random() < 0.5
    if roll == 2:
        return rand_int(rng)
    if roll == 3:
        return rand_float(rng)
    return text(rng)


def rand_element(rng, depth=3, holes=0.0):
    """Any JSON-like element."""
    if holes and rng.random() < holes:
        return rng.choice((MISSING, dataclasses.MISSING))
    roll = rng.random()
    if depth <= 0 or roll < 0.5:
        return rand_scalar(rng)
    n = rng.choice((0, 1, 1, 2, 3))
    if roll < 0.75:
        items = [rand_element(rng, depth - 1, holes) for _ in range(n)]
        return rng.choice((list, tuple))(items)
    return {
        text(rng): rand_element(rng, depth - 1, holes)
        for _ in range(n)
    }


class MapView(collections.abc.Mapping):
    """A mapping that is not a dict."""

    def __init__(self, data):
        self._data = dict(data)

    def __getitem__(self, key):
        return self._data[key]

    def __iter__(self):
        return iter(self._data)

    def __len__(self):
        return len(self._data)

    def __repr__(self):
        return f'MapView({self._data!r})'


def disguise(rng, element, p=0.15):
    """Replace containers with other types of mappings and sequences."""
    if isinstance(element, dict):
        out = {k: disguise(rng, v, p) for k, v in element.items()}
        if rng.random() < p:
            return rng.choice(
                (
                    types.MappingProxyType,
                    collections.OrderedDict,
                    MapView,
                    collections.UserDict,
                ),
            )(out)
        return out
    if isinstance(element, (list, tuple)):
        out = [disguise(rng, v, p) for v in element]
        if rng.random() < p:
            return rng.choice(
                (collections.deque, collections.UserList, tuple, list),
            )(out)
        return type(element)(out)
    return element


# -- base --------------------------------------------------------------------


class Spec:

    t: Any = None
    label = '?'
    hashable = True
    lossless = True
    """Does the type alone determine the value that is read back?"""
    keyable = False
    """May be used as the type of keys of mappings."""

    def children(self):
        return ()

    def walk(self):
        yield self
        for child in self.children():
            yield from child.walk()

    def __repr__(self):
        return self.label

    # model
    def un(self, element, default=NO):
        if missing(element):
            if default is not NO:
                return default()
            return self.absent()
        return self.read(element)

    def absent(self):
        raise Err(missing=True)

    def read(self, element):
        raise NotImplementedError

    def value(self, rng):
        raise NotImplementedError

    def element(self, rng):
        raise NotImplementedError

    def conforms(self, value):
        raise NotImplementedError


class AnyS(Spec):
    t = Any
    label = 'Any'
    hashable = False

    def read(self, element):
        if has_missing(element):
            raise Err(missing=True)
        return element

    def value(self, rng):
        return _canonical(rand_element(rng, 2))

    def element(self, rng):
        return rand_element(rng, 2)

    def conforms(self, value):
        return True


def _canonical(element):
    if isinstance(element, dict):
        return {k: _canonical(v) for k, v in element.items()}
    if isinstance(element, (list, tuple)):
        return tuple(map(_canonical, element))
    return element


class NoneS(Spec):
    label = 'None'

    def __init__(self, t=None):
        self.t = t

    def un(self, element, default=NO):
        if element is None or missing(element):
            return None
        raise Err()

    def value(self, rng):
        return None

    def element(self, rng):
        return None

    def conforms(self, value):
        return value is None


class PrimS(Spec):
    keyable = True

    def __init__(self, t, kind=None, label=None):
        self.t = t
        self.kind = kind or t
        self.label = label or self.kind.__name__

    def read(self, element):
        if not is_prim(element):
            raise Err()
        try:
            return cast_scalar(self.kind, element)
        except (ValueError, OverflowError):
            raise Err() from None

    def value(self, rng):
        kind = self.kind
        if issubclass(kind, enum.Enum):
            return rng.choice(list(kind))
        if issubclass(kind, bool):
            return rng.random() < 0.5
        if issubclass(kind, int):
            return kind(rand_int(rng))
        if issubclass(kind, float):
            return kind(rand_float(rng))
        return kind(text(rng))

    def element(self, rng):
        kind = self.kind
        if issubclass(kind, enum.Enum):
            raw = rng.choice(list(kind)).value
            return rng.choice((raw, str(raw)))
        if issubclass(kind, bool):
            return rng.choice(
                (True, False, 1, 0, 1.0, 0.0, 'yes', 'No', 'ON', 'off', 'y',
                 'N', 'true', 'FALSE', '1', '0'),
            )
        if issubclass(kind, int):
            n = rand_int(rng)
            forms = [n, str(n), f' {n} ']
            if abs(n) < 2**53:
                forms += [float(n), str(float(n))]
            if n in (0, 1):
                forms += [bool(n)]
            return rng.choice(forms)
        if issubclass(kind, float):
            x = rand_float(rng)
            return rng.choice((x, repr(x), rng.choice(INTS), True, '1_0.5'))
        return rng.choice((text(rng), rand_int(rng), 1.5, True))

    def conforms(self, value):
        return isinstance(value, self.kind)


class IntSub(int):
    pass


class StrSub(str):
    pass


class FloatSub(float):
    pass


class LoudStr(str):
    """A str that presents itself differently."""

    def __str__(self):
        return 'loud:' + str.__str__(self)


class Level(enum.IntEnum):
    LOW = 1
    MID = 5
    HIGH = 10


class Tone(str, enum.Enum):
    DARK = 'dark'
    LIGHT = 'bright'
    DOT = 'a.b'


class Plain(enum.Enum):
    LEFT = 'l'
    RIGHT = 'r'
    UP = 2


class BytesS(Spec):
    t = bytes
    label = 'bytes'
    keyable = True

    def read(self, element):
        if not is_prim(element):
            raise Err()
        if not isinstance(element, str):
            raise Unknown
        if not all(
            c.isascii() and (c.isalnum() or c in '-_') for c in element.rstrip('=')
        ):
            raise Unknown
        stripped = element.rstrip('=')
        if len(stripped) % 4 == 1:
            raise Unknown
        try:
            value = base64.urlsafe_b64decode(stripped + '=' * (-len(stripped) % 4))
        except Exception:  # noqa: BLE001
            raise Unknown from None
        if base64.urlsafe_b64encode(value).decode().rstrip('=') != stripped:
            raise Unknown
        return value

    def value(self, rng):
        return bytes(rng.randrange(256) for _ in range(rng.randrange(0, 9)))

    def element(self, rng):
        encoded = base64.urlsafe_b64encode(self.value(rng)).decode()
        return encoded.rstrip('=') if rng.random() < 0.3 else encoded

    def conforms(self, value):
        return isinstance(value, bytes)


class ComplexS(Spec):
    t = complex
    label = 'complex'

    def read(self, element):
        number = PrimS(float)
        try:
            if is_prim(element):
                return complex(number.read(element))
            if is_map(element):
                parts = {}
                for key in element:
                    name = PrimS(str).un(key)
                    if name not in ('real', 'imag'):
                        if str(name) in ('0', '1'):
                            raise Unknown
                        raise Err()
                    parts[name] = number.un(element[key])
                return complex(**parts)
            if is_seq(element):
                if len(element) > 2:
                    raise Err()
                return complex(*[number.un(item) for item in element])
        except Err:
            raise Err() from None
        raise Err()

    def value(self, rng):
        return complex(
            rand_float(rng),
            rng.choice((0.0, 1.0, rand_float(rng))),
        )

    def element(self, rng):
        a, b = rng.uniform(-5, 5), rng.uniform(-5, 5)
        return rng.choice(
            (a, str(a), [a, b], (str(a), b), {'real': a, 'imag': b},
             {'imag': b}, {'real': str(a)}, [a], [], {}),
        )

    def conforms(self, value):
        return isinstance(value, complex)


class EnumS(Spec):
    keyable = True

    def __init__(self, t, label=None):
        self.t = t
        self.label = label or t.__name__

    def read(self, element):
        if not is_prim(element):
            raise Err()
        if isinstance(element, str):
            for member in self.t:
                if member.name == element:
                    return member
        for member in self.t:
            for literal in (member.name, member.value):
                if not is_prim(literal):
                    continue
                try:
                    if cast_scalar(type(literal), element) == literal:
                        return member
                except (ValueError, OverflowError):
                    pass
        raise Err()

    def value(self, rng):
        return rng.choice(list(self.t))

    def element(self, rng):
        member = rng.choice(list(self.t))
        if is_prim(member.value):
            return rng.choice((member.name, member.value, str(member.value)))
        return member.name

    def conforms(self, value):
        return isinstance(value, self.t)


_ORDERS = {}


def fresh():
    """Forget the order in which unions and literals were declared.

    The `typing` module hands out the first of several equal type hints,
    `List[Union[int, str]]` and `List[Union[str, int]]` are equal."""
    _ORDERS.clear()
    for cleanup in getattr(typing, '_cleanups', ()):
        cleanup()


def first_declared(t, parts):
    return _ORDERS.setdefault(t, (t, parts))


class LitS(Spec):
    keyable = True

    def __init__(self, values):
        values = tuple(values)
        self.t, self.values = first_declared(Literal[values], values)
        self.label = f'Literal{list(self.values)!r}'

    def absent(self):
        if None in self.values:
            return None
        raise Err(missing=True)

    def read(self, element):
        for value in self.values:
            if value is None:
                if element is None:
                    return None
                continue
            if isinstance(value, enum.Enum):
                try:
                    if EnumS(type(value)).read(element) is value:
                        return value
                except Err:
                    pass
                continue
            if isinstance(value, bytes):
                try:
                    if BytesS().read(element) == value:
                        return value
                except Err:
                    pass
                continue
            if not is_prim(element):
                continue
            try:
                if cast_scalar(type(value), element) == value:
                    return value
            except (ValueError, OverflowError):
                pass
        raise Err()

    @property
    def lossless(self):
        return True

    def value(self, rng):
        # a value that an earlier literal reads from the
        # same element is not told apart from it
        return rng.choice(self.readable())

    def readable(self):
        out = []
        for value in self.values:
            element = value
            if isinstance(value, enum.Enum):
                element = value.name
            if isinstance(value, bytes):
                element = base64.urlsafe_b64encode(value).decode()
            try:
                read = self.read(element)
            except (Err, Unknown):
                continue
            if type(read) is type(value) and read == value:
                out.append(value)
        return out or [self.values[0]]

    def element(self, rng):
        value = rng.choice(self.values)
        if isinstance(value, enum.Enum):
            return value.name
        if isinstance(value, bytes):
            return base64.urlsafe_b64encode(value).decode()
        if value is None or rng.random() < 0.6:
            return value
        return str(value)

    def conforms(self, value):
        return any(
            type(value) is type(v) and value == v for v in self.values
        )


class DateTimeS(Spec):
    keyable = True

    def __init__(self, t):
        self.t = t
        self.label = t.__name__

    def read(self, element):
        if is_map(element):
            try:
                return self.t(**element)
            except Exception:  # noqa: BLE001
                raise Err() from None
        if is_seq(element):
            try:
                return self.t(*element)
            except Exception:  # noqa: BLE001
                raise Err() from None
        if element is None or isinstance(element, bool):
            raise Err()
        stamp = None
        try:
            stamp = float(str(element))
        except ValueError:
            pass
        if stamp is not None:
            try:
                stamp = datetime.datetime.fromtimestamp(
                    stamp,
                    datetime.timezone.utc,
                )
            except (ValueError, OverflowError, OSError):
                if isinstance(element, str):
                    raise Unknown from None
                raise Err() from None
        elif isinstance(element, str):
            if self.t is datetime.time:
                try:
                    return datetime.time.fromisoformat(element)
                except ValueError:
                    pass
            try:
                stamp = datetime.datetime.fromisoformat(element)
            except ValueError:
                raise Unknown from None
        else:
            raise Err()
        if self.t is datetime.time:
            return stamp.time()
        return stamp

    def value(self, rng):
        zone = None
        if rng.random() < 0.5:
            zone = rng.choice(
                (
                    datetime.timezone.utc,
                    datetime.timezone(
                        datetime.timedelta(minutes=rng.randrange(-1400, 1400)),
                    ),
                    datetime.timezone(
                        datetime.timedelta(seconds=rng.randrange(-80000, 80000)),
                    ),
                ),
            )
        day = datetime.date(
            rng.choice((1, 999, 1970, 2020, 9999, rng.randrange(1, 9999))),
            rng.randrange(1, 13),
            rng.randrange(1, 29),
        )
        time = datetime.time(
            rng.randrange(24),
            rng.randrange(60),
            rng.choice((0, 0, rng.randrange(60))),
            rng.choice((0, 0, 1, 500000, rng.randrange(10**6))),
            tzinfo=zone,
        )
        if self.t is datetime.date:
            return day
        if self.t is datetime.time:
            return time
        return datetime.datetime.combine(day, time)

    def element(self, rng):
        value = self.value(rng)
        forms = [value.isoformat(), value.isoformat()]
        if self.t is not datetime.time:
            forms += [
                rng.randrange(0, 2 * 10**9),
                float(rng.randrange(0, 2 * 10**9)) + 0.5,
                str(rng.randrange(0, 2 * 10**9)),
                {'year': value.year, 'month': value.month, 'day': value.day},
                [value.year, value.month, value.day],
            ]
        else:
            forms += [{'hour': value.hour}, [value.hour, value.minute]]
        return rng.choice(forms)

    def conforms(self, value):
        return isinstance(value, self.t)


class SliceS(Spec):
    t = slice
    label = 'slice'
    hashable = False

    def absent(self):
        return slice(None)

    def read(self, element):
        index = OptS(PrimS(int))
        if is_map(element):
            parts = {}
            for key in element:
                with at(key):
                    if missing(key):
                        raise Err(missing=True)
                    if key not in ('start', 'stop', 'step'):
                        raise Err()
                    parts[key] = index.un(element[key])
            return slice(*(parts.get(k) for k in ('start', 'stop', 'step')))
        if is_seq(element):
            parts = []
            for i, item in enumerate(element):
                with at(i):
                    parts.append(index.un(item))
            if len(parts) > 3:
                raise Err()
            return slice(*parts) if parts else slice(None)
        if not isinstance(element, str):
            raise Err()
        fields = element.split(':')
        if not 2 <= len(fields) <= 3:
            raise Err()
        parts = []
        for field in fields:
            field = field.strip()
            if field.startswith('-'):
                digits = field[1:].strip()
            else:
                digits = field
            if field == '':
                parts.append(None)
            elif digits.isdigit() and digits.isascii():
                parts.append(int(digits) * (-1 if field[0] == '-' else 1))
            elif digits.isascii():
                raise Err()
            else:
                raise Unknown
        return slice(*parts)

    def value(self, rng):
        def index():
            return rng.choice((None, 0, 1, -1, 5, 10**12))
        return slice(index(), index(), index())

    def element(self, rng):
        v = self.value(rng)

        def s(x):
            return '' if x is None else str(x)
        return rng.choice(
            (
                f'{s(v.start)}:{s(v.stop)}:{s(v.step)}',
                f' {s(v.start)} : {s(v.stop)} ',
                [v.start, v.stop],
                [v.start],
                (v.start, v.stop, v.step),
                {'start': v.start, 'step': v.step},
                {},
                [],
            ),
        )

    def conforms(self, value):
        return isinstance(value, slice) and all(
            x is None or isinstance(x, int)
            for x in (value.start, value.stop, value.step)
        )


class LoggerS(Spec):
    t = logging.Logger
    label = 'Logger'
    NAMES = ('mon.a', 'mon.b', 'mon.007', '42', '1.0', 'mon.yes', 'true')

    def absent(self):
        return logging.getLogger()

    def read(self, element):
        if is_prim(element):
            return logging.getLogger(str(element))
        raise Unknown

    def value(self, rng):
        logger = logging.getLogger(rng.choice(self.NAMES))
        return logger

    def element(self, rng):
        return rng.choice(self.NAMES)

    def conforms(self, value):
        return isinstance(value, logging.Logger)


# -- choices -----------------------------------------------------------------


class OptS(Spec):

    def __init__(self, inner, t=None):
        self.inner = inner
        self.t = t if t is not None else Optional[inner.t]
        self.label = f'Optional[{inner.label}]'
        self.hashable = inner.hashable
        self.lossless = inner.lossless

    def children(self):
        return (self.inner,)

    def un(self, element, default=NO):
        if missing(element) and default is not NO:
            return default()
        try:
            return self.inner.un(element)
        except Err:
            if element is None or missing(element):
                return None
            raise

    def value(self, rng):
        # None may be a valid value of the inner type too
        if rng.random() < 0.3:
            return None
        return self.inner.value(rng)

    def element(self, rng):
        return None if rng.random() < 0.25 else self.inner.element(rng)

    def conforms(self, value):
        return value is None or self.inner.conforms(value)


class UnionS(Spec):
    lossless = False

    def __init__(self, arms, t=None, shared=True):
        self.t = t if t is not None else Union[tuple(a.t for a in arms)]
        self.arms = tuple(arms)
        if shared:
            self.t, self.arms = first_declared(self.t, self.arms)
        arms = self.arms
        self.label = f'Union[{", ".join(a.label for a in arms)}]'
        self.hashable = all(a.hashable for a in arms)

    def children(self):
        return self.arms

    def un(self, element, default=NO):
        if missing(element) and default is not NO:
            return default()
        for arm in self.arms:
            try:
                return arm.un(element)
            except Err:
                pass
        raise Err(missing=missing(element))

    def value(self, rng):
        return rng.choice(self.arms).value(rng)

    def element(self, rng):
        return rng.choice(self.arms).element(rng)

    def conforms(self, value):
        return any(arm.conforms(value) for arm in self.arms)


# -- collections -------------------------------------------------------------


class MyList(collections.UserList):
    """A sequence type of the user."""


class SeqS(Spec):
    hashable = False

    def __init__(self, inner, form):
        self.inner = inner
        x = inner.t
        self.form = form
        self.t, self.kind = {
            'List': (List[x], list),
            'list': (list[x], list),
            'Sequence': (Sequence[x], tuple),
            'abcSequence': (collections.abc.Sequence[x], tuple),
            'MutableSequence': (MutableSequence[x], list),
            'Deque': (Deque[x], collections.deque),
            'Tuple...': (Tuple[x, ...], tuple),
            'tuple...': (tuple[x, ...], tuple),
            'Set': (Set[x], set),
            'set': (set[x], set),
        }[form]
        self.label = f'{form}[{inner.label}]'
        self.lossless = inner.lossless
        self.hashable = self.kind is tuple and inner.hashable

    FORMS = (
        'List', 'list', 'Sequence', 'abcSequence', 'MutableSequence',
        'Deque', 'Tuple...', 'tuple...', 'Set', 'set',
    )

    def children(self):
        return (self.inner,)

    def absent(self):
        return self.kind()

    def read(self, element):
        if not is_seq(element):
            raise Err()
        items = []
        for i, item in enumerate(element):
            with at(i):
                items.append(self.inner.un(item))
        try:
            return self.kind(items)
        except TypeError:
            raise Err() from None

    def value(self, rng):
        items = [
            self.inner.value(rng) for _ in range(rng.choice((0, 1, 2, 2, 3)))
        ]
        return self.kind(items)

    def element(self, rng):
        items = [
            self.inner.element(rng) for _ in range(rng.choice((0, 1, 2, 2, 3)))
        ]
        return rng.choice((list, tuple))(items)

    def conforms(self, value):
        return isinstance(value, self.kind) and all(
            map(self.inner.conforms, value),
        )


class BareS(Spec):
    """An unparameterized collection, its content is not converted."""
    hashable = False

    def __init__(self, t, kind, mapping):
        self.t = t
        self.kind = kind
        self.mapping = mapping
        self.label = f'bare {t}'

    def absent(self):
        return self.kind({} if self.mapping else ())

    def read(self, element):
        if not (is_map(element) if self.mapping else is_seq(element)):
            raise Err()
        anything = AnyS()
        if self.mapping:
            out = {}
            for key in element:
                with at(key):
                    out[anything.un(key)] = anything.un(element[key])
            return self.kind(out)
        out = []
        for i, item in enumerate(element):
            with at(i):
                out.append(anything.un(item))
        return self.kind(out)

    def value(self, rng):
        if self.mapping:
            return self.kind(
                {text(rng): _canonical(rand_element(rng, 1)) for _ in range(2)},
            )
        return self.kind([_canonical(rand_element(rng, 1)) for _ in range(2)])

    def element(self, rng):
        if self.mapping:
            return {text(rng): rand_element(rng, 1) for _ in range(2)}
        return [rand_element(rng, 1) for _ in range(2)]

    def conforms(self, value):
        return isinstance(value, self.kind)


BARE = (
    (list, list, False), (List, list, False), (tuple, tuple, False),
    (Tuple, tuple, False), (Sequence, tuple, False),
    (collections.deque, collections.deque, False),
    (dict, dict, True), (Dict, dict, True),
    (Mapping, types.MappingProxyType, True),
    (collections.OrderedDict, collections.OrderedDict, True),
)


class MapS(Spec):
    hashable = False

    def __init__(self, key, inner, form):
        self.key = key
        self.inner = inner
        self.form = form
        k, v = key.t, inner.t
        self.t, self.kind = {
            'Dict': (Dict[k, v], dict),
            'dict': (dict[k, v], dict),
            'Mapping': (Mapping[k, v], types.MappingProxyType),
            'MutableMapping': (MutableMapping[k, v], dict),
            'OrderedDict': (OrderedDict[k, v], collections.OrderedDict),
            'DefaultDict': (DefaultDict[k, v], collections.defaultdict),
        }[form]
        self.label = f'{form}[{key.label}, {inner.label}]'
        self.lossless = key.lossless and inner.lossless

    FORMS = (
        'Dict', 'dict', 'Mapping', 'MutableMapping', 'OrderedDict',
        'DefaultDict',
    )

    def children(self):
        return (self.key, self.inner)

    def make(self, data):
        if self.kind is collections.defaultdict:
            return collections.defaultdict(None, data)
        return self.kind(data)

    def absent(self):
        return self.make({})

    def read(self, element):
        if not is_map(element):
            raise Err()
        out = {}
        for key in element:
            with at(key):
                k = self.key.un(key)
                v = self.inner.un(element[key])
            out[k] = v
        return self.make(out)

    def value(self, rng):
        out = {}
        for _ in range(rng.choice((0, 1, 2, 3))):
            key = self.key.value(rng)
            if key != key:
                continue
            out[key] = self.inner.value(rng)
        return self.make(out)

    def key_element(self, rng):
        for _ in range(20):
            key = self.key.element(rng)
            if key is None:
                continue
            key = key if isinstance(key, str) else str(key)
            try:
                self.key.un(key)
            except (Err, Unknown):
                continue
            return key
        return None

    def element(self, rng):
        out = {}
        for _ in range(rng.choice((0, 1, 2, 3))):
            key = self.key_element(rng)
            if key is not None:
                out[key] = self.inner.element(rng)
        return out

    def conforms(self, value):
        return isinstance(value, self.kind) and all(
            self.key.conforms(k) and self.inner.conforms(value[k])
            for k in value
        )


# -- structured types --------------------------------------------------------


class Field:
    """``kind``: pos, pk, kw, * or **; ``mode`` of the default."""

    def __init__(self, name, spec, kind='pk', default=NO, factory=None):
        self.name = name
        self.spec = spec
        self.kind = kind
        self.default = default
        self.factory = factory
        self.ann = spec.t

    def has_default(self):
        return self.default is not NO or self.factory is not None

    def get_default(self):
        if self.factory is not None:
            return self.factory()
        return self.default

    def __repr__(self):
        mark = {'kw': 'kw ', 'pos': 'pos '}.get(self.kind, '')
        star = self.kind if self.kind in ('*', '**') else ''
        default = ''
        if self.factory is not None:
            default = ' = factory'
        elif self.default is not NO:
            default = f' = {self.default!r}'
        return f'{mark}{star}{self.name}: {self.spec.label}{default}'


def bind(fields, element):
    """The reference model of reading the fields of a structured type.

    Returns positional and keyword values in the order of the fields."""
    if missing(element):
        element = {}
    data, items = {}, []
    if is_map(element):
        data = dict(element)
    elif is_seq(element):
        items = list(element)
    else:
        raise Err()
    values = {}
    extra, extra_kw = [], {}
    for field in fields:
        with at(field.name):
            if field.kind == '*':
                for i, item in enumerate(items):
                    with at(i):
                        extra.append(field.spec.un(item))
                items = []
            elif field.kind == '**':
                for key in list(data):
                    with at(key):
                        extra_kw[key] = field.spec.un(data.pop(key))
            else:
                default = field.get_default if field.has_default() else NO
                if items and field.kind != 'kw':
                    values[field.name] = field.spec.un(items.pop(0), default)
                else:
                    values[field.name] = field.spec.un(
                        data.pop(field.name, MISSING),
                        default,
                    )
    if data or items:
        raise Err()
    return values, extra, extra_kw


SEQUENCES = [True]  # whether structures may be drawn as sequences


def field_element(rng, fields, sequence=True):
    """A random accepted element for some fields."""
    positional = [f for f in fields if f.kind in ('pos', 'pk')]
    named = [f for f in fields if f.kind in ('pos', 'pk', 'kw')]
    only = [f for f in fields if f.kind == 'kw']
    if (
        sequence
        and SEQUENCES[-1]
        and rng.random() < 0.3
        and all(f.has_default() for f in only)
    ):
        items = []
        for f in positional:
            if f.has_default() and rng.random() < 0.4:
                break
            items.append(f.spec.element(rng))
        else:
            for f in fields:
                if f.kind == '*':
                    items += [
                        f.spec.element(rng) for _ in range(rng.randrange(3))
                    ]
        return rng.choice((list, tuple))(items)
    out = {}
    for f in named:
        if f.has_default() and rng.random() < 0.4:
            continue
        out[f.name] = f.spec.element(rng)
    for f in fields:
        if f.kind == '**':
            for name in ('zz', 'extra', 'k.k'):
                if rng.random() < 0.4:
                    out[name] = f.spec.element(rng)
    if rng.random() < 0.4:
        items = list(out.items())
        rng.shuffle(items)
        out = dict(items)
    return out


class StructS(Spec):
    hashable = False
    fields = ()

    def children(self):
        return tuple(f.spec for f in self.fields)

    def describe(self):
        return f'{self.label}({", ".join(map(repr, self.fields))})'

    def __repr__(self):
        return self.describe()

    def un(self, element, default=NO):
        if missing(element) and default is not NO:
            return default()
        return self.construct(*bind(self.fields, element))

    def element(self, rng):
        return field_element(rng, self.fields)

    def field_values(self, rng):
        out = {}
        for f in self.fields:
            if f.kind in ('*', '**'):
                continue
            if f.has_default() and rng.random() < 0.3:
                default = f.get_default()
                if default is ABSENT or f.spec.conforms(default):
                    out[f.name] = default
                    continue
            out[f.name] = f.spec.value(rng)
        return out


class DataclassS(StructS):

    def __init__(self, name, fields, frozen=False, computed=False, rng=None):
        self.fields = tuple(fields)
        self.label = name
        members = []
        extra = {}
        if rng is not None:
            # options that have no influence on reading and writing
            extra = {
                option: True
                for option in ('order', 'unsafe_hash', 'slots')
                if rng.random() < 0.15
            }
            if rng.random() < 0.1:
                extra = {'eq': False}
            if rng.random() < 0.1:
                extra['repr'] = False
        for f in fields:
            options = {}
            if f.factory is not None:
                options['default_factory'] = f.factory
            elif f.default is not NO:
                options['default'] = f.default
            if f.kind == 'kw':
                options['kw_only'] = True
            if rng is not None and rng.random() < 0.3:
                options[rng.choice(('repr', 'compare'))] = False
            if rng is not None and rng.random() < 0.1:
                options['metadata'] = {'init': False, 'name': 'x'}
                options['hash'] = rng.random() < 0.5
            members.append((f.name, f.ann, dataclasses.field(**options)))
        namespace = {'__module__': __name__}
        if computed:
            members.append(
                (
                    'computed_',
                    int,
                    dataclasses.field(init=False, default=11),
                ),
            )
        self.t = dataclasses.make_dataclass(
            name,
            members,
            frozen=frozen,
            namespace=namespace,
            **extra,
        )
        self.fields = tuple(
            [f for f in fields if f.kind != 'kw']
            + [f for f in fields if f.kind == 'kw']
        )
        # the order of errors follows the declaration
        self.declared = tuple(fields)
        self.lossless = all(f.spec.lossless for f in fields)
        self.hashable = False

    def un(self, element, default=NO):
        if missing(element) and default is not NO:
            return default()
        values, extra, extra_kw = bind(self.declared, element)
        return self.t(**values)

    def value(self, rng):
        return self.t(**self.field_values(rng))

    def conforms(self, value):
        return type(value) is self.t and all(
            f.spec.conforms(getattr(value, f.name))
            or _is_default(f, getattr(value, f.name))
            for f in self.fields
        )


def _is_default(field, value):
    return field.has_default() and freeze_eq(field.get_default(), value)


def freeze_eq(a, b):
    from . import values
    return values.same(a, b)


class NamedTupleS(StructS):

    def __init__(self, name, fields, typed=True):
        self.label = name
        self.fields = tuple(fields)
        if typed:
            namespace = {
                '__annotations__': {f.name: f.ann for f in fields},
                '__module__': __name__,
            }
            for f in fields:
                if f.default is not NO:
                    namespace[f.name] = f.default
            self.t = types.new_class(
                name,
                (NamedTuple,),
                exec_body=lambda ns: ns.update(namespace),
            )
        else:
            defaults = [f.default for f in fields if f.default is not NO]
            self.t = collections.namedtuple(
                name,
                [f.name for f in fields],
                defaults=defaults,
            )
        self.lossless = all(f.spec.lossless for f in fields)
        self.hashable = all(f.spec.hashable for f in fields)

    def construct(self, values, extra, extra_kw):
        return self.t(**values)

    def value(self, rng):
        return self.t(**self.field_values(rng))

    def conforms(self, value):
        return type(value) is self.t and all(
            f.spec.conforms(getattr(value, f.name))
            or _is_default(f, getattr(value, f.name))
            for f in self.fields
        )


class _Absent:
    pass


ABSENT = _Absent()


class TypedDictS(StructS):

    def __init__(self, name, fields, total=True):
        """Fields with a default are the optional keys."""
        self.label = name
        self.fields = tuple(
            Field(
                f.name,
                f.spec,
                default=ABSENT if f.has_default() else NO,
            )
            for f in fields
        )
        annotations = {}
        for old, f in zip(fields, self.fields):
            ann = old.ann
            if f.has_default() and total:
                ann = NotRequired[ann]
            elif not f.has_default() and not total:
                ann = Required[ann]
            annotations[f.name] = ann
        self.t = TypedDict(name, annotations, total=total)
        self.lossless = all(f.spec.lossless for f in self.fields)

    def un(self, element, default=NO):
        if missing(element) and default is not NO:
            return default()
        fields = self.fields
        if is_map(element):
            # optional keys may be left out
            optional = {f.name for f in fields if f.has_default()}
            element = {
                k: v for k, v in element.items()
                if k not in optional or not missing(v)
            }
            fields = [
                f for f in fields if f.name not in optional or f.name in element
            ]
        elif is_seq(element):
            if any(map(missing, element)):
                raise Unknown
            fields = [
                f for i, f in enumerate(fields)
                if i < len(element) or not f.has_default()
            ]
        elif missing(element):
            fields = [f for f in fields if not f.has_default()]
        return bind(fields, element)[0]

    def value(self, rng):
        return {
            k: v
            for k, v in self.field_values(rng).items()
            if v is not ABSENT
        }

    def conforms(self, value):
        if type(value) is not dict:
            return False
        by_name = {f.name: f for f in self.fields}
        return all(
            k in by_name and by_name[k].spec.conforms(v)
            for k, v in value.items()
        ) and all(f.name in value for f in self.fields if not f.has_default())


class TupleS(StructS):

    def __init__(self, specs, form='Tuple'):
        self.specs = tuple(specs)
        hints = tuple(s.t for s in specs)
        if not specs:
            hints = ((),) if form == 'Tuple' else ()
        if form == 'Tuple':
            self.t = Tuple[hints] if specs else Tuple[()]
        else:
            self.t = tuple[hints]
        self.fields = tuple(
            Field(str(i), s) for i, s in enumerate(specs)
        )
        self.label = f'{form}[{", ".join(s.label for s in specs) or "()"}]'
        self.lossless = all(s.lossless for s in specs)
        self.hashable = all(s.hashable for s in specs)

    def __repr__(self):
        return self.label

    def construct(self, values, extra, extra_kw):
        return tuple(values.values())

    def value(self, rng):
        return tuple(s.value(rng) for s in self.specs)

    def element(self, rng):
        return rng.choice((list, tuple))([s.element(rng) for s in self.specs])

    def conforms(self, value):
        return (
            type(value) is tuple
            and len(value) == len(self.specs)
            and all(s.conforms(v) for s, v in zip(self.specs, value))
        )


class CallS(StructS):
    """A plain class with an annotated constructor."""
    lossless = False

    def __init__(self, name, fields):
        self.label = name
        self.fields = tuple(fields)
        order = {'pos': 0, 'pk': 1, '*': 2, 'kw': 3, '**': 4}
        assert [order[f.kind] for f in fields] == sorted(
            order[f.kind] for f in fields
        )
        signature = make_signature(fields, method=True)

        def __init__(self, /, *args, **kwargs):
            bound = signature.bind(self, *args, **kwargs)
            bound.apply_defaults()
            self._observed = tuple(
                (k, v) for k, v in bound.arguments.items() if k != 'self'
            )

        __init__.__signature__ = signature
        __init__.__annotations__ = {f.name: f.ann for f in fields}
        self.t = type(
            name,
            (),
            {'__init__': __init__, '__module__': __name__},
        )

    def construct(self, values, extra, extra_kw):
        args, kwargs = arguments(self.fields, values, extra, extra_kw)
        return self.t(*args, **kwargs)

    def value(self, rng):
        return self.un(self.element(rng))

    def conforms(self, value):
        return type(value) is self.t


def arguments(fields, values, extra, extra_kw):
    args, kwargs = [], {}
    for f in fields:
        if f.kind == 'pos' or (f.kind == 'pk' and extra):
            args.append(values[f.name])
        elif f.kind in ('pk', 'kw'):
            kwargs[f.name] = values[f.name]
    return args + list(extra), {**kwargs, **extra_kw}


def make_signature(fields, method=False):
    P = inspect.Parameter
    kinds = {
        'pos': P.POSITIONAL_ONLY,
        'pk': P.POSITIONAL_OR_KEYWORD,
        '*': P.VAR_POSITIONAL,
        'kw': P.KEYWORD_ONLY,
        '**': P.VAR_KEYWORD,
    }
    params = []
    if method:
        params.append(P('self', P.POSITIONAL_ONLY))
    for f in fields:
        params.append(
            P(
                f.name,
                kinds[f.kind],
                default=P.empty if f.default is NO else f.default,
                annotation=f.ann,
            ),
        )
    return inspect.Signature(params)


# -- annotations and type variables ------------------------------------------


class AnnotatedS(Spec):

    def __init__(self, inner, extras, model_pre, model_post, label):
        self.inner = inner
        self.t = Annotated[tuple([inner.t, *extras])]
        self.pre = model_pre
        self.post = model_post
        self.label = f'Annotated[{inner.label}, {label}]'
        self.hashable = inner.hashable
        self.lossless = False

    def children(self):
        return (self.inner,)

    def un(self, element, default=NO):
        for fn in self.pre:
            element = self.apply(fn, element)
        value = self.inner.un(element, default)
        for fn in self.post:
            value = self.apply(fn, value)
        return value

    @staticmethod
    def apply(fn, value):
        try:
            return fn(value)
        except Err:
            raise
        except Exception:  # noqa: BLE001
            # annotations that raise are failures of the unmarshal
            raise Err() from None

    def value(self, rng):
        return self.inner.value(rng)

    def element(self, rng):
        return self.inner.element(rng)

    def conforms(self, value):
        return self.inner.conforms(value)


class TypeVarS(Spec):

    def __init__(self, name, arms):
        if len(arms) == 1:
            self.t = TypeVar(name, bound=arms[0].t)
            self.inner = arms[0]
        else:
            self.t = TypeVar(name, *[a.t for a in arms])
            # the union is made of the constraints each time
            self.inner = UnionS(arms, shared=False)
        self.label = f'TypeVar[{self.inner.label}]'
        self.hashable = self.inner.hashable
        self.lossless = self.inner.lossless

    def children(self):
        return (self.inner,)

    def un(self, element, default=NO):
        return self.inner.un(element, default)

    def value(self, rng):
        return self.inner.value(rng)

    def element(self, rng):
        return self.inner.element(rng)

    def conforms(self, value):
        return self.inner.conforms(value)


@runtime_checkable
class HasLen(Protocol):

    def __len__(self): ...


@runtime_checkable
class HasItems(Protocol):

    def __getitem__(self, key): ...


@runtime_checkable
class HasKeys(Protocol):

    def keys(self): ...


@runtime_checkable
class HasAppend(Protocol):

    def append(self, value): ...


@runtime_checkable
class HasUpper(Protocol):

    def upper(self): ...


class ProtocolS(Spec):
    """The first of some types that fulfills the protocol and accepts."""

    lossless = False

    PROTOCOLS = (
        SupportsInt, SupportsFloat, SupportsIndex, SupportsBytes, SupportsAbs,
        SupportsComplex, HasLen, HasItems, HasKeys, HasAppend, HasUpper,
    )

    def __init__(self, t):
        self.t = t
        self.label = t.__name__
        abstract = collections.abc
        self.arms = tuple(
            arm
            for kind, arm in (
                (float, PrimS(float)),
                (int, PrimS(int)),
                (bool, PrimS(bool)),
                (bytes, BytesS()),
                (abstract.MutableMapping, BareS(abstract.MutableMapping, dict, True)),
                (abstract.Mapping, BareS(abstract.Mapping, types.MappingProxyType, True)),
                (abstract.MutableSequence, BareS(abstract.MutableSequence, list, False)),
                (abstract.Sequence, BareS(abstract.Sequence, tuple, False)),
                (str, PrimS(str)),
                (numbers.Complex, ComplexS()),
            )
            if issubclass(kind, t)
        )
        self.hashable = all(arm.hashable for arm in self.arms)

    def children(self):
        return self.arms

    def un(self, element, default=NO):
        if missing(element) and default is not NO:
            return default()
        for arm in self.arms:
            try:
                return arm.un(element)
            except Err:
                pass
        raise Err(missing=missing(element))

    def value(self, rng):
        return rng.choice(self.arms).value(rng)

    def element(self, rng):
        return rng.choice(self.arms).element(rng)

    def conforms(self, value):
        return any(arm.conforms(value) for arm in self.arms)


# -- generation of specs -----------------------------------------------------

NAMES = (
    'a', 'b', 'c', 'x', 'y', 'value', 'type', 'path', 'element', 'default',
    'schema', 'fields', 'data', 'cls', 'kwargs_', 'max_size', 'Name', 'é',
)

ENUM_COUNT = [0]


def gen_enum(rng):
    style = rng.randrange(5)
    names = rng.sample(('RED', 'GREEN', 'blue', 'ON', 'Yes', 'one', 'A1'), 3)
    if style == 0:
        values = (1, 2, 3)
    elif style == 1:
        values = ('x', 'y', 'z w')
    elif style == 2:
        # the names and values of different members collide
        values = (names[1], names[2], 'other')
    elif style == 3:
        values = (0, 'zero', 2.5)
    else:
        values = ((1, 2), 'pair', 7)
    return EnumS(
        enum.Enum('E%d' % rng.randrange(10**6), dict(zip(names, values))),
        f'Enum{dict(zip(names, values))}',
    )


def gen_literal(rng):
    pool = [
        'a', 'b', 'on', '1', 'true', 'x.y', '', 1, 2, 0, -5, True, False,
        None, Plain.RIGHT, b'ab', 'None',
    ]
    values = rng.sample(pool, rng.choice((1, 1, 2, 3, 4)))
    return LitS(values)


SCALARS = (
    lambda rng: PrimS(int),
    lambda rng: PrimS(str),
    lambda rng: PrimS(float),
    lambda rng: PrimS(bool),
)

RARE_SCALARS = (
    lambda rng: PrimS(IntSub),
    lambda rng: PrimS(StrSub),
    lambda rng: PrimS(FloatSub),
    lambda rng: PrimS(Level),
    lambda rng: PrimS(Tone),
    lambda rng: PrimS(LiteralString, str, 'LiteralString'),
    lambda rng: BytesS(),
    lambda rng: ComplexS(),
    lambda rng: NoneS(),
    lambda rng: NoneS(type(None)),
    lambda rng: AnyS(),
    lambda rng: SliceS(),
    lambda rng: LoggerS(),
    lambda rng: DateTimeS(datetime.datetime),
    lambda rng: DateTimeS(datetime.time),
    lambda rng: DateTimeS(datetime.date),
    gen_enum,
    gen_enum,
    gen_literal,
    gen_literal,
    gen_literal,
    lambda rng: BareS(*rng.choice(BARE)),
    lambda rng: ProtocolS(rng.choice(ProtocolS.PROTOCOLS)),
)


def gen_scalar(rng):
    if rng.random() < 0.5:
        return rng.choice(SCALARS)(rng)
    return rng.choice(RARE_SCALARS)(rng)


def gen_key(rng):
    roll = rng.random()
    if roll < 0.4:
        return PrimS(str)
    if roll < 0.7:
        return rng.choice(
            (PrimS(int), PrimS(float), PrimS(bool), PrimS(StrSub),
             PrimS(IntSub), BytesS()),
        )
    if roll < 0.85:
        return gen_enum(rng)
    return LitS(rng.sample(('a', 'b', 'c', 1, 2, 'x.y'), rng.choice((1, 2, 3))))


def gen_default(rng, spec, mutable=False):
    """A default value that is an instance of the type."""
    for _ in range(10):
        try:
            value = spec.value(rng)
        except (Err, Unknown):
            continue
        if isinstance(value, str) and value == MISSING:
            continue
        try:
            hash(value)
        except TypeError:
            continue
        return value
    return None


def gen_fields(rng, depth, kinds=('pk',), factory=True, n=None, defaults=True):
    count = n if n is not None else rng.choice((0, 1, 2, 2, 3, 3, 4))
    names = rng.sample(NAMES, count)
    fields = []
    seen_default = False
    for name in names:
        spec = gen_spec(rng, depth - 1)
        field = Field(name, spec)
        if defaults and (seen_default or rng.random() < 0.35):
            if factory and rng.random() < 0.5:
                state = rng.randrange(10**9)
                field.factory = _factory(spec, state)
            else:
                field.default = gen_default(rng, spec)
            seen_default = True
        fields.append(field)
    return fields


def _factory(spec, state):
    import random

    def factory():
        rng = random.Random(state)
        for _ in range(10):
            try:
                value = spec.value(rng)
            except (Err, Unknown):
                continue
            return value
        return None
    return factory


def gen_dataclass(rng, depth):
    fields = gen_fields(rng, depth)
    if rng.random() < 0.3:
        # keyword-only fields may be declared anywhere
        for f in fields:
            if rng.random() < 0.4:
                f.kind = 'kw'
        rest = [f for f in fields if f.kind != 'kw']
        seen = False
        for f in rest:
            if f.has_default():
                seen = True
            elif seen:
                f.default = gen_default(rng, f.spec)
    return DataclassS(
        'DC%d' % rng.randrange(10**6),
        fields,
        frozen=rng.random() < 0.3,
        computed=rng.random() < 0.2,
        rng=rng,
    )


def gen_namedtuple(rng, depth):
    fields = gen_fields(rng, depth, factory=False)
    fields = [
        f for f in fields
        if f.name not in ('count', 'index') and not f.name.startswith('_')
    ]
    typed = rng.random() < 0.8
    if not typed:
        for f in fields:
            f.spec = AnyS()
            if f.default is not NO:
                f.default = _canonical(gen_default(rng, f.spec))
    return NamedTupleS('NT%d' % rng.randrange(10**6), fields, typed)


def gen_typeddict(rng, depth):
    fields = gen_fields(rng, depth, defaults=False)
    for f in fields:
        if rng.random() < 0.4:
            f.default = ABSENT
    if rng.random() < 0.3 and fields:
        fields[0].name = rng.choice(('self', 'a.b', 'not valid', 'class'))
    return TypedDictS(
        'TD%d' % rng.randrange(10**6),
        fields,
        total=rng.random() < 0.5,
    )


def gen_params(rng, depth):
    """Parameters of a callable in the order of a signature."""
    fields = gen_fields(rng, depth, factory=False)
    n = len(fields)
    cut_a = rng.randrange(0, n + 1) if rng.random() < 0.4 else 0
    cut_b = rng.randrange(cut_a, n + 1) if rng.random() < 0.5 else n
    for i, f in enumerate(fields):
        f.kind = 'pos' if i < cut_a else ('pk' if i < cut_b else 'kw')
    out = [f for f in fields if f.kind != 'kw']
    if rng.random() < 0.35:
        out.append(Field('rest', gen_spec(rng, depth - 1), '*'))
    out += [f for f in fields if f.kind == 'kw']
    if rng.random() < 0.35:
        out.append(Field('options', gen_spec(rng, depth - 1), '**'))
    return out


def gen_callable(rng, depth):
    return CallS('CL%d' % rng.randrange(10**6), gen_params(rng, depth))


def gen_union(rng, depth):
    n = rng.choice((2, 2, 3))
    arms = []
    for _ in range(n):
        arm = gen_spec(rng, depth - 1, union=False)
        arms.append(arm)
    # `Union` removes duplicates and unpacks nested unions
    unique = []
    for arm in arms:
        if all(
            arm.t != other.t and not (isinstance(arm, NoneS) and isinstance(other, NoneS))
            for other in unique
        ):
            unique.append(arm)
    if len(unique) < 2:
        return OptS(unique[0]) if not _noneish(unique[0]) else unique[0]
    if len(unique) == 2 and any(isinstance(a, NoneS) for a in unique):
        inner = [a for a in unique if not isinstance(a, NoneS)]
        if len(inner) == 1:
            hint = Union[unique[0].t, unique[1].t]
            return OptS(inner[0], hint)
        return unique[0]
    if rng.random() < 0.3:
        try:
            hint = unique[0].t
            for arm in unique[1:]:
                hint = hint | arm.t
            if typing.get_args(hint) == tuple(
                type(None) if a.t is None else a.t for a in unique
            ):
                return UnionS(unique, hint)
        except TypeError:
            pass
    return UnionS(unique)


def _noneish(spec):
    return isinstance(spec, (NoneS, OptS, UnionS, AnyS)) or (
        isinstance(spec, TypeVarS)
    )


def gen_annotated(rng, depth):
    from . import annotations
    return annotations.gen(rng, depth)


def gen_typevar(rng, depth):
    if rng.random() < 0.5:
        arms = [gen_spec(rng, depth - 1, union=False)]
        if isinstance(arms[0], NoneS):
            arms = [PrimS(int)]
    else:
        arms = []
        for _ in range(2):
            arm = gen_spec(rng, depth - 1, union=False)
            if isinstance(arm, NoneS):
                arm = PrimS(bool)
            if all(arm.t != other.t for other in arms):
                arms.append(arm)
        if len(arms) < 2:
            arms = arms[:1]
    return TypeVarS('T%d' % rng.randrange(10**6), arms)


def gen_spec(rng, depth=2, union=True):
    if depth <= 0 or rng.random() < 0.25:
        return gen_scalar(rng)
    roll = rng.random()
    if roll < 0.22:
        form = rng.choice(SeqS.FORMS)
        for _ in range(8):
            inner = gen_spec(rng, depth - 1)
            if form not in ('Set', 'set') or inner.hashable:
                break
        else:
            inner = PrimS(int)
        return SeqS(inner, form)
    if roll < 0.40:
        return MapS(gen_key(rng), gen_spec(rng, depth - 1), rng.choice(MapS.FORMS))
    if roll < 0.56:
        return gen_dataclass(rng, depth)
    if roll < 0.64:
        return gen_namedtuple(rng, depth)
    if roll < 0.72:
        return gen_typeddict(rng, depth)
    if roll < 0.79:
        return TupleS(
            [gen_spec(rng, depth - 1) for _ in range(rng.choice((0, 1, 2, 3)))],
            rng.choice(('Tuple', 'tuple')),
        )
    if roll < 0.83:
        return gen_callable(rng, depth)
    if roll < 0.86:
        return gen_typevar(rng, depth)
    if roll < 0.89:
        return gen_annotated(rng, depth)
    if union:
        if roll < 0.95:
            inner = gen_spec(rng, depth - 1, union=False)
            if _noneish(inner):
                return inner
            return OptS(inner)
        return gen_union(rng, depth)
    return gen_scalar(rng)


def kinds_of(spec):
    return sorted({type(s).__name__ for s in spec.walk()})


# -- hostile elements --------------------------------------------------------


def positions(element, path=()):
    yield path
    if isinstance(element, dict):
        for key, item in element.items():
            yield from positions(item, path + (key,))
    elif isinstance(element, (list, tuple)):
        for i, item in enumerate(element):
            yield from positions(item, path + (i,))


def replace(element, path, fn):
    if not path:
        return fn(element)
    head, rest = path[0], path[1:]
    if isinstance(element, dict):
        return {
            k: replace(v, rest, fn) if k == head else v
            for k, v in element.items()
        }
    return type(element)(
        replace(v, rest, fn) if i == head else v
        for i, v in enumerate(element)
    )


class Opaque:
    """A python object that is no element at all."""

    def __repr__(self):
        return 'Opaque()'


def junk(rng):
    roll = rng.random()
    if roll < 0.55:
        return rand_element(rng, 2, holes=0.1)
    if roll < 0.75:
        return rng.choice((MISSING, dataclasses.MISSING))
    if roll < 0.85:
        return rng.choice(({}, [], (), '', None, [[]], {'': {}}))
    return rng.choice(
        (Opaque(), b'bytes', 1 + 2j, range(3), float('nan'), 10**400, '1' * 5000),
    )


def mutate(rng, element):
    """Damage a random subelement."""
    paths = list(positions(element))
    path = rng.choice(paths)

    def change(sub):
        if isinstance(sub, dict) and sub and rng.random() < 0.6:
            out = dict(sub)
            roll = rng.random()
            if roll < 0.4:
                out.pop(rng.choice(list(out)))
            elif roll < 0.7:
                out[rng.choice(('unknown', 'a.b', '', '0', "it's", '???'))] = junk(rng)
            else:
                out[rng.choice(list(out))] = junk(rng)
            return out
        if isinstance(sub, (list, tuple)) and rng.random() < 0.5:
            out = list(sub)
            if out and rng.random() < 0.5:
                out.pop(rng.randrange(len(out)))
            else:
                out.insert(rng.randrange(len(out) + 1), junk(rng))
            return type(sub)(out)
        return junk(rng)

    return replace(element, path, change)
