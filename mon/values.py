"""Typed deep equality and freezing of observed values."""
import collections
import dataclasses
import datetime
import enum
import logging
import math
import types


def same_float(a, b):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return a == b and math.copysign(1, a) == math.copysign(1, b)


def is_namedtuple(value):
    return isinstance(value, tuple) and hasattr(value, '_fields')


def same(a, b):
    """Equality of values *and* their types, through all containers.

    Mappings must have their keys in the same order."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, enum.Enum):
        return False  # members are singletons
    if isinstance(a, float):
        return same_float(float(a), float(b))
    if isinstance(a, complex):
        return (
            same_float(a.real, b.real) or a.real == b.real
        ) and (
            same_float(a.imag, b.imag) or a.imag == b.imag
        )
    if isinstance(a, (str, bytes, int)):
        return a == b
    if isinstance(a, datetime.datetime):
        return a.isoformat() == b.isoformat()
    if isinstance(a, (datetime.date, datetime.time)):
        return a.isoformat() == b.isoformat()
    if isinstance(a, slice):
        return all(
            same(getattr(a, x), getattr(b, x))
            for x in ('start', 'stop', 'step')
        )
    if isinstance(a, (tuple, list, collections.deque, collections.UserList)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, (set, frozenset)):
        return sorted(map(freeze, a)) == sorted(map(freeze, b))
    if isinstance(
        a,
        (dict, types.MappingProxyType, collections.abc.Mapping),
    ):
        return (
            len(a) == len(b)
            and all(map(same, a.keys(), b.keys()))
            and all(same(a[k], b[m]) for k, m in zip(a.keys(), b.keys()))
        )
    if isinstance(a, logging.Logger):
        return False
    if dataclasses.is_dataclass(a):
        # fields that are not part of the constructor are
        # computed, all of the state has to match
        return same(_state(a), _state(b))
    if hasattr(a, '_observed'):
        return same(a._observed, b._observed)
    try:
        return bool(a == b)
    except Exception:  # noqa: BLE001
        return False


def _state(obj):
    return {
        field.name: getattr(obj, field.name)
        for field in dataclasses.fields(obj)
        if hasattr(obj, field.name)
    }


def freeze(value):
    """A string that determines the type and content of a value."""
    kind = type(value).__qualname__
    if isinstance(value, enum.Enum):
        return f'{kind}.{value.name}'
    if isinstance(value, float):
        return f'{kind}:{float(value)!r}'
    if isinstance(value, int):
        return f'{kind}:{int(value)!r}'
    if isinstance(value, str):
        return f'{kind}:{str.__str__(value)!r}'
    if isinstance(value, complex):
        # the sign of a zero is not kept
        return f'{kind}:{complex(value.real + 0.0, value.imag + 0.0)!r}'
    if isinstance(value, (bytes, type(None))):
        return f'{kind}:{value!r}'
    if isinstance(value, (datetime.date, datetime.time)):
        return f'{kind}:{value.isoformat()}'
    if isinstance(value, (set, frozenset)):
        return f'{kind}{{{",".join(sorted(map(freeze, value)))}}}'
    if isinstance(
        value,
        (dict, types.MappingProxyType, collections.abc.Mapping),
    ):
        return (
            f'{kind}{{'
            + ','.join(
                f'{freeze(k)}={freeze(value[k])}' for k in value.keys()
            )
            + '}'
        )
    if isinstance(
        value,
        (tuple, list, collections.deque, collections.UserList),
    ):
        return f'{kind}[{",".join(map(freeze, value))}]'
    if isinstance(value, slice):
        return f'slice:{value!r}'
    if isinstance(value, logging.Logger):
        return f'Logger:{value.name}:{value.level}'
    if isinstance(value, type):
        return f'<{value.__module__}.{kind} {value.__qualname__}>'
    if dataclasses.is_dataclass(value):
        return f'{kind}({freeze(_state(value))})'
    if hasattr(value, '_observed'):
        return f'{kind}({freeze(value._observed)})'
    return f'{kind}@{id(value):x}'


def is_element(value):
    """Is this exactly what a JSON-like element may consist of?

    Terminals are instances of the plain builtin types, all keys of
    mappings are plain strings."""
    if value is None or type(value) in (int, float, bool, str):
        return True
    if type(value) in (tuple, list):
        return all(map(is_element, value))
    if type(value) is dict:
        return all(
            type(key) is str and is_element(item)
            for key, item in value.items()
        )
    return False


def same_element(a, b):
    """Equality of elements regardless of the container types."""
    if isinstance(a, collections.abc.Mapping):
        return (
            isinstance(b, collections.abc.Mapping)
            and list(a.keys()) == list(b.keys())
            and all(same_element(a[key], b[key]) for key in a)
        )
    if isinstance(a, (tuple, list, collections.UserList)):
        return (
            isinstance(b, (tuple, list, collections.UserList))
            and len(a) == len(b)
            and all(map(same_element, a, b))
        )
    return same(a, b)
