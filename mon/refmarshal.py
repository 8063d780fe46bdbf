"""The reference model of marshaling: the element of a value."""
import base64
import collections
import dataclasses
import datetime
import enum
import logging
import typing


class NotSupported(Exception):
    """No element exists for the value."""


OWN = []
"""Classes for which there is a schema of the user, and what it does."""


def marshal(value):
    if value is None:
        return None
    for cls, own in OWN:
        if isinstance(value, cls):
            return own(value)
    if typing.get_origin(value) is typing.Literal:
        literal, *others = typing.get_args(value)
        if others:
            raise NotSupported
        return marshal(literal)
    if isinstance(value, bool):
        return bool(value)
    if isinstance(value, int):
        return int.__int__(value)
    if isinstance(value, float):
        return float.__float__(value)
    if isinstance(value, str):
        return str.__str__(value)
    if isinstance(value, enum.Enum):
        return value.name
    if isinstance(value, bytes):
        return base64.urlsafe_b64encode(value).decode('ascii')
    if isinstance(value, complex):
        if value.imag == 0:
            return value.real
        return {'real': value.real, 'imag': value.imag}
    if isinstance(value, (datetime.date, datetime.time)):
        return value.isoformat()
    if isinstance(value, slice):
        return {
            'start': marshal(value.start),
            'stop': marshal(value.stop),
            'step': marshal(value.step),
        }
    if isinstance(value, logging.Logger):
        element = {'name': value.name}
        level = value.level
        if level != logging.NOTSET:
            name = logging.getLevelName(level)
            element['level'] = level if name.startswith('Level ') else name
        return element
    if dataclasses.is_dataclass(value) and not isinstance(value, type):
        return {
            field.name: marshal(getattr(value, field.name))
            for field in dataclasses.fields(value)
            if field.init
        }
    if isinstance(value, tuple) and hasattr(value, '_fields'):
        return {
            name: marshal(item)
            for name, item in zip(value._fields, value)
        }
    if isinstance(value, collections.abc.Mapping) or (
        hasattr(value, 'keys') and not isinstance(value, type)
    ):
        return {marshal_key(key): marshal(value[key]) for key in value.keys()}
    if isinstance(value, type) or callable(value):
        raise NotSupported
    try:
        items = list(value)
    except TypeError:
        raise NotSupported from None
    return tuple(map(marshal, items))


def marshal_key(key):
    """Keys are strings: the element of the key when it is one."""
    try:
        element = marshal(key)
    except NotSupported:
        return str(key)
    return element if isinstance(element, str) else str(key)
