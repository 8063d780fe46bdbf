"""Random elements and reference models of the tools for elements."""
import collections
import types

from . import specs

KEYS = (
    'a', 'b', 'c', 'd', 'x.y', '0', '1', '-1', "it's", '"q"', '\\', 'é', 'a b',
    '.', '..', 'a/b', 'a=b', ' ', '10', '\\.', "'", '"."',
)


class PathErr(Exception):
    pass


class ValueErr(Exception):
    pass


def rand_key(rng):
    if rng.random() < 0.7:
        return rng.choice(KEYS[:6])
    return rng.choice(KEYS)


def rand_tree(rng, depth=3, holes=0.0, keys=rand_key, mixed=True):
    """An element of mappings and sequences of any type."""
    roll = rng.random()
    if holes and rng.random() < holes:
        return specs.MISSING
    if depth <= 0 or roll < 0.3:
        return specs.rand_scalar(rng)
    n = rng.choice((0, 1, 2, 2, 3, 4))
    if roll < 0.6:
        items = [rand_tree(rng, depth - 1, holes, keys, mixed) for _ in range(n)]
        kind = rng.choice((list, tuple, tuple, collections.UserList) if mixed else (list, tuple))
        return kind(items)
    data = {
        keys(rng): rand_tree(rng, depth - 1, holes, keys, mixed)
        for _ in range(n)
    }
    if mixed and rng.random() < 0.2:
        return rng.choice(
            (collections.OrderedDict, types.MappingProxyType, specs.MapView),
        )(data)
    return data


def places(element, path=()):
    """Paths of all subelements as tuples of keys and indices."""
    yield path
    if specs.is_map(element):
        for key in element:
            yield from places(element[key], path + (key,))
    elif specs.is_seq(element):
        for i, item in enumerate(element):
            yield from places(item, path + (i,))


# -- paths -------------------------------------------------------------------


def split(path, delimiter='.'):
    fields, field = [], []
    quote, escaped = None, False
    for c in path:
        if escaped:
            field.append(c)
            escaped = False
        elif c == '\\':
            escaped = True
        elif quote is not None:
            if c == quote:
                quote = None
            else:
                field.append(c)
        elif c in '"\'':
            quote = c
        elif c == delimiter:
            fields.append(''.join(field))
            field = []
        else:
            field.append(c)
    if quote is not None or escaped:
        raise PathErr
    fields.append(''.join(field))
    return tuple(filter(None, fields))


def fields_of(path):
    fields = split(path)
    return fields or (('',) if path else ())


def write(rng, fields, delimiter='.'):
    """A path of the fields in a random notation."""
    parts = []
    for field in fields:
        field = str(field)
        roll = rng.random()
        if roll < 0.2 and "'" not in field and '\\' not in field:
            parts.append(f"'{field}'")
        elif roll < 0.4 and '"' not in field and '\\' not in field:
            parts.append(f'"{field}"')
        else:
            parts.append(
                ''.join(
                    '\\' + c if c in '\\"\'' + delimiter or rng.random() < 0.05 else c
                    for c in field
                ),
            )
    glue = delimiter * (2 if rng.random() < 0.05 else 1)
    path = glue.join(parts)
    if parts and rng.random() < 0.05:
        path = delimiter + path
    return path


# -- operations --------------------------------------------------------------


def step(element, field):
    """The key or index that a field stands for."""
    if specs.is_map(element):
        if field not in element:
            raise PathErr
        return field
    if specs.is_seq(element):
        try:
            index = int(field)
        except ValueError:
            raise PathErr from None
        if index < 0:
            index += len(element)
        if not 0 <= index < len(element):
            raise PathErr
        return index
    raise PathErr


def select(element, fields):
    for field in fields:
        element = element[step(element, field)]
    return element


def override(element, value, fields, combine):
    if not fields:
        if combine and specs.is_map(element) and specs.is_map(value):
            out = {key: element[key] for key in element}
            out.update({key: value[key] for key in value})
            return out
        if combine and specs.is_seq(element) and specs.is_seq(value):
            return tuple(element) + tuple(value)
        return value
    field, rest = fields[0], fields[1:]
    if specs.missing(element):
        element = {}
    if specs.is_map(element):
        out = {key: element[key] for key in element}
        out[field] = override(out.get(field, {}), value, rest, combine)
        return out
    if specs.is_seq(element):
        items = list(element)
        try:
            index = step(element, field)
        except PathErr:
            try:
                index = int(field)
            except ValueError:
                raise PathErr from None
            if index != len(items):
                raise PathErr from None
            items.append({})
        items[index] = override(items[index], value, rest, combine)
        return tuple(items)
    raise PathErr


def remove(element, fields):
    field, rest = fields[0], fields[1:]
    key = step(element, field)
    if specs.is_map(element):
        out = {k: element[k] for k in element}
    else:
        out = list(element)
    if rest:
        if not specs.is_map(out[key]) and not specs.is_seq(out[key]):
            raise PathErr
        out[key] = remove(out[key], rest)
    else:
        del out[key]
    return out if isinstance(out, dict) else tuple(out)


def merge(a, b, concatenate):
    if specs.is_map(a) and specs.is_map(b):
        out = {}
        for key in list(a) + [key for key in b if key not in a]:
            if key not in b:
                out[key] = a[key]
            elif key not in a:
                out[key] = b[key]
            else:
                out[key] = merge(a[key], b[key], concatenate)
        return out
    if concatenate and specs.is_seq(a) and specs.is_seq(b):
        return tuple(a) + tuple(b)
    if specs.missing(b):
        return a
    return b


# -- monitors of identity ----------------------------------------------------


def is_container(value):
    return specs.is_map(value) or (
        specs.is_seq(value) and not isinstance(value, range)
    )


def image(element):
    """The identities, types and content of a whole element."""
    if specs.is_map(element):
        return (
            id(element), type(element),
            tuple((key, image(element[key])) for key in element),
        )
    if specs.is_seq(element):
        return id(element), type(element), tuple(map(image, element))
    return type(element), repr(element)


def mutables(value, seen=None):
    """The ids of all mutable containers inside of a value."""
    if seen is None:
        seen = {}
    if isinstance(value, (dict, list, set, collections.deque, collections.UserList, collections.UserDict)):
        seen[id(value)] = value
    if specs.is_map(value):
        for key in value:
            mutables(value[key], seen)
    elif specs.is_seq(value) or isinstance(value, (set, frozenset, collections.deque)):
        for item in value:
            mutables(item, seen)
    elif hasattr(value, '__dataclass_fields__') and not isinstance(value, type):
        for name in value.__dataclass_fields__:
            if hasattr(value, name):
                mutables(getattr(value, name), seen)
    elif hasattr(value, '_observed'):
        mutables(value._observed, seen)
    return seen
