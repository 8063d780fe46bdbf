"""C13: namespaces dispatch to the types that are registered now"""
import dataclasses
import enum
import typing

import marsh

from ..core import Check
from ..oracles import observe

check = Check(
    'C13',
    scale=2,
    rule=(
        'Random histories of namespaces that are added and removed, classes '
        'that are registered and replaced, lookups, marshaling and '
        'unmarshaling of freshly made class hierarchies, next to a model '
        'that knows nothing of caches. Non-trivial: distinct histories.'
    ),
)
check.require(**{
    'dispatched': 4000,
    'nested dispatches': 600,
    'unknown names': 500,
    'own type': 1000,
    'other failures': 900,
    'marshaled': 3000,
    'lookups': 7000,
    'registered later': 500,
    'refused': 2000,
    'builds': 2000,
    'decorated later': 200,
})

NAMES = ['a', 'b', 'c', 'd', 'long-name', 'name', '1', 'x.y']
SPACES = ['models', 'parts', 'other']
_serial = iter(range(10 ** 9))


class Bad(Exception):
    """Of the model: an UnmarshalError below `path` (None: anywhere)."""

    def __init__(self, path=None):
        super().__init__(path)
        self.path = path


def resolved(type_, name, cls):
    if type_ == name:
        return cls
    args = typing.get_args(type_)
    if args and args[0] == typing.ForwardRef(name):
        return typing.List[cls] if typing.get_origin(type_) is list else typing.Optional[cls]
    return type_


def make_classes(rng):
    """A hierarchy of classes, some of them with fields of other classes."""
    classes = []
    for i in range(rng.choice((2, 4, 6))):
        bases = ()
        if classes and rng.random() < 0.8:
            bases = (rng.choice(classes),)
            if bases[0].fields is None:
                bases = ()
        name = f'T{next(_serial)}'
        body = {'__annotations__': {}, '__module__': __name__, 'fields': {}}
        fields = dict(bases[0].fields) if bases else {}
        if rng.random() < 0.07 and not bases and classes:
            # marshaled into a string
            cls = enum.Enum(name, {'one': 1.5, 'two': 2.5})
            cls.fields = None
            classes.append(cls)
            continue
        for j in range(rng.choice((0, 1, 2, 3))):
            field = rng.choice(('n', 's', 'child', 'children', 'children', 'maybe', 'maybe', 'other', 'name')) if rng.random() < 0.9 else f'f{j}'
            if field == 'name' and rng.random() < 0.7:
                continue
            if field in fields:
                continue
            if field in ('n', 'name') or field[0] == 'f':
                type_ = int
            elif field == 's':
                type_ = str
            else:
                target = rng.choice(classes) if classes else int
                if field != 'child' and rng.random() < 0.3:
                    # its own name
                    target = name
                type_ = {
                    'child': target,
                    'other': target,
                    'children': typing.List[target],
                    'maybe': typing.Optional[target],
                }[field]
            defaulted = field != 'name' and (
                field in ('maybe', 'other') or rng.random() < 0.3
                or any(default is not None for _, default in fields.values())
            )
            if defaulted and type_ not in (int, str) and field not in ('maybe', 'other'):
                continue
            if not defaulted and any(default is not None for _, default in fields.values()):
                continue
            body['__annotations__'][field] = type_
            default = None
            if defaulted:
                default = {int: 7, str: 'dflt'}.get(type_, 'none')
                if field == 'other' and rng.random() < 0.7:
                    # defaults may be of any type
                    default = ('default', name)
                body[field] = None if default == 'none' else default
            fields[field] = (type_, default)
        body['fields'] = None
        cls = type(name, bases, body)
        del cls.fields
        cls = dataclasses.dataclass(cls)
        cls.fields = {
            field: (resolved(type_, name, cls), default)
            for field, (type_, default) in fields.items()
        }
        globals()[name] = cls
        classes.append(cls)
    return classes


class Model:

    def __init__(self):
        self.spaces = {}
        self.decorators = []

    def wrapped(self, cls):
        return any(issubclass(cls, base) for base, _ in self.spaces.values())

    def candidates(self, cls):
        """In the order in which they are searched."""
        return [
            (name, space)
            for space, (_, components) in self.spaces.items()
            for name, component in components.items()
            if issubclass(component, cls)
        ]

    def name(self, cls):
        for base, components in reversed(self.spaces.values()):
            if issubclass(cls, base):
                for name, component in components.items():
                    if component is cls:
                        return name
        return None

    def unmarshal(self, type_, element, trace):
        origin = typing.get_origin(type_)
        if origin is list:
            if not isinstance(element, (list, tuple)):
                raise Bad(())
            values = []
            for i, v in enumerate(element):
                with below(str(i)):
                    values.append(self.unmarshal(typing.get_args(type_)[0], v, trace))
            return values
        if origin is typing.Union:
            if element is None:
                return None
            try:
                return self.unmarshal(typing.get_args(type_)[0], element, trace)
            except Bad:
                raise Bad(None) from None
        if type_ is int:
            if type(element) is int:
                return element
            raise Bad(())
        if type_ is str:
            if type(element) in (str, int):
                return str(element)
            raise Bad(())
        if self.wrapped(type_) and isinstance(element, dict):
            element = dict(element)
            name = element.pop('name', '???')
            if not (type(name) is str and name == '???'):
                for candidate, space in self.candidates(type_):
                    if candidate == name:
                        trace.append(name)
                        return self.plain(self.spaces[space][1][name], element, trace)
                trace.append('unknown')
                raise Bad(('name',))
        trace.append('own')
        return self.plain(type_, element, trace)

    def plain(self, cls, element, trace):
        """Without looking at namespaces for this level."""
        if cls.fields is None:
            if not isinstance(element, str) or element not in cls.__members__:
                raise Bad(None)
            return cls[element]
        if isinstance(element, (list, tuple)):
            if len(element) > len(cls.fields):
                raise Bad(None)
            element = dict(zip(cls.fields, element))
        if not isinstance(element, dict):
            raise Bad(None)
        values = {}
        failed = None
        for field, (type_, default) in cls.fields.items():
            if field in element:
                try:
                    with below(field):
                        values[field] = self.unmarshal(type_, element[field], trace)
                except Bad as err:
                    failed = failed or err
            elif default is not None:
                continue
            elif typing.get_origin(type_) is list:
                values[field] = []
            elif type_ in (int, str):
                failed = Bad(None)
            else:
                # a type that needs no values
                try:
                    values[field] = self.plain(type_, {}, trace)
                except Bad:
                    failed = Bad(None)
        if failed and not set(element) - set(cls.fields):
            raise failed
        if failed or set(element) - set(cls.fields):
            raise Bad(None)
        return cls(**values)

    def marshal(self, value):
        if isinstance(value, (list, tuple)):
            return tuple(self.marshal(v) for v in value)
        if value is None or isinstance(value, (int, str)):
            return value
        cls = type(value)
        name = self.name(cls)
        if cls.fields is None:
            if name:
                raise Bad(None)
            return value.name
        element = {field: self.marshal(getattr(value, field)) for field in cls.fields}
        if name:
            if 'name' in element:
                raise Bad(None)
            element['name'] = name
        return element


class below:

    def __init__(self, key):
        self.key = key

    def __enter__(self):
        pass

    def __exit__(self, kind, err, tb):
        if isinstance(err, Bad) and err.path is not None:
            err.path = (self.key, *err.path)


def draw_element(rng, model, type_, depth=0):
    """Mostly valid."""
    roll = rng.random()
    if roll < 0.03:
        return rng.choice(('x', None, [], {}, {'name': 3}, [{}]))
    origin = typing.get_origin(type_)
    if origin is list:
        return [
            draw_element(rng, model, typing.get_args(type_)[0], depth + 1)
            for _ in range(rng.choice((0, 1, 1, 2)) if depth < 3 else 0)
        ]
    if origin is typing.Union:
        if rng.random() < 0.3 or depth > 3:
            return None
        return draw_element(rng, model, typing.get_args(type_)[0], depth + 1)
    if type_ is int:
        return rng.randrange(5)
    if type_ is str:
        return rng.choice(('x', 'y', ''))
    cls = type_
    name = None
    named = False
    if model.wrapped(cls) and rng.random() < 0.85:
        found = model.candidates(cls)
        if found and rng.random() < 0.85:
            name, space = rng.choice(found)
            cls = model.spaces[space][1][name]
            named = True
        else:
            name = rng.choice((
                *NAMES, *NAMES, '???', None, 0, 7, True, 1.5, '', [], ['x'], {}, (), b'x',
            ))
            named = True
    if cls.fields is None:
        return rng.choice(('one', 'two', 'three'))
    element = {}
    for field, (inner, default) in cls.fields.items():
        if default is not None and (rng.random() < 0.4 or depth > 3):
            continue
        element[field] = draw_element(rng, model, inner, depth + 1)
    if rng.random() < 0.04:
        element['strange'] = 1
    if element and rng.random() < 0.04:
        element.pop(rng.choice(sorted(element)))
    if not named and rng.random() < 0.1 and len(element) == len(cls.fields):
        return list(element.values())
    if named:
        element['name'] = name
        if rng.random() < 0.5:
            element = dict(reversed(element.items()))
    return element


def draw_value(rng, model, type_, classes, depth=0):
    """An instance, whatever is registered."""
    origin = typing.get_origin(type_)
    if origin is list:
        return [draw_value(rng, model, typing.get_args(type_)[0], classes, depth + 1) for _ in range(rng.choice((0, 1, 2)) if depth < 4 else 0)]
    if origin is typing.Union:
        return None if rng.random() < 0.5 or depth > 4 else draw_value(rng, model, typing.get_args(type_)[0], classes, depth + 1)
    if type_ is int:
        return rng.randrange(5)
    if type_ is str:
        return rng.choice(('x', 'y'))
    cls = type_ if depth > 3 else rng.choice([c for c in classes if issubclass(c, type_)])
    if cls.fields is None:
        return rng.choice(list(cls))
    return cls(**{
        field: draw_value(rng, model, inner, classes, depth + 1)
        for field, (inner, default) in cls.fields.items()
        if default is None or not (depth > 2 or rng.random() < 0.2)
    })


def judge(case, call, expect, what):
    seen = observe(call)
    try:
        expected = expect()
    except Bad as err:
        case.check(
            isinstance(seen.error, marsh.errors.MarshError),
            f'{what} did not fail', observed=repr(seen),
        )
        if err.path is not None and isinstance(seen.error, marsh.errors.UnmarshalError):
            case.check(
                seen.error.path == '.'.join(err.path),
                f'the error of {what} has the wrong path',
                observed=seen.error.path, expected=err.path,
            )
        return seen, err
    case.check(
        seen.error is None and type(seen.value) is type(expected) and seen.value == expected,
        f'{what} gives something else',
        observed=repr(seen), expected=expected,
    )
    return seen, None


@check.workload(quick=3000, thorough=40000)
def histories(case):
    rng = case.rng
    classes = make_classes(rng)
    model = Model()
    history = []
    later = set()
    try:
        for _ in range(rng.choice((10, 25, 50))):
            step(case, rng, model, classes, history, later)
    finally:
        for space in list(marsh.namespaces):
            del marsh.namespaces[space]
        for cls in classes:
            globals().pop(cls.__name__, None)
    case.distinct(repr(history))
    case.sample(history[:12])


def step(case, rng, model, classes, history, later):
    def log(*entry):
        history.append(' '.join(map(str, entry)))
        case.note(
            history=history,
            classes={c.__name__: (c.__mro__[1].__name__, c.fields) for c in classes},
            spaces={k: (b.__name__, {n: c.__name__ for n, c in v.items()}) for k, (b, v) in model.spaces.items()},
        )

    op = rng.choice(
        ('unmarshal',) * 8 + ('marshal',) * 3 + ('lookup',) * 3
        + ('register',) * 4 + ('new', 'remove', 'build', 'build', 'clear'),
    )
    if not model.spaces and rng.random() < 0.7:
        op = 'new'
    spaces = list(model.spaces)
    if op == 'new':
        space = rng.choice(SPACES)
        base = rng.choice(classes) if rng.random() < 0.6 else classes[0]
        log(op, space, base.__name__)
        seen = observe(marsh.namespaces.new, space, base)
        if space in model.spaces:
            case.event('refused')
            case.check(
                isinstance(seen.error, marsh.errors.MarshError),
                'a namespace was replaced', observed=repr(seen),
            )
        else:
            case.check(
                seen.error is None and seen.value is marsh.namespaces[space]
                and seen.value.name == space and seen.value.base is base and not len(seen.value),
                'not the new namespace', observed=repr(seen),
            )
            model.spaces[space] = (base, {})
    elif op == 'remove':
        if len(spaces) < 2 and rng.random() < 0.5:
            return
        space = rng.choice(SPACES)
        log(op, space)

        def remove():
            del marsh.namespaces[space]

        seen = observe(remove)
        if space in model.spaces:
            case.check(seen.error is None, 'removing a namespace failed', observed=repr(seen))
            del model.spaces[space]
        else:
            case.event('refused')
            case.check(isinstance(seen.error, KeyError), 'removed what is not there', observed=repr(seen))
    elif op == 'register' and spaces:
        space = rng.choice(spaces)
        base, components = model.spaces[space]
        fitting = [c for c in classes if issubclass(c, base)]
        cls = rng.choice(fitting) if rng.random() < 0.9 else rng.choice(classes)
        name = rng.choice(NAMES[:5] if rng.random() < 0.8 else NAMES)
        replace = rng.random() < 0.3
        log(op, space, cls.__name__, repr(name), 'replace' if replace else '')
        namespace = marsh.namespaces[space]
        if rng.random() < 0.2 and (replace or name not in components):
            # applied later
            history[-1] += ' later'
            model.decorators.append((space, namespace, name, replace, namespace.register(name=name, replace=replace)))
            return
        if model.decorators and rng.random() < 0.5:
            space, namespace, name, replace, decorator = model.decorators.pop()
            if marsh.namespaces.get(space) is not namespace:
                return
            base, components = model.spaces[space]
            log('decorate', space, cls.__name__, repr(name), 'replace' if replace else '')
            case.event('decorated later')
            seen = observe(decorator, cls)
        elif rng.random() < 0.3:
            seen = observe(lambda: namespace.register(name=name, replace=replace)(cls))
        else:
            seen = observe(namespace.register, cls, name=name, **({'replace': True} if replace else {}))
        if name in components and not replace:
            case.event('refused')
            case.check(
                isinstance(seen.error, marsh.errors.MarshError),
                'a component was replaced', observed=repr(seen),
            )
        elif not issubclass(cls, base):
            case.event('refused')
            case.check(
                isinstance(seen.error, ValueError),
                'a class that does not fit was registered', observed=repr(seen),
            )
        else:
            case.check(
                seen.error is None and seen.value is cls,
                'registering failed', observed=repr(seen),
            )
            if any(entry.startswith('unmarshal') for entry in history):
                later.add(cls)
            components[name] = cls
    elif op == 'clear':
        log(op)
        rng.choice((
            marsh.namespaces.cache_clear,
            lambda: marsh.namespaces.cache_clear(full=True),
            lambda: marsh.namespaces.cache_info(),
            lambda: marsh.namespaces.cache_info(full=True),
            marsh.schema.UnmarshalSchema.cache_clear,
        ))()
    elif op == 'unmarshal':
        type_ = rng.choice(classes)
        roll = rng.random()
        if roll < 0.1:
            type_ = typing.List[type_]
        elif roll < 0.2:
            type_ = typing.Optional[type_]
        element = draw_element(rng, model, type_)
        log(op, type_, element)
        trace = []
        seen, err = judge(
            case, lambda: marsh.unmarshal(type_, element),
            lambda: model.unmarshal(type_, element, trace), 'unmarshal',
        )
        if err is not None:
            case.event('unknown names' if 'unknown' in trace else 'other failures')
        else:
            names = [name for name in trace if name != 'own']
            case.event('dispatched', len(names))
            if len(names) > 1:
                case.event('nested dispatches')
            if not names:
                case.event('own type')
            if names and type(seen.value) in later:
                case.event('registered later')
    elif op == 'marshal':
        value = draw_value(rng, model, rng.choice(classes), classes)
        log(op, value)
        seen, err = judge(case, lambda: marsh.marshal(value), lambda: model.marshal(value), 'marshal')
        case.event('marshaled')
        if err is None:
            try:
                expected = model.unmarshal(type(value), seen.value, [])
            except Bad:
                # the name means another class, or is not known
                return
            case.check(
                marsh.unmarshal(type(value), seen.value) == expected,
                'reading back gives something else', expected=expected,
            )
    elif op == 'lookup':
        cls = rng.choice(classes)
        log(op, cls.__name__)
        lookups(case, rng, model, cls)
    elif op == 'build' and spaces:
        build(case, rng, model, log)


def lookups(case, rng, model, cls):
    spaces = marsh.namespaces
    case.event('lookups')
    case.check(
        spaces is marsh.schema.namespace.Namespaces()
        and list(spaces) == list(model.spaces) and len(spaces) == len(model.spaces)
        and [k for k, _ in spaces.items()] == list(model.spaces)
        and dict(spaces.items()) == {k: spaces[k] for k in model.spaces}
        and [n.name for n in spaces.values()] == list(model.spaces),
        'the namespaces are wrong', observed=list(spaces),
    )
    for space in SPACES:
        case.check((space in spaces) == (space in model.spaces), 'a namespace is missing or left over')
        case.check(
            (spaces.get(space) is not None) == (space in model.spaces), 'get finds something else',
        )
        if space not in model.spaces:
            case.check(
                isinstance(observe(lambda: spaces[space]).error, KeyError),
                'a namespace that does not exist is found',
            )
    case.check(
        spaces.find_class(cls) == model.name(cls),
        'find_class of all namespaces is wrong',
        observed=spaces.find_class(cls), expected=model.name(cls),
    )
    for _ in range(2):
        seen = [(name, namespace.name) for name, namespace in spaces.find_subclasses(cls)]
        case.check(
            seen == model.candidates(cls), 'find_subclasses of all namespaces is wrong',
            observed=seen, expected=model.candidates(cls),
        )
        seen = [namespace.name for namespace in spaces.find_namespaces(cls)]
        expected = [k for k, (base, _) in model.spaces.items() if issubclass(cls, base)]
        case.check(seen == expected, 'find_namespaces is wrong', observed=seen, expected=expected)
    for space, (base, components) in model.spaces.items():
        namespace = spaces[space]
        case.check(
            list(namespace) == list(components) and len(namespace) == len(components)
            and namespace.name == space and namespace.base is base,
            'the names of a namespace are wrong',
            observed=list(namespace), expected=components,
        )
        expected = next((n for n, c in components.items() if c is cls), None)
        if not issubclass(cls, base):
            expected = None
        case.check(
            namespace.find_class(cls) == expected, 'find_class is wrong',
            observed=namespace.find_class(cls), expected=expected,
        )
        for _ in range(2):
            seen = list(namespace.find_subclasses(cls))
            expected = [n for n, c in components.items() if issubclass(c, cls)]
            case.check(seen == expected, 'find_subclasses is wrong', observed=seen, expected=expected)
        name = rng.choice(NAMES)
        case.check((name in namespace) == (name in components), 'membership is wrong')
        seen = observe(lambda: namespace[name])
        if name in components:
            case.check(
                seen.error is None and seen.value.value is components[name]
                and namespace[name] is seen.value
                and not isinstance(seen.value, marsh.schema.core.unmarshal.WrapperUnmarshalSchema),
                'the schema of a component is wrong', observed=repr(seen),
            )
        else:
            case.check(isinstance(seen.error, KeyError), 'a component that does not exist is found')


def build(case, rng, model, log):
    space = rng.choice(list(model.spaces))
    base, components = model.spaces[space]
    name = rng.choice(list(components)) if components and rng.random() < 0.9 else rng.choice(NAMES)
    namespace = marsh.namespaces[space]
    case.event('builds')
    cls = components.get(name)
    if cls is None:
        log('build', space, name)
        seen = observe(namespace.build, {}, name=name)
        case.check(
            isinstance(seen.error, marsh.errors.UnmarshalError),
            'built what is not registered', observed=repr(seen),
        )
        return
    element = draw_element(rng, model, cls)
    args, kwargs = (), {}
    if isinstance(element, dict):
        element.pop('name', None)
        if 'name' in (cls.fields or ()):
            return
        names = list(element)
        rng.shuffle(names)
        kwargs = {key: element[key] for key in names[:rng.randrange(3)]}
        given = {
            key: value for key, value in element.items()
            if key not in kwargs or rng.random() < 0.2
        }
        if rng.random() < 0.3 and given:
            # replaced by the argument
            key = rng.choice(list(given))
            if key in kwargs:
                given[key] = 'replaced'
        if not given and kwargs:
            given = rng.choice((given, None, marsh.MISSING))
    elif isinstance(element, list) and element:
        cut = rng.randrange(len(element) + 1)
        given, args = element[:cut], element[cut:]
        if not given and args:
            given = rng.choice((given, None, marsh.MISSING, ()))
    else:
        given = element
    log('build', space, name, given, args, kwargs)

    def expect():
        return model.plain(cls, element, [])

    judge(case, lambda: namespace.build(given, *args, name=name, **kwargs), expect, 'build')
    if rng.random() < 0.2:
        wrong = rng.choice((
            lambda: namespace.build({}, 1, name=name, n=1),
            lambda: namespace.build({}, 1, name=name),
            lambda: namespace.build([], name=name, n=1),
            lambda: namespace.build('x', 1, name=name),
        ))
        case.check(
            isinstance(observe(wrong).error, TypeError), 'arguments that can not be combined are accepted',
        )
