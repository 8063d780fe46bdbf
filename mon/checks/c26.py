"""C26: annotations are applied in order around the conversion"""
import dataclasses
import math
import typing

from typing_extensions import Annotated, TypedDict

import marsh

from ..core import Check
from ..oracles import observe
from ..values import same

check = Check(
    'C26',
    scale=5,
    rule=(
        'Random trees of types in which leaves and collections are annotated '
        'with recorders: pre-annotations and annotations, as classes and as '
        'instances, between other metadata. The calls that were recorded are '
        'compared per annotated type with those of a model; failures of an '
        'annotation are followed to the error that is seen. Non-trivial: '
        'distinct pairs of a type and an element.'
    ),
)
check.require(**{
    'calls': 12000,
    'annotated types': 2300,
    'nested annotated types': 1500,
    'values': 2500,
    'defaults kept': 300,
    'failures': 1100,
    'failures below the root': 500,
    'marsh errors passed on': 350,
    'not exceptions': 140,
    'numbers accepted': 150,
    'numbers refused': 300,
    'collections': 130,
    'sizes and truth': 150,
    'delegated': 200,
})


class Stop(BaseException):
    """Not an `Exception`."""


class Own(marsh.errors.UnmarshalError):
    pass


LOG = []
FAIL = {}
"""What an annotation has to raise, by its label."""


def record(label, value):
    LOG.append((label, value))
    err = FAIL.get(label)
    if err is not None:
        raise err


class Tag(typing.NamedTuple):
    """What an annotation does, so that a model can do the same."""
    label: str
    before: bool
    extra: typing.Any
    what: str


def apply(what, value):
    if what == 'wrap' and isinstance(value, str):
        return f'<{value}>'
    if what == 'strip' and isinstance(value, str):
        return value.strip('<>')
    if what == 'add' and type(value) in (int, float):
        return value * 2 + 1
    if what == 'reverse' and type(value) in (list, tuple):
        return value[::-1]
    return value


def make_tag(rng, label):
    what = rng.choice(('keep', 'wrap', 'strip', 'add', 'reverse'))
    before = rng.random() < 0.4
    base = marsh.annotation.PreAnnotation if before else marsh.annotation.Annotation

    def call(self, value):
        record(label, value)
        return apply(what, value)

    members = {'__call__': call}
    form = rng.randrange(5)
    if form == 1:
        # without equality or hash of its own
        members['__eq__'] = lambda self, other: type(other) is type(self)
    elif form == 2:
        base = type('Middle', (base,), {})
    elif form == 3:
        members['__slots__'] = ('x',)
    cls = type(f'Tag{label}', (base,), members)
    return Tag(label, before, cls if rng.random() < 0.5 else cls(), what)


def junk(rng):
    return rng.choice((
        'text', 5, None, int, ('a', 1), typing.List[int], ValueError, len,
        marsh.annotation, Ellipsis, print, lambda value: 1 / 0, [1], {},
    ))


class Failure(Exception):

    def __init__(self, label, path=()):
        self.label = label
        self.path = path


class Node:
    tags = ()

    def run(self, element, log, default=None):
        element = self.around(element, log, True)
        if default is not None:
            # nothing to convert, but still something to validate
            value = default
        else:
            value = self.convert(element, log)
        return self.around(value, log, False)

    def around(self, value, log, before):
        for tag in self.tags:
            if tag.before is before:
                log.append((tag.label, value))
                if tag.label in FAIL:
                    raise Failure(tag.label)
                value = apply(tag.what, value)
        return value

    def walk(self):
        yield self
        for child in self.children():
            yield from child.walk()

    def children(self):
        return ()

    def may_be_absent(self):
        return not isinstance(self, Inner) and not any(
            tag.before and tag.what == 'wrap' for tag in self.tags
        )

    def annotate(self, rng, state):
        extras = []
        tags = []
        for _ in range(rng.choice((1, 2, 2, 3, 5))):
            if rng.random() < 0.25:
                extras.append(junk(rng))
                continue
            if tags and rng.random() < 0.15:
                # the same one once more
                tag = rng.choice(tags)
                state['again'] = state.get('again', 0) + 1
                extras.append(tag.extra)
                tags.append(tag)
                continue
            state['n'] += 1
            tag = make_tag(rng, str(state['n']))
            extras.append(tag.extra)
            tags.append(tag)
        self.tags = (*self.tags, *tags)
        self.hint = Annotated[tuple([self.hint, *(extras or ['none'])])]


class At:

    def __init__(self, field):
        self.field = str(field)

    def __enter__(self):
        return self

    def __exit__(self, kind, err, tb):
        if isinstance(err, Failure):
            err.path = (self.field, *err.path)


class Leaf(Node):

    def __init__(self, rng):
        self.kind = rng.choice((int, str, float, typing.Any, typing.List[int], list))
        self.hint = self.kind

    def convert(self, element, log):
        if self.kind in (typing.List[int], list) and isinstance(element, tuple):
            return list(element)
        return element

    def element(self, rng):
        return {
            int: lambda: rng.randrange(100),
            str: lambda: rng.choice(('text', '<x>', 'a b')),
            float: lambda: rng.randrange(100) / 4,
        }.get(self.kind, lambda: [rng.randrange(9) for _ in range(rng.randrange(4))])()


class Inner(Node):
    """An optional or a type variable: another type, unchanged."""

    def __init__(self, child, hint):
        self.child = child
        self.hint = hint

    def children(self):
        return (self.child,)

    def convert(self, element, log):
        return self.child.run(element, log)

    def element(self, rng):
        return self.child.element(rng)


class Items(Node):

    def __init__(self, child, kind):
        self.child = child
        self.kind = kind
        self.hint = (
            typing.List[child.hint] if kind is list
            else typing.Tuple[child.hint, ...] if kind is tuple
            else typing.Dict[str, child.hint]
        )

    def children(self):
        return (self.child,)

    def convert(self, element, log):
        if self.kind is dict:
            result = {}
            for key, value in element.items():
                with At(key):
                    result[key] = self.child.run(value, log)
            return result
        result = []
        for i, item in enumerate(element):
            with At(i):
                result.append(self.child.run(item, log))
        return self.kind(result)

    def element(self, rng):
        n = rng.choice((0, 1, 2, 3))
        if self.kind is dict:
            return {f'k{i}': self.child.element(rng) for i in range(n)}
        return rng.choice((list, tuple))(self.child.element(rng) for _ in range(n))


class Default:
    """The default of a field."""


class Built:
    """What the model makes of fields."""

    def __init__(self, values, node):
        self.values = values
        self.node = node


class Fields(Node):

    def __init__(self, rng, fields):
        self.fields = fields
        self.kind = rng.choice(('dataclass', 'NamedTuple', 'TypedDict', 'class'))
        self.defaults = {}
        if self.kind != 'TypedDict':
            for name in reversed(fields):
                if rng.random() < 0.4 or not fields[name].may_be_absent():
                    break
                self.defaults[name] = Default()
            self.defaults = dict(reversed(self.defaults.items()))
        if self.kind == 'dataclass':
            self.hint = dataclasses.make_dataclass('Fields', [
                (name, node.hint, dataclasses.field(default=self.defaults[name]))
                if name in self.defaults else (name, node.hint)
                for name, node in fields.items()
            ])
        elif self.kind == 'NamedTuple':
            self.hint = typing.NamedTuple('Fields', [(n, f.hint) for n, f in fields.items()])
            self.hint._field_defaults.update(self.defaults)
            self.hint.__new__.__defaults__ = tuple(self.defaults.values())
        elif self.kind == 'TypedDict':
            self.hint = TypedDict('Fields', {n: f.hint for n, f in fields.items()})
        else:
            scope = {'defaults': self.defaults, 'hints': {n: f.hint for n, f in fields.items()}}
            text = ', '.join(
                f'{n}: hints[{n!r}]' + (f' = defaults[{n!r}]' if n in self.defaults else '')
                for n in fields
            )
            exec(f'def __init__(self, {text}):\n vars(self).update(locals())\n del self.self', scope)  # noqa: S102
            self.hint = type('Fields', (), {'__init__': scope['__init__']})

    def children(self):
        return tuple(self.fields.values())

    def convert(self, element, log):
        result = {}
        for name, node in self.fields.items():
            with At(name):
                if name in element:
                    result[name] = node.run(element[name], log)
                else:
                    result[name] = node.run('???', log, self.defaults[name])
        return Built(result, self)

    def element(self, rng):
        return {
            name: node.element(rng)
            for name, node in self.fields.items()
            if name not in self.defaults or rng.random() < 0.6
        }


def compare(case, observed, expected):
    """The model gives fields by name."""
    if isinstance(expected, Built):
        for name, value in expected.values.items():
            seen = (
                observed[name] if expected.node.kind == 'TypedDict' else getattr(observed, name)
            )
            if isinstance(value, Default):
                case.event('defaults kept')
                case.check(seen is value, 'a default is not left alone', field=name)
            else:
                compare(case, seen, value)
    elif isinstance(expected, dict):
        case.check(list(observed) == list(expected), 'other keys')
        for key in expected:
            compare(case, observed[key], expected[key])
    elif isinstance(expected, (list, tuple)):
        case.check(
            type(observed) is type(expected) and len(observed) == len(expected),
            'another collection', observed=observed, expected=expected,
        )
        for a, b in zip(observed, expected):
            compare(case, a, b)
    else:
        case.check(same(observed, expected), 'another value', observed=observed, expected=expected)


def tree(rng, depth, state):
    roll = rng.random()
    if depth == 0 or roll < 0.25:
        node = Leaf(rng)
        if rng.random() < 0.85:
            node.annotate(rng, state)
            if rng.random() < 0.15:
                node.annotate(rng, state)
    elif roll < 0.5:
        node = Items(tree(rng, depth - 1, state), rng.choice((list, tuple, dict)))
    elif roll < 0.62:
        child = tree(rng, depth - 1, state)
        T = typing.TypeVar('T', bound=child.hint)
        again = rng.choice((typing.Annotated, Annotated))
        if rng.random() < 0.3:
            # python makes one annotated type of both
            child.hint = again[child.hint, 'again']
            node = child
        else:
            node = Inner(child, rng.choice((typing.Optional[child.hint], T)))
    else:
        names = rng.sample(('x', 'y', 'z', 'a_b', 'n'), rng.randrange(1, 4))
        node = Fields(rng, {name: tree(rng, depth - 1, state) for name in names})
    if depth and rng.random() < 0.35:
        node.annotate(rng, state)
    return node


def fits(node, element):
    """Pre-annotations may not have made something else of the element."""
    for tag in node.tags:
        if tag.before:
            element = apply(tag.what, element)
    if isinstance(node, Leaf):
        return True
    if isinstance(node, Inner):
        return fits(node.child, element)
    if isinstance(node, Fields):
        return isinstance(element, dict) and all(
            fits(child, element[name])
            for name, child in node.fields.items() if name in element
        )
    values = element.values() if isinstance(element, dict) else element
    return isinstance(element, dict) is (node.kind is dict) and all(fits(node.child, e) for e in values)


def by_type(root, log):
    """The calls of every annotated type."""
    owner = {}
    for node in root.walk():
        for tag in node.tags:
            owner[tag.label] = id(node)
    result = {}
    for label, value in log:
        result.setdefault(owner[label], []).append((label, value))
    return result


def draw(case):
    rng = case.rng
    FAIL.clear()
    LOG.clear()
    for _ in range(50):
        node = tree(rng, rng.choice((0, 1, 2, 3)), {'n': 0})
        if not any(n.tags for n in node.walk()):
            continue
        element = node.element(rng)
        if fits(node, element):
            break
    else:
        node = Leaf(rng)
        node.annotate(rng, {'n': 0})
        element = node.element(rng)
    case.note(type=node.hint, element=element)
    return node, element


@check.workload(quick=2500, thorough=60000)
def order(case):
    node, element = draw(case)
    for child in node.walk():
        if child.tags:
            case.event('annotated types')
            if child is not node:
                case.event('nested annotated types')
    schema = marsh.schema.UnmarshalSchema(node.hint)
    for _ in range(2):
        LOG.clear()
        seen = observe(schema.unmarshal, element)
        case.check(seen.error is None, 'refused', observed=repr(seen))
        observed = list(LOG)
        expected = []
        value = node.run(element, expected)
        case.event('values')
        case.event('calls', len(observed))
        compare_logs(case, node, observed, expected)
        compare(case, seen.value, value)
    case.distinct((repr(node.hint), repr(element)))
    case.sample(f'{node.hint} {element}')


def plain(value):
    """Values of the model and of the code, comparable."""
    if isinstance(value, Built):
        return [plain(v) for v in value.values.values()]
    if dataclasses.is_dataclass(value):
        return [plain(getattr(value, f.name)) for f in dataclasses.fields(value)]
    if isinstance(value, dict):
        return [plain(v) for v in value.values()]
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if type(value).__name__ == 'Fields':
        return [plain(v) for v in vars(value).values()]
    return value


def compare_logs(case, node, observed, expected):
    observed = by_type(node, observed)
    expected = by_type(node, expected)
    case.check(
        {k: [(label, plain(v)) for label, v in calls] for k, calls in observed.items()}
        == {k: [(label, plain(v)) for label, v in calls] for k, calls in expected.items()},
        'annotations are called otherwise',
        observed=list(observed.values()), expected=list(expected.values()),
    )


@check.workload(quick=2500, thorough=60000)
def failures(case):
    rng = case.rng
    node, element = draw(case)
    schema = marsh.schema.UnmarshalSchema(node.hint)
    calls = []
    node.run(element, calls)
    if not calls:
        return
    label = rng.choice(calls)[0]
    err = rng.choice((
        ValueError('bad value'), KeyError('key'), TypeError(), ZeroDivisionError('x'),
        RuntimeError('a.b'), LookupError(), StopIteration(), AssertionError('a'),
        marsh.errors.UnmarshalError('own'), Own('own'), marsh.errors.MarshalError('other'),
        marsh.errors.PathError('p'), marsh.errors.MissingValueError('gone'),
        Stop('stop'), KeyboardInterrupt(),
    ))
    FAIL[label] = err
    try:
        node.run(element, [])
        case.fail('the model did not fail')
    except Failure as failure:
        expected = failure
    LOG.clear()
    case.event('failures')
    if expected.path:
        case.event('failures below the root')
    optional = any(
        isinstance(n, Inner) and 'Optional' in repr(n.hint) for n in node.walk()
    )
    try:
        seen = schema.unmarshal(element)
    except BaseException as caught:  # noqa: BLE001
        seen = caught
    finally:
        FAIL.clear()
    case.note(raised=repr(err), label=label, observed=repr(seen), path=expected.path)
    case.check(isinstance(seen, BaseException), 'a failure of an annotation is ignored')
    # nothing of that type is called afterwards
    case.check(LOG[-1][0] == label, 'annotations are called after a failure', observed=LOG[-3:])
    if not isinstance(err, Exception):
        case.event('not exceptions')
        case.check(seen is err, 'something that is not an exception is not passed on')
        return
    case.check(isinstance(seen, marsh.errors.MarshError), 'not an error of marsh')
    if optional:
        # may be told in another way
        return
    case.check(
        marsh.path.split(seen.path) == expected.path, 'the path is wrong', observed=seen.path,
    )
    if isinstance(err, marsh.errors.MarshError):
        case.event('marsh errors passed on')
        case.check(seen is err, 'another error')
        return
    case.check(isinstance(seen, marsh.errors.UnmarshalError), 'not an UnmarshalError')
    case.check(
        not isinstance(seen, marsh.errors.MissingValueError), 'nothing is missing',
    )
    chain = []
    link = seen
    while link is not None:
        chain.append(link)
        link = link.__cause__
    case.check(err in chain, 'the cause is lost')
    case.check(f'Tag{label}' in str(seen), 'the annotation is not named', observed=str(seen))


NUMBERS = (
    0, 1, -1, 10 ** 30, -10 ** 30, 0.0, -0.0, 0.5, -0.5, 1e-300, -1e-300,
    math.inf, -math.inf, math.nan, True, False, 5e-324, -5e-324,
)
BOUNDS = {
    marsh.annotation.Positive: lambda n: n > 0,
    marsh.annotation.Negative: lambda n: n < 0,
    marsh.annotation.Unsigned: lambda n: n >= 0,
}


class ContraryList(list):
    """True if it is empty."""

    def __bool__(self):
        return not len(self)


class ContraryDict(dict):
    def __bool__(self):
        return not len(self)


@check.workload(quick=1200, thorough=20000)
def builtin(case):
    """The annotations that are provided."""
    rng = case.rng
    if rng.random() < 0.25:
        hint, make = rng.choice((
            (typing.List[int], list), (typing.Tuple[int, ...], tuple),
            (typing.Set[int], set), (typing.Dict[int, int], lambda r: {i: i for i in r}),
            (str, lambda r: 'x' * len(r)), (bytes, lambda r: b'x' * len(r)),
        ))
        if rng.random() < 0.3:
            kind = rng.choice((ContraryList, ContraryDict))
            hint, make = kind, lambda r: kind({str(i): i for i in r} if kind is ContraryDict else r)
            case.event('sizes and truth')
        n = rng.choice((0, 0, 1, 3))
        ann = rng.choice((marsh.annotation.Populated, marsh.annotation.Populated()))
        value = make(range(n))
        element = marsh.marshal(value)
        case.note(type=hint, element=element)
        seen = observe(marsh.unmarshal, Annotated[hint, ann], element)
        case.event('collections')
        if n:
            case.check(seen.error is None and same(seen.value, value), 'refused', observed=repr(seen))
        else:
            case.check(isinstance(seen.error, marsh.errors.UnmarshalError), 'accepted', observed=repr(seen))
        return
    number = rng.choice(NUMBERS)
    hints = {bool: (bool, typing.Any), int: (int, float, typing.Any), float: (float, typing.Any)}[type(number)]
    hint = rng.choice(hints)
    chosen = rng.sample(list(BOUNDS), rng.choice((1, 1, 2)))
    extras = [ann() if rng.random() < 0.5 else ann for ann in chosen]
    element = number
    if hint is not typing.Any and rng.random() < 0.3:
        element = repr(number)
    accepted = all(BOUNDS[ann](number) for ann in chosen)
    case.note(type=hint, element=element, annotations=chosen)
    seen = observe(marsh.unmarshal, Annotated[tuple([hint, *extras])], element)
    if accepted:
        case.event('numbers accepted')
        case.check(seen.error is None and seen.value == (float(number) if hint is float else number), 'refused', observed=repr(seen))
    else:
        case.event('numbers refused')
        case.check(
            isinstance(seen.error, marsh.errors.UnmarshalError)
            and not isinstance(seen.error, marsh.errors.MissingValueError)
            and seen.error.path == '',
            'accepted', observed=repr(seen),
        )
        # the annotation by itself
        own = [observe(ann() if isinstance(ann, type) else ann, number) for ann in extras]
        case.check(any(isinstance(o.error, ValueError) for o in own), 'the annotation alone accepts', observed=own)


@check.workload(quick=400, thorough=8000)
def delegated(case):
    """Documentation and selection are those of the annotated type."""
    rng = case.rng
    node, element = draw(case)
    hint = Annotated[node.hint, rng.choice((marsh.annotation.Positive, 'x'))]
    outer = marsh.schema.UnmarshalSchema(hint)
    inner = marsh.schema.UnmarshalSchema(node.hint)
    case.event('delegated')
    depth = rng.randrange(3)
    a, b = outer.doc(depth), inner.doc(depth)
    case.check(a == b, 'another documentation', observed=a, expected=b)
    case.check(
        (outer.doc_type(), outer.doc_field_type(), outer.doc_default(), outer.doc_description())
        == (inner.doc_type(), inner.doc_field_type(), inner.doc_default(), inner.doc_description()),
        'documented in another way',
    )
    paths = ['']
    if isinstance(node, Fields):
        paths += list(node.fields)
    path = rng.choice(paths)
    case.note(path=path)
    a, b = outer.select(path), inner.select(path)
    case.check(a.value == b.value or path == '', 'another selection', observed=a.value, expected=b.value)
    seen = observe(outer.select, 'no.such.path'), observe(inner.select, 'no.such.path')
    case.check(
        [type(o.error) for o in seen] == [type(seen[0].error)] * 2, 'selects what does not exist', observed=seen,
    )
