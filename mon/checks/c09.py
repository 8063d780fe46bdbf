"""C09: inputs stay untouched, results share nothing with them"""
import collections
import typing

import marsh

from .. import elements, gen, refmarshal, source, specs
from ..core import Check
from ..oracles import observe
from ..values import freeze, same, same_element
from . import c13

check = Check(
    'C09',
    scale=3,
    rule=(
        'Images (identity, type and content of every container) of elements '
        'and values are taken before and after each call; the mutable '
        'containers of results are compared by identity with those of the '
        'inputs, of the defaults and of other results; results are '
        'damaged and the call is repeated. Non-trivial: distinct inputs.'
    ),
    assumptions=[
        'Untyped places (Any, bare containers) pass their element on, and '
        'the defaults of functions are shared as in python.',
    ],
)
check.between = gen.clear_caches
check.require(**{
    'unmarshaled': 3000,
    'failed': 1000,
    'marshaled': 1500,
    'damaged results': 1000,
    'default factories': 300,
    'elements of namespaces': 1500,
    'made values': 800,
})

PASSED_ON = (specs.AnyS, specs.BareS, specs.CallS, specs.AnnotatedS, specs.LoggerS)


def wreck(value, depth=0):
    """Change every mutable container of a value."""
    for item in list(elements.mutables(value).values()):
        try:
            if isinstance(item, (dict, collections.UserDict)):
                item.clear()
            elif isinstance(item, (list, collections.deque, collections.UserList)):
                item.append('wrecked')
            elif isinstance(item, set):
                item.clear()
        except Exception:  # noqa: BLE001
            pass


def immutable_default(spec):
    """No function-like defaults that are mutable and shared."""
    for s in spec.walk():
        for f in getattr(s, 'fields', ()):
            if f.default is not specs.NO and elements.mutables(f.default):
                return False
    return True


@check.workload(quick=2000, thorough=40000)
def unmarshaling(case):
    rng = case.rng
    spec = gen.draw(case, accept=immutable_default)
    own = not gen.no_value(spec, PASSED_ON)
    for element, _ in gen.elements(case, spec, 4, (0, 0, 1, 2)):
        before = elements.image(element)
        content = repr(element)
        case.note(type=repr(spec), element=element)
        first = observe(marsh.unmarshal, spec.t, element)
        case.check(
            elements.image(element) == before and repr(element) == content,
            'unmarshal changed its element',
            after=element,
        )
        if first.error is not None:
            case.event('failed')
            again = observe(marsh.unmarshal, spec.t, element)
            case.check(
                type(again.error) is type(first.error)
                and getattr(again.error, 'path', '') == getattr(first.error, 'path', ''),
                'the same call fails differently',
                observed=repr(first),
                again=repr(again),
            )
            continue
        case.event('unmarshaled')
        case.distinct(content)
        if not own or gen.no_value(spec, specs.DateTimeS):
            continue
        mine = elements.mutables(first.value)
        case.check(
            not mine.keys() & elements.mutables(element).keys(),
            'the value shares a container with the element',
            observed=repr(first),
        )
        second = marsh.unmarshal(spec.t, element)
        case.check(
            same(first.value, second),
            'the same call returns another value',
            observed=repr(first),
            again=second,
        )
        case.check(
            not mine.keys() & elements.mutables(second).keys(),
            'two calls return values that share a container',
            observed=repr(first),
        )
        frozen = freeze(second)
        wreck(first.value)
        case.event('damaged results')
        third = marsh.unmarshal(spec.t, element)
        case.check(
            freeze(third) == frozen and freeze(second) == frozen,
            'changing a returned value changes later (or earlier) results',
            again=third,
        )
    del rng


@check.workload(quick=1200, thorough=20000)
def default_factories(case):
    """Every value has its own defaults."""
    rng = case.rng
    src = source.Source(rng)
    inner = f'In{case.index}'
    outer = f'Out{case.index}'
    src.add(
        '@dataclass',
        f'class {inner}:',
        '    items: List[int] = field(default_factory=lambda: [1, 2])',
        '    table: Dict[str, List[int]] = field(default_factory=lambda: {"k": [3]})',
        '    flags: Set[int] = field(default_factory=set)',
        '@dataclass',
        f'class {outer}:',
        f'    inner: {inner} = field(default_factory={inner})',
        '    rows: List[Tuple[int, ...]] = field(default_factory=list)',
        f'    more: List[{inner}] = field(default_factory=lambda: [{inner}()])',
        '    bare: list = field(default_factory=lambda: [[0]])',
        '    deque_: Deque[int] = field(default_factory=lambda: __import__("collections").deque([5]))',
        '    opt: Optional[List[int]] = field(default_factory=list)',
        '    kw: Dict[str, int] = field(default_factory=dict, kw_only=True)',
    )
    module = src.build()
    try:
        target = getattr(module, outer)
        element = {}
        for name in ('inner', 'rows', 'more', 'opt', 'kw', 'bare'):
            roll = rng.random()
            if roll < 0.25:
                element[name] = specs.MISSING
            elif roll < 0.4 and name == 'inner':
                element[name] = rng.choice(({}, {'items': [7]}, []))
            elif roll < 0.4 and name == 'rows':
                element[name] = [[1], [2]]
        reader = rng.choice((
            lambda: marsh.unmarshal(target, element),
            lambda: marsh.cast(target, element),
            lambda: marsh.unmarshal(typing.List[target], [element])[0],
            lambda: marsh.unmarshal(typing.Optional[target], element),
        ))
        case.note(element=element)
        fresh = freeze(reader())
        values = [reader() for _ in range(3)]
        case.event('default factories')
        case.distinct(repr(element))
        seen = {}
        for value in values:
            case.check(
                freeze(value) == fresh,
                'a value has other defaults',
                observed=value,
            )
            mine = elements.mutables(value)
            case.check(
                not seen.keys() & mine.keys(),
                'values share the container of a default factory',
                observed=value,
            )
            seen.update(mine)
        wreck(values[0])
        later = reader()
        case.check(
            freeze(later) == fresh and freeze(values[1]) == fresh,
            'changing a value changes the defaults of others',
            observed=later,
        )
        case.event('damaged results')
        direct = target()
        case.check(
            not elements.mutables(direct).keys() & seen.keys(),
            'python constructs a value with containers of marsh',
        )
    finally:
        src.forget()


@check.workload(quick=1500, thorough=25000)
def marshaling(case):
    rng = case.rng
    if rng.random() < 0.5:
        spec = gen.draw(
            case,
            accept=lambda s: not gen.no_value(s, (specs.CallS, specs.AnnotatedS)),
        )
        value = gen.typed_value(case, spec)
    else:
        value = elements.rand_tree(rng, 4)
    before = (elements.image(value), freeze(value))
    case.note(value=value)
    first = marsh.marshal(value)
    case.event('marshaled')
    case.check(
        (elements.image(value), freeze(value)) == before,
        'marshal changed the value',
        after=value,
    )
    case.distinct(freeze(first))
    case.check(
        not elements.mutables(first).keys() & elements.mutables(value).keys(),
        'the element shares a container with the value',
        element=first,
    )
    second = marsh.marshal(value)
    case.check(
        not elements.mutables(first).keys() & elements.mutables(second).keys(),
        'two elements share a container',
    )
    expected = refmarshal.marshal(value)
    wreck(first)
    case.event('damaged results')
    third = marsh.marshal(value)
    case.check(
        same_element(third, expected) and same_element(second, expected),
        'changing an element changes later results',
        again=third,
    )


@check.workload(quick=1000, thorough=15000)
def namespaces(case):
    """The names of components are not taken out of the element."""
    rng = case.rng
    classes = c13.make_classes(rng)
    model = c13.Model()
    try:
        for space in rng.sample(c13.SPACES, rng.choice((1, 2))):
            base = rng.choice(classes)
            namespace = marsh.namespaces.new(space, base)
            model.spaces[space] = (base, {})
            for name in rng.sample(c13.NAMES, rng.choice((2, 4))):
                cls = rng.choice([c for c in classes if issubclass(c, base)])
                if cls not in model.spaces[space][1].values():
                    namespace.register(cls, name=name)
                    model.spaces[space][1][name] = cls
        for _ in range(4):
            type_ = rng.choice(classes)
            if rng.random() < 0.3:
                type_ = typing.List[type_]
            element = c13.draw_element(rng, model, type_)
            before = elements.image(element)
            content = repr(element)
            case.note(type=type_, element=element, spaces=model.spaces)
            first = observe(marsh.unmarshal, type_, element)
            case.event('failed' if first.error is not None else 'unmarshaled')
            case.event('elements of namespaces')
            case.check(
                elements.image(element) == before and repr(element) == content,
                'unmarshal changed its element',
                after=element,
            )
            case.distinct(content)
    finally:
        for space in list(marsh.namespaces):
            del marsh.namespaces[space]
        for cls in classes:
            vars(c13).pop(cls.__name__, None)


@check.workload(quick=500, thorough=8000)
def absent_keys(case):
    """The values that a defaultdict makes are its own."""
    rng = case.rng
    spec = gen.draw(
        case, depth=(0, 1, 2),
        make=lambda r, d: r.choice((
            specs.gen_dataclass, specs.gen_spec,
            lambda r, d: specs.SeqS(specs.gen_spec(r, d), 'list'),
            lambda r, d: specs.MapS(specs.PrimS(str), specs.gen_spec(r, d), 'dict'),
            lambda r, d: specs.DataclassS('Made', [
                specs.Field('xs', specs.SeqS(specs.gen_spec(r, d), 'list')),
            ]),
        ))(r, d),
        accept=lambda s: not gen.no_value(s, PASSED_ON) and immutable_default(s),
    )
    target = typing.DefaultDict[str, spec.t]
    element = {k: gen.draw_element(case, spec, 0) for k in 'ab'[:rng.randrange(3)]}
    case.note(type=repr(spec), element=element)
    tables = []
    for _ in range(2):
        table = observe(marsh.unmarshal, target, element)
        if table.error is not None:
            return
        tables.append(table.value)
    seen = {}
    fresh = None
    for table in tables:
        for key in ('x', 'y', 'z'):
            made = observe(lambda: table[key])
            if made.error is not None:
                case.event('failed')
                return
            case.event('made values')
            case.distinct((repr(spec), freeze(made.value)))
            if fresh is None:
                fresh = freeze(made.value)
            case.check(
                freeze(made.value) == fresh, 'a made value differs from the first',
                observed=made.value,
            )
            mine = elements.mutables(made.value)
            case.check(
                not mine.keys() & seen.keys()
                and not mine.keys() & elements.mutables(element).keys(),
                'the made values share a container',
                observed=made.value,
            )
            case.check(
                table[key] is made.value, 'the made value is not kept',
            )
            seen.update(mine)
            wreck(made.value)


@check.workload(quick=1000, thorough=15000)
def keyword_arguments(case):
    """Additional keyword arguments are merged into a copy."""
    rng = case.rng
    element = {
        elements.rand_key(rng): elements.rand_tree(rng, 2)
        for _ in range(rng.randrange(4))
    }
    extra = {rng.choice('abcd'): elements.rand_tree(rng, 2) for _ in range(rng.randrange(3))}
    before = elements.image(element), elements.image(extra)
    case.note(element=element, extra=extra)
    if rng.random() < 0.2:
        value = marsh.unmarshal(typing.Any, **extra) if extra else {}
        expected = extra
    else:
        value = marsh.unmarshal(typing.Dict[str, typing.Any], element, **extra)
        expected = {**element, **extra}
    case.event('unmarshaled')
    case.check(
        (elements.image(element), elements.image(extra)) == before,
        'the element or the keyword arguments were changed',
    )
    case.check(
        same_element(value, expected),
        'the keyword arguments are not merged into the element',
        observed=value,
    )
