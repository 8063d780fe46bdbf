"""C10: results do not depend on what was unmarshaled before"""
import dataclasses
import gc
import os
import sys
import types
import typing

import marsh

from .. import gen, recursive, refmarshal, specs
from ..core import Check
from ..oracles import expect, judge_unmarshal, observe
from ..values import same, same_element

check = Check(
    'C10',
    scale=2,
    rule=(
        'Random histories of unmarshal, marshal, documentation, held '
        'schemas, cleared, disabled and enabled caches and garbage '
        'collection over pools of types that are easily confused: types that '
        'are equal but differ in order, defaults that are equal but differ '
        'in type, classes of the same name, classes that took the place of '
        'deleted ones. Every outcome is compared with the reference model '
        'of its own type, which has no memory. '
        'Non-trivial: distinct pairs of outcome and position in a history.'
    ),
)
check.between = gen.clear_caches
check.require(**{
    'steps': 6000,
    'held schemas': 500,
    'twins': 600,
    'caches changed': 500,
    'classes replaced': 200,
    'failed builds': 100,
    'absent keys': 1200,
    'namesakes': 1500,
    'homonyms': 1500,
    'equal callables': 4000,
})

CASTS = [
    specs.PrimS(int), specs.PrimS(float), specs.PrimS(bool), specs.PrimS(str),
    specs.NoneS(),
]


def scalar_arms(rng):
    arms = rng.sample(CASTS[:4], rng.choice((2, 3, 4)))
    return arms


def orders(rng):
    """Unions of the same types in different order."""
    arms = scalar_arms(rng)
    if rng.random() < 0.3:
        arms[0] = specs.SeqS(arms[0], 'list')
    out = []
    for _ in range(rng.choice((2, 3))):
        specs.fresh()
        rng.shuffle(arms)
        hint = typing.Union[tuple(a.t for a in arms)]
        if rng.random() < 0.4:
            hint = arms[0].t
            for arm in arms[1:]:
                hint = hint | arm.t
        out.append(specs.UnionS(arms, hint))
    return out


def literals(rng):
    """Literals with equal values."""
    values = rng.choice((
        [1, True], [0, False], [1, True, 'a'], [1, '1'], ['a', 'b', 'A'],
        [True, 'true'], [None, 'null'], [b'a', 'YQ=='], [1, 0, True, False],
    ))
    out = []
    for _ in range(rng.choice((2, 3))):
        specs.fresh()
        rng.shuffle(values)
        part = values[:rng.choice((len(values), 1))]
        out.append(specs.LitS(part))
    return out


def nest(rng, twins):
    """The twins in the same place of equal containers."""
    form = rng.choice(('list', 'tuple...', 'dict', 'opt', 'tuple', 'list list'))
    out = []
    for twin in twins:
        specs.fresh()
        if form == 'dict':
            out.append(specs.MapS(specs.PrimS(str), twin, 'dict'))
        elif form == 'opt':
            out.append(twin if specs._noneish(twin) else specs.OptS(twin, twin.t | None))
        elif form == 'tuple':
            out.append(specs.TupleS([specs.PrimS(str), twin], 'tuple'))
        elif form == 'list list':
            out.append(specs.SeqS(specs.SeqS(twin, 'list'), 'list'))
        else:
            out.append(specs.SeqS(twin, form))
    return out


DEFAULTS = [
    [1, True, 1.0, 1 + 0j], [0, False, 0.0, -0.0], [(1,), (1.0,), (True,)],
    [(0,), (False,), (-0.0,)], ['', b'', ()], [None, 0, ''],
    [frozenset({1}), frozenset({True})],
    [specs.Level(1), 1, True] if 1 in list(specs.Level) else [1, True],
]


def default_twins(rng):
    """The same type with defaults that are equal, in classes that are
    called the same."""
    name = rng.choice(('Same', 'Item', 'D%d' % rng.randrange(1000)))
    spec = rng.choice([
        *CASTS, specs.AnyS(), specs.SeqS(specs.PrimS(float), 'tuple...'),
        specs.UnionS([specs.PrimS(int), specs.PrimS(str)]),
    ])
    field = rng.choice(specs.NAMES)
    out = []
    defaults = list(rng.choice(DEFAULTS))
    rng.shuffle(defaults)
    for default in defaults:
        member = specs.Field(field, spec, default=default)
        kind = rng.choice((specs.DataclassS, specs.NamedTupleS, specs.CallS))
        if field in ('count', 'index') or field.startswith('_'):
            kind = specs.CallS
        out.append(kind(name, [member]))
    return out


def same_names(rng):
    """Classes that differ in all but their name."""
    name = rng.choice(('Same', 'Item'))
    out = []
    for _ in range(rng.choice((2, 3))):
        make = rng.choice((
            specs.gen_dataclass, specs.gen_namedtuple, specs.gen_typeddict,
            specs.gen_callable,
        ))
        spec = make(rng, rng.choice((1, 2)))
        try:
            spec.t.__name__ = spec.t.__qualname__ = name
        except (AttributeError, TypeError):
            pass
        out.append(spec)
    return out


TWINS = (orders, orders, literals, default_twins, default_twins, same_names)


def pool(case):
    rng = case.rng
    twins = rng.choice(TWINS)(rng)
    case.event('twins', len(twins))
    if rng.random() < 0.5:
        twins = nest(rng, twins)
    others = [gen.draw(case, depth=(0, 1, 2)) for _ in range(rng.randrange(0, 3))]
    return twins + others


def element_for(case, spec, twins):
    """Elements of one twin are offered to the others."""
    rng = case.rng
    source_spec = rng.choice(twins) if rng.random() < 0.5 else spec
    return gen.draw_element(case, source_spec, rng.choice((0, 0, 0, 1, 1, 2)))


def change_caches(rng):
    caches = marsh.schema.caches
    what = rng.choice((
        'clear', 'clear', 'disable', 'enable', 'enable', 'schema', 'one',
    ))
    if what == 'clear':
        caches.cache_clear()
    elif what == 'disable':
        caches.cache_disable()
    elif what == 'enable':
        caches.cache_enable()
    elif what == 'schema':
        marsh.schema.UnmarshalSchema.cache_clear()
    else:
        one = caches[rng.choice(sorted(caches))]
        getattr(one, rng.choice(
            ('cache_clear', 'cache_disable', 'cache_enable', 'cache_info'),
        ))()
    return what


@check.workload(quick=1100, thorough=25000)
def histories(case):
    rng = case.rng
    types_ = pool(case)
    held = {}
    history = []
    case.sample(repr(types_[:2]))
    try:
        for step in range(rng.choice((6, 10, 16))):
            i = rng.randrange(len(types_))
            spec = types_[i]
            roll = rng.random()
            case.event('steps')
            case.note(history=history, types=types_)
            if roll < 0.12:
                history.append(f'caches: {change_caches(rng)}')
                case.event('caches changed')
            elif roll < 0.16:
                gc.collect(0)
                history.append('gc')
            elif roll < 0.22:
                history.append(f'doc {i}')
                schema = marsh.schema.UnmarshalSchema(spec.t)
                try:
                    schema.doc(depth=2)
                except Exception as err:  # noqa: BLE001
                    case.fail('the documentation failed', error=repr(err))
            elif roll < 0.3:
                value = gen.typed_value(case, spec)
                history.append(f'marshal {i} {value!r}')
                try:
                    expected = refmarshal.marshal(value)
                except refmarshal.NotSupported:
                    continue
                outcome = observe(marsh.marshal, value)
                case.check(
                    outcome.error is None
                    and same_element(outcome.value, expected),
                    'the marshaled value depends on the history',
                    observed=repr(outcome),
                    expected=expected,
                )
            else:
                element = element_for(case, spec, types_)
                if roll < 0.55:
                    if i not in held or rng.random() < 0.2:
                        held[i] = marsh.schema.UnmarshalSchema(spec.t)
                    case.event('held schemas')
                    history.append(f'held {i} {element!r}')
                    outcome = observe(held[i].unmarshal, element)
                else:
                    history.append(f'unmarshal {i} {element!r}')
                    outcome = observe(marsh.unmarshal, spec.t, element)
                case.note(history=history)
                expected = expect(spec.un, element)
                judge_unmarshal(case, spec, element, outcome, expected)
                case.distinct((step, repr(outcome.key())))
    finally:
        marsh.schema.caches.cache_enable()


@check.workload(quick=150, thorough=3000)
def replaced_classes(case):
    """Classes are deleted and others of the same name (mostly at the same
    address) are created."""
    rng = case.rng
    name = 'Replaced'
    kind = rng.choice((specs.DataclassS, specs.NamedTupleS, specs.CallS))
    wrap = rng.choice((None, None, 'list', 'dict', 'opt'))
    for _ in range(rng.choice((3, 5, 8))):
        spec = gen_spec = kind(
            name,
            [
                specs.Field(
                    n,
                    rng.choice(CASTS[:4]),
                    default=rng.choice((1, True, 1.0, '1')),
                )
                for n in rng.sample(('x', 'y', 'z'), 2)
            ],
        )
        if wrap == 'list':
            spec = specs.SeqS(gen_spec, 'list')
        elif wrap == 'dict':
            spec = specs.MapS(specs.PrimS(str), gen_spec, 'dict')
        elif wrap == 'opt':
            spec = specs.OptS(gen_spec, gen_spec.t | None)
        case.event('classes replaced')
        for element in (gen.draw_element(case, spec, 0), gen.draw_element(case, spec, 1)):
            outcome = observe(marsh.unmarshal, spec.t, element)
            judge_unmarshal(
                case, spec, element, outcome, expect(spec.un, element),
            )
            case.distinct(repr(outcome.key()))
        del spec, gen_spec, outcome
        specs.fresh()
        gc.collect(rng.choice((0, 2)))


@check.workload(quick=300, thorough=6000)
def namesakes(case):
    """Local classes of the same name, which refer to themselves by it, are
    used alternately, each from scratch or from a schema that is held."""
    rng = case.rng
    made = []
    held = {}
    try:
        name = None
        while len(made) < 3:
            module = recursive.Module(rng, local=True)
            if name not in (None, module.classes[0]):
                continue
            name = module.classes[0]
            made.append(module.build())
            case.note(**{f'source{len(made)}': module.text})
        for step in range(rng.choice((5, 9))):
            n = rng.randrange(len(made))
            module = made[n]
            spec = module.specs[name]
            change = rng.random()
            if change < 0.7:
                marsh.schema.caches.cache_clear()
            elif change < 0.8:
                gc.collect(0)
            hint = rng.choice((
                spec.t, spec.t, typing.List[spec.t], typing.Optional[spec.t],
            ))
            element = recursive.element(rng, spec, rng.choice((1, 2, 3)))
            if rng.random() < 0.3:
                element = specs.mutate(rng, element)
            model = spec
            if typing.get_origin(hint) is list:
                model, element = specs.SeqS(spec, 'List'), [element]
            elif hint is not spec.t:
                model = specs.OptS(spec)
            case.note(step=step, used=n, hint=repr(hint))
            case.event('namesakes')
            if rng.random() < 0.3:
                schema, model, element_ = held.setdefault(n, (
                    marsh.schema.UnmarshalSchema(hint), model, element,
                ))
                element = rng.choice((element_, element_, element))
                outcome = observe(schema.unmarshal, element)
            else:
                outcome = observe(marsh.unmarshal, hint, element)
            case.distinct((name, step, repr(outcome.key())))
            judge_unmarshal(
                case, model, element, outcome, expect(model.un, element),
            )
    finally:
        for module in made:
            module.forget()


HINTS = [
    ('\'Item\'', lambda x: x, lambda v: v),
    ("List['Item']", lambda x: [x], lambda v: [v]),
    ("typing.Sequence['Item']", lambda x: [x], lambda v: (v,)),
    ("Optional['Item']", lambda x: x, lambda v: v),
    ("Dict[str, 'Item']", lambda x: {'k': x}, lambda v: {'k': v}),
    ("List[List['Item']]", lambda x: [[x]], lambda v: [[v]]),
    ("Union[int, 'Item']", lambda x: x, lambda v: v),
    ("'List[Item]'", lambda x: [x], lambda v: [v]),
    ("Tuple['Item', int]", lambda x: [x, 3], lambda v: (v, 3)),
]
USERS = {
    'def': '''
def User(first: {hint}, *rest: {hint}, last: {hint} = None):
    return first
''',
    'class': '''
class User:
    def __init__(self, first: {hint}, last: {hint} = None):
        self.first = first
''',
    'dataclass': '''
@dataclasses.dataclass
class User:
    first: {hint}
    last: {hint} = None
''',
    'NamedTuple': '''
class User(typing.NamedTuple):
    first: {hint}
    last: {hint} = None
''',
    'TypedDict': '''
class User(typing.TypedDict, total=False):
    first: {hint}
    last: {hint}
''',
}


@check.workload(quick=400, thorough=8000)
def homonyms(case):
    """A name in an annotation is the one of the module it is written in."""
    rng = case.rng
    text, wrap, value = rng.choice(HINTS)
    kind = rng.choice(list(USERS))
    names = [f'mon_homonyms_{os.getpid()}_{case.index}_{i}' for i in range(3)]
    modules = []
    try:
        for i, name in enumerate(names):
            module = types.ModuleType(name)
            sys.modules[name] = module
            field = ('int', 'str', 'List[bool]')[i]
            source = (
                rng.choice(('', '', 'from __future__ import annotations\n'))
                + 'import dataclasses, typing\nfrom typing import *\n'
            )
            item = (
                f'@dataclasses.dataclass\nclass Item:\n    x{i}: {field}\n'
            )
            user = USERS[kind].format(hint=text)
            parts = [item, user]
            rng.shuffle(parts)
            source += '\n'.join(parts)
            exec(compile(source, name, 'exec', dont_inherit=True), vars(module))  # noqa: S102
            modules.append(module)
            case.note(**{f'source{i}': source})
        elements = [{'x0': 4}, {'x1': 'text'}, {'x2': [True]}]
        contents = [4, 'text', [True]]
        inherited = kind in ('class', 'dataclass') and rng.random() < 0.4
        for step in range(rng.choice((3, 6))):
            if rng.random() < 0.4:
                marsh.schema.caches.cache_clear()
            i = rng.randrange(3)
            user = modules[i].User
            if inherited and rng.random() < 0.5:
                # in a module which has another class of that name
                other = modules[(i + 1) % 3]
                user = type('User', (user,), {'__module__': other.__name__})
                if kind == 'dataclass' and rng.random() < 0.5:
                    user = dataclasses.dataclass(user)
                case.event('inherited homonyms')
            expected = value(modules[i].Item(contents[i]))
            case.event('homonyms')
            case.distinct((text, kind, i, step))
            seen = observe(marsh.unmarshal, user, {'first': wrap(elements[i])})
            case.note(step=step, used=i, user=repr(user), observed=repr(seen), expected=repr(expected))
            case.check(seen.error is None, 'a valid element was rejected')
            first = seen.value if kind == 'def' else (
                seen.value['first'] if kind == 'TypedDict' else seen.value.first
            )
            case.check(same(first, expected), 'the name means another class')
            # the element of another module
            seen = observe(marsh.unmarshal, user, {'first': wrap(elements[(i + 1) % 3])})
            case.check(
                isinstance(seen.error, marsh.errors.UnmarshalError),
                'an element of another class is accepted', observed=repr(seen),
            )
    finally:
        for name in names:
            sys.modules.pop(name, None)


class Unsupported:
    """No schema can be built for its constructor."""

    def __init__(self, broken: typing.Callable[[int], int]):
        pass


@check.workload(quick=150, thorough=3000)
def failed_builds(case):
    """A type that can not be unmarshaled does not spoil the ones after."""
    rng = case.rng
    good = gen.draw(case, depth=(1, 2))
    bad_field = rng.choice((
        typing.Callable[[int], int], Unsupported, typing.Set[typing.List[int]],
        typing.Type[int], typing.List['NoSuchName'],
    ))
    fields = {'a': good.t, 'b': bad_field}
    names = list(fields)
    rng.shuffle(names)

    class Bad:
        pass

    def init(self, **kwargs):
        self.kwargs = kwargs

    import inspect
    init.__signature__ = inspect.Signature([
        inspect.Parameter('self', inspect.Parameter.POSITIONAL_ONLY),
        *(
            inspect.Parameter(
                n, inspect.Parameter.KEYWORD_ONLY, annotation=fields[n],
            )
            for n in names
        ),
    ])
    init.__annotations__ = {n: fields[n] for n in names}
    Bad.__init__ = init
    element = gen.draw_element(case, good, 0)
    case.note(bad=bad_field, type=repr(good))
    first = None
    for _ in range(rng.choice((1, 2, 3))):
        outcome = observe(marsh.unmarshal, Bad, {'a': element, 'b': [object()]})
        case.event('failed builds')
        case.check(
            outcome.error is not None,
            'a type that is not supported was unmarshaled',
        )
        case.check(
            isinstance(outcome.error, marsh.errors.MarshError),
            'the failure is not a MarshError',
            observed=repr(outcome),
        )
        if first is None:
            first = type(outcome.error)
        case.check(
            type(outcome.error) is first,
            'another failure when it is tried again',
            observed=repr(outcome),
        )
        for _ in range(2):
            e = gen.draw_element(case, good, rng.choice((0, 1)))
            outcome = observe(marsh.unmarshal, good.t, e)
            judge_unmarshal(case, good, e, outcome, expect(good.un, e))


@check.workload(quick=600, thorough=10000)
def absent_keys(case):
    """What a defaultdict makes of an absent key does not depend on the
    lookups before."""
    rng = case.rng
    spec = gen.draw(case, depth=(0, 0, 1, 2))
    target = typing.DefaultDict[str, spec.t]
    expected = None
    if not isinstance(spec, specs.AnyS):
        # values are made of a missing value or something simple
        for start in ('???', 0, '', None):
            expected = expect(spec.un, start)
            if expected is None or expected.error is None:
                break
    table = observe(marsh.unmarshal, target, {})
    case.note(type=repr(spec), table=repr(table))
    case.check(table.error is None, 'an empty mapping was rejected')
    first = None
    for n in range(4):
        made = observe(lambda: table.value['k'])
        case.event('absent keys')
        case.note(attempt=n, made=repr(made), expected=repr(expected))
        if expected is not None:
            case.check(
                (made.error is None) == (expected.error is None)
                and (made.error is None or isinstance(made.error, marsh.errors.MarshError)),
                'the value of an absent key is not made as expected',
            )
            if made.error is None:
                case.check(
                    same(made.value, expected.value),
                    'the value of an absent key differs from the model',
                )
        if first is None:
            first = made
        case.check(
            repr(first.key()) == repr(made.key()),
            'a later lookup of an absent key differs', first=repr(first),
        )
        case.check(
            ('k' in table.value) == (made.error is None),
            'a value that could not be made is kept (or one that was made is not)',
        )
        table.value.pop('k', None)
        if rng.random() < 0.3:
            marsh.schema.caches.cache_clear()
    case.distinct((repr(spec), repr(first.key())))


@check.workload(quick=250, thorough=5000)
def permutations(case):
    """The outcomes of a set of calls do not depend on their order."""
    rng = case.rng
    types_ = pool(case)
    calls = []
    for i, spec in enumerate(types_):
        for _ in range(2):
            calls.append((i, element_for(case, spec, types_)))
    reference = None
    for attempt in range(3):
        marsh.schema.caches.cache_clear()
        if attempt == 2:
            marsh.schema.caches.cache_disable()
        order = list(range(len(calls)))
        rng.shuffle(order)
        outcomes = {}
        try:
            for n in order:
                i, element = calls[n]
                outcomes[n] = repr(
                    observe(marsh.unmarshal, types_[i].t, element).key(),
                )
                case.event('steps')
        finally:
            marsh.schema.caches.cache_enable()
        if reference is None:
            reference = outcomes
        else:
            for n in outcomes:
                case.check(
                    outcomes[n] == reference[n],
                    'the outcome depends on the order of calls',
                    types=types_,
                    call=calls[n],
                    outcomes=(outcomes[n], reference[n]),
                )
        case.distinct(tuple(sorted(outcomes.items())))


class Holder:
    """Holds something that does not take part in its equality."""

    def __init__(self, content):
        self.content = content

    def made(self):
        return [self.content]

    def called(self, x: int = 3, *more: str):
        return self.content, x, more


class AlikeFactory(Holder):
    """Equals all of its class."""

    def __eq__(self, other):
        return type(other) is type(self)

    def __hash__(self):
        return 7

    __call__ = Holder.made


class AlikeCall(AlikeFactory):
    __call__ = Holder.called


class AlikeUnhashable(AlikeFactory):
    __hash__ = None


class AlikeUnhashableCall(AlikeCall):
    __hash__ = None


@dataclasses.dataclass(frozen=True)
class FrozenFactory(Holder):
    content: object
    __call__ = Holder.made


@dataclasses.dataclass(frozen=True)
class FrozenCall(Holder):
    content: object
    __call__ = Holder.called


CONTENTS = [
    [1, True, 1.0], [0, False, -0.0], [(1,), (True,), (1.0,)], ['a', 'b'], [None, 0, ''], [b'a', 'a'],
    [frozenset({1}), frozenset({True})],
]


@check.workload(quick=900, thorough=15000)
def equal_callables(case):
    """Callables and default factories that equal each other are different."""
    rng = case.rng
    contents = list(rng.choice(CONTENTS))
    rng.shuffle(contents)
    factory = rng.random() < 0.5
    if factory:
        kind = rng.choice((AlikeFactory, AlikeUnhashable, FrozenFactory))
    else:
        kind = rng.choice((AlikeCall, AlikeUnhashableCall, FrozenCall))
    bound = rng.random() < 0.3
    hint = rng.choice((list, typing.List[typing.Any], typing.Any, typing.Optional[list]))
    made = []
    for content in contents:
        source = kind(content)
        if bound:
            source = source.made if factory else source.called
        if factory:
            t = dataclasses.make_dataclass('Made', [('x', hint, dataclasses.field(default_factory=source))])
        else:
            t = source
        made.append((t, content))
    for _ in range(rng.choice((3, 5, 8))):
        t, content = rng.choice(made)
        element = rng.choice(({}, {}, '???', [], {'x': '5'}, {'x': [5]}, ['5', 'q'], ['x']))
        case.note(kind=kind, bound=bound, content=content, element=element, factory=factory)
        case.event('equal callables')
        if rng.random() < 0.15:
            change_caches(rng)
        seen = observe(marsh.unmarshal, t, element)
        marsh.schema.caches.cache_enable()
        if factory:
            if element in ({}, '???', []):
                expected = [content]
            elif element in ({'x': [5]},):
                expected = [5]
            elif element == {'x': '5'} and hint is typing.Any:
                expected = '5'
            elif element == ['x'] and hint is typing.Any:
                expected = 'x'
            else:
                case.check(
                    isinstance(seen.error, marsh.errors.UnmarshalError), 'an element was accepted', seen=seen,
                )
                continue
            case.check(
                seen.error is None and same(seen.value.x, expected),
                'the default of another factory was used', seen=seen, expected=expected,
            )
        else:
            expected = {
                '{}': (content, 3, ()), "'???'": (content, 3, ()), '[]': (content, 3, ()),
                "{'x': '5'}": (content, 5, ()), "['5', 'q']": (content, 5, ('q',)),
            }.get(repr(element))
            if expected is None:
                case.check(
                    isinstance(seen.error, marsh.errors.UnmarshalError), 'an element was accepted', seen=seen,
                )
                continue
            case.check(
                seen.error is None and same(seen.value, expected),
                'another callable was called', seen=seen, expected=expected,
            )
        case.distinct((kind.__name__, bound, repr(content), repr(element)))
