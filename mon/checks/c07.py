"""C07: unions, optionals, literals and enums choose as declared"""
import enum
import itertools
import typing

import marsh

from .. import gen, specs
from ..core import Check
from ..oracles import UnmarshalError, expect, judge_unmarshal, observe
from ..values import freeze, same

check = Check(
    'C07',
    scale=8,
    rule=(
        'Random unions (all spellings, nested, with None), literals and '
        'enums with elements that several alternatives accept. The outcome '
        'of the union is compared with the outcomes of its alternatives '
        'read alone (metamorphic), and with the reference model. '
        'Non-trivial: distinct triples of alternatives, element and choice.'
    ),
    assumptions=[
        'An optional prefers its other alternative over None.',
    ],
)
check.between = gen.clear_caches
check.require(**{
    'choices': 5000,
    'first of several': 1000,
    'no alternative': 500,
    'optionals': 500,
    'enum names': 500,
    'literals': 500,
    'nearly a member': 5000,
})


def same_outcome(a, b):
    if (a.error is None) != (b.error is None):
        return False
    if a.error is None:
        return same(a.value, b.value)
    return True


def timed(spec):
    """Free-form dates are relative to the current time."""
    return gen.no_value(spec, specs.DateTimeS)


def spelled(rng, arms):
    """A union of the arms in one of its spellings."""
    hints = [arm.t for arm in arms]
    roll = rng.randrange(4)
    if roll == 0:
        try:
            hint = hints[0]
            for other in hints[1:]:
                hint = hint | other
            return hint
        except TypeError:
            pass
    if roll == 1 and len(hints) > 2:
        return typing.Union[hints[0], typing.Union[tuple(hints[1:])]]
    if roll == 2 and len(hints) > 2:
        return typing.Union[typing.Union[tuple(hints[:-1])], hints[-1]]
    return typing.Union[tuple(hints)]


@check.workload(quick=2200, thorough=40000)
def unions(case):
    rng = case.rng
    arms = []
    for _ in range(rng.choice((2, 2, 3, 4))):
        arm = gen.draw(
            case,
            depth=(0, 0, 1, 2),
            make=lambda r, d: specs.gen_spec(r, d, union=False),
            accept=lambda s: (
                not isinstance(s, (specs.NoneS, specs.AnyS))
                and not timed(s)
            ),
        )
        if all(arm.t != other.t for other in arms):
            arms.append(arm)
    if len(arms) < 2:
        return
    hint = spelled(rng, arms)
    if len(typing.get_args(hint)) != len(arms):
        return
    case.note(arms=[repr(a) for a in arms], hint=hint)
    case.sample(hint)
    source = list(arms) + [rng.choice(arms)]
    for arm in source:
        element = gen.draw_element(case, arm, rng.choice((0, 0, 0, 1, 2)))
        if rng.random() < 0.1:
            element = specs.rand_element(rng, 1)
        alone = [observe(marsh.unmarshal, a.t, element) for a in arms]
        outcome = observe(marsh.unmarshal, hint, element)
        case.note(
            element=element,
            observed=repr(outcome),
            alternatives=[repr(a) for a in alone],
        )
        accepted = [i for i, a in enumerate(alone) if a.error is None]
        case.event('choices')
        if len(accepted) > 1:
            case.event('first of several')
        if not accepted:
            case.event('no alternative')
            case.check(
                isinstance(outcome.error, UnmarshalError),
                'no alternative accepts the element, but the union does',
            )
            continue
        case.distinct((repr(hint), freeze(element), accepted[0]))
        case.check(
            same_outcome(outcome, alone[accepted[0]]),
            'the union does not choose its first alternative that accepts the element',
        )


@check.workload(quick=600, thorough=10000)
def optionals(case):
    rng = case.rng
    arm = gen.draw(
        case,
        depth=(0, 1, 2),
        make=lambda r, d: specs.gen_spec(r, d, union=False),
        accept=lambda s: not specs._noneish(s) and not timed(s),
    )
    hint = rng.choice((
        lambda: typing.Optional[arm.t],
        lambda: typing.Union[arm.t, None],
        lambda: typing.Union[None, arm.t],
        lambda: typing.Optional[typing.Optional[arm.t]],
    ))()
    case.note(hint=hint)
    for element in (
        None,
        specs.MISSING,
        gen.draw_element(case, arm, 0),
        gen.draw_element(case, arm, 1),
        'null',
        'None',
        specs.rand_element(rng, 1),
    ):
        alone = observe(marsh.unmarshal, arm.t, element)
        outcome = observe(marsh.unmarshal, hint, element)
        case.note(element=element, observed=repr(outcome), alone=repr(alone))
        case.event('optionals')
        if alone.error is None:
            case.check(
                same_outcome(outcome, alone),
                'the optional differs from the type that it wraps',
            )
        elif element is None or specs.missing(element):
            case.check(
                outcome.error is None and outcome.value is None,
                'a missing optional has to be None',
            )
        else:
            case.check(
                isinstance(outcome.error, UnmarshalError)
                and outcome.error.path == alone.error.path,
                'the optional hides the error of the type that it wraps',
            )


VALUES = (
    1, 2, 0, -1, True, 1.5, 'a', 'b', 'A', 'one', 'two', '1', '2', 'yes',
    (1, 2), None, '', 'x y', 'a.b', 10**20,
)
NAMES = ('one', 'two', 'A', 'b', 'a', 'yes', 'Yes', 'no', 'x1', 'null', 'é')


def nearly(rng, text):
    """Text that is almost the given one."""
    return rng.choice((
        lambda: f' {text}', lambda: f'{text} ', lambda: f'\t{text}\n', lambda: text.swapcase(),
        lambda: text.upper(), lambda: text.lower(), lambda: text.title(), lambda: text[:-1], lambda: text + text[-1:],
        lambda: f'Kind.{text}', lambda: f'"{text}"', lambda: text.replace(' ', '_'), lambda: text.replace('_', ' '),
        lambda: f'{text}.0', lambda: f'+{text}', lambda: f'0{text}', lambda: text.replace('é', 'e\u0301'),
        lambda: text.replace('a', 'ａ'), lambda: f'\u200b{text}', lambda: text[::-1],
    ))()


@check.workload(quick=1200, thorough=20000)
def enums(case):
    """Names win over values, values over everything that is converted."""
    rng = case.rng
    n = rng.randrange(1, 6)
    names = rng.sample(NAMES, n)
    values = rng.sample(VALUES, n)
    mixin = rng.choice(((), (), (), (str,), (int,)))
    if mixin == (str,):
        values = [str(v) for v in values]
    if mixin == (int,):
        values = rng.sample((0, 1, 2, 3, 5, 7, -1), n)
    members = {}
    for name, value in zip(names, values):
        if all(value != v for v in members.values()):
            members[name] = value
    kind = enum.Enum('Kind', members, type=mixin[0] if mixin else None)
    case.note(members=members, mixin=mixin)
    for member in kind:
        if mixin != (int,):
            # by name, whatever the values are
            read = observe(marsh.unmarshal, kind, member.name)
            case.note(element=member.name, observed=repr(read))
            case.event('enum names')
            case.distinct((member.name, repr(members)))
            if mixin == ():
                case.check(
                    read.error is None and read.value is member,
                    'the name of a member does not select it',
                )
        element = marsh.marshal(member)
        case.note(element=element)
        read = marsh.unmarshal(kind, element)
        if mixin == ():
            case.check(
                type(element) is str and element == member.name,
                'a member is not marshaled to its name',
            )
        case.check(read is member, 'a member is not restored', observed=read)
    if mixin:
        return
    spec = specs.EnumS(kind)
    near = [nearly(rng, str(rng.choice([*values, *names]))) for _ in range(4)]
    case.event('nearly a member', len(near))
    for element in list(values) + list(names) + [rng.choice(VALUES), 'nope', rng.choice(NAMES)] + near:
        outcome = observe(marsh.unmarshal, kind, element)
        judge_unmarshal(case, spec, element, outcome, expect(spec.un, element))


class Quiet(enum.Enum):
    """All members have the same text."""
    ONE = 1
    TWO = 2
    THREE = 'three'

    def __str__(self):
        return 'quiet'


@check.workload(quick=1200, thorough=20000)
def literals(case):
    rng = case.rng
    spec = specs.gen_literal(rng)
    if rng.random() < 0.2:
        specs.fresh()
        spec = specs.LitS(rng.sample(
            [*Quiet, *rng.sample(('ONE', 'word', 1, None), 2)], rng.choice((1, 1, 2, 3)),
        ))
    case.note(values=spec.values)
    for element in (
        [spec.element(rng) for _ in range(4)]
        + list(spec.values)
        + [rng.choice(VALUES), rng.choice(specs.WORDS), specs.rand_scalar(rng)]
        + ['ONE', 'TWO', 2]
        + [nearly(rng, str(rng.choice(spec.values))) for _ in range(3)]
    ):
        case.event('literals')
        outcome = observe(marsh.unmarshal, spec.t, element)
        case.note(element=element, observed=repr(outcome))
        if outcome.error is None:
            case.check(
                any(
                    type(v) is type(outcome.value) and v == outcome.value
                    for v in spec.values
                ),
                'the value is none of the literals',
            )
        judge_unmarshal(case, spec, element, outcome, expect(spec.un, element))
    only = [v for v in spec.values if type(v) is str]
    for value in only:
        if all(type(v) is str or not isinstance(v, (int, bytes)) for v in spec.values):
            outcome = observe(marsh.unmarshal, spec.t, value)
            case.check(
                outcome.error is None and outcome.value == value
                or any(isinstance(v, enum.Enum) for v in spec.values),
                'a literal does not select itself',
                element=value,
                observed=repr(outcome),
            )


@check.workload(quick=1, thorough=1)
def orders(case):
    """Exhaustive: all orders of four overlapping scalars."""
    scalars = {
        int: specs.PrimS(int),
        float: specs.PrimS(float),
        bool: specs.PrimS(bool),
        str: specs.PrimS(str),
    }
    elements = [
        0, 1, 2, -1, 1.0, 1.5, True, False, '0', '1', '1.0', '1.5', 'yes',
        'x', '', None, 'nan', '1e3', [], {},
    ]
    for n in (2, 3, 4):
        for order in itertools.permutations(scalars, n):
            specs.fresh()
            hint = typing.Union[order]
            spec = specs.UnionS([scalars[t] for t in order], hint)
            for element in elements:
                case.event('choices')
                outcome = observe(marsh.unmarshal, hint, element)
                judge_unmarshal(
                    case, spec, element, outcome, expect(spec.un, element),
                )
                case.distinct((order, freeze(element)))
