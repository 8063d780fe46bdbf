"""C04: unmarshal either returns or raises an UnmarshalError"""
import collections
import dataclasses
import typing

import marsh

from .. import gen, specs
from ..core import Check
from ..oracles import expect, judge_unmarshal, observe

check = Check(
    'C04',
    scale=5,
    rule=(
        'Random type hints with elements that are damaged up to six times, '
        'replaced by unrelated ones, or not elements at all. The only '
        'exception that may leave unmarshal is an UnmarshalError, and it is '
        'a MissingValueError if and only if the model says that a required '
        'value is missing. Non-trivial: distinct pairs of type family and '
        'failing path.'
    ),
    assumptions=[
        'Exceptions of the constructors and functions of the user are not '
        'those of unmarshal.',
    ],
)
check.between = gen.clear_caches
check.require(**{
    'failures': 6000,
    'missing values': 500,
    'other failures': 4000,
    'unhashable': 40,
    'hashable': 50,
    'unhashable keys': 40,
})


class HostileMapping(collections.abc.Mapping):
    """A mapping with keys that are not strings."""

    def __init__(self, data):
        self.data = data

    def __getitem__(self, key):
        return self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)

    def __repr__(self):
        return f'HostileMapping({self.data!r})'


def alien(rng, depth=2):
    """A python object, not necessarily an element."""
    roll = rng.randrange(9)
    if depth == 0 or roll < 4:
        return rng.choice((
            lambda: specs.junk(rng),
            lambda: specs.Opaque(),
            lambda: int,
            lambda: rng.choice(list(specs.Plain)),
            lambda: bytearray(b'12'),
            lambda: b'\xff\x00',
            lambda: {1, 2},
            lambda: iter([1, 2]),
            lambda: dataclasses.MISSING,
            lambda: NotImplemented,
            lambda: ...,
            lambda: specs.StrSub('???'),
            lambda: specs.LoudStr('5'),
            lambda: float('inf'),
            lambda: 10 ** 500,
            lambda: '9' * 5000,
            lambda: '\ud800',
            lambda: '1' + '_1' * 3,
            lambda: '١٢',
            lambda: '\x00',
            lambda: True,
        ))()
    items = [alien(rng, depth - 1) for _ in range(rng.randrange(4))]
    if roll < 6:
        return rng.choice((list, tuple, collections.deque, collections.UserList))(items)
    keys = [
        rng.choice(('a', 'b', 'name', 'x', 1, None, (), 1.5, 'a.b', '', True, b'k'))
        for _ in items
    ]
    return rng.choice((dict, HostileMapping, collections.OrderedDict))(
        dict(zip(keys, items)),
    )


def judge(case, spec, element, outcome, model=True):
    case.note(type=repr(spec), observed=repr(outcome))
    case.event('observed')
    if outcome.error is not None:
        case.check(
            isinstance(outcome.error, marsh.errors.UnmarshalError),
            'the failure is not an UnmarshalError',
            element=element,
        )
        case.event('failures')
        case.event(
            'missing values'
            if isinstance(outcome.error, marsh.errors.MissingValueError)
            else 'other failures'
        )
        case.distinct((tuple(specs.kinds_of(spec)), outcome.error.path))
        case.check(
            isinstance(str(outcome.error), str)
            and isinstance(repr(outcome.error), str)
            and isinstance(outcome.error.pretty(cause=True, element=True), str),
            'the error cannot be printed',
        )
    if model:
        judge_unmarshal(
            case,
            spec,
            element,
            outcome,
            expect(spec.un, element),
            parts=('error', 'missing'),
        )


@check.workload(quick=2000, thorough=40000)
def damaged_elements(case):
    spec = gen.draw(case)
    case.sample(spec)
    for element, _ in gen.elements(case, spec, 6, (1, 2, 3, 4, 5, 6)):
        judge(case, spec, element, observe(marsh.unmarshal, spec.t, element))


@check.workload(quick=1200, thorough=20000)
def elements_of_other_types(case):
    spec = gen.draw(case)
    other = gen.draw(case)
    for element, _ in gen.elements(case, other, 4, (0, 0, 0, 1)):
        judge(case, spec, element, observe(marsh.unmarshal, spec.t, element))


@check.workload(quick=1200, thorough=20000)
def no_elements(case):
    """Totality for arbitrary python objects."""
    spec = gen.draw(case)
    for _ in range(4):
        element = alien(case.rng)
        case.note(element=element)
        judge(
            case,
            spec,
            element,
            observe(marsh.unmarshal, spec.t, element),
            model=False,
        )


@check.workload(quick=800, thorough=12000)
def missing_values(case):
    """A marker for missing values at random places of a valid element."""
    rng = case.rng
    spec = gen.draw(case)
    for _ in range(4):
        element = gen.draw_element(case, spec, 0)
        for _ in range(rng.choice((1, 1, 2, 3))):
            places = list(specs.positions(element))
            element = specs.replace(
                element,
                rng.choice(places),
                lambda sub: rng.choice(
                    (specs.MISSING, specs.MISSING, dataclasses.MISSING),
                ),
            )
        case.event('markers')
        judge(case, spec, element, observe(marsh.unmarshal, spec.t, element))


class Frozen(dict):
    """A mapping that can be a key."""

    def __hash__(self):
        return hash(tuple(self))


def frozen(element):
    if specs.is_map(element):
        return Frozen((k, frozen(element[k])) for k in element)
    if specs.is_seq(element):
        return tuple(map(frozen, element))
    return element


@check.workload(quick=500, thorough=10000)
def unhashable_keys(case):
    """Mappings with keys that may not be hashable once they are unmarshaled."""
    rng = case.rng
    key = gen.draw(case, depth=(0, 1, 1, 2))
    keys = [frozen(gen.draw_element(case, key, rng.choice((0, 0, 1)))) for _ in range(rng.randrange(3))]
    try:
        element = dict.fromkeys(keys, rng.choice((1, '2', 'x')))
    except TypeError:
        # an object that has no hash
        return
    t = rng.choice((
        typing.Dict, typing.Mapping, typing.MutableMapping, typing.OrderedDict, typing.DefaultDict,
    ))[key.t, int]
    outer = rng.choice(('', '', 'union', 'list'))
    whole = element
    if outer == 'union':
        t = typing.Union[t, typing.Literal['else']]
    elif outer == 'list':
        t, whole = typing.List[t], [element]
    outcome = observe(marsh.unmarshal, t, whole)
    case.note(type=t, element=element, outcome=repr(outcome))
    judge(case, key, whole, outcome, model=False)
    expected = expect(lambda: [key.un(k) for k in element])
    if expected is None:
        return
    if expected.error is not None or 'x' in element.values():
        case.check(outcome.error is not None, 'an invalid element was accepted')
        return
    try:
        set(expected.value)
    except TypeError:
        case.event('unhashable keys')
        case.check(outcome.error is not None, 'a key that can not be hashed was accepted')
        if outer != 'union' and len(element) == 1:
            # keys are only fields of a path as text
            fields = ['0'] * (outer == 'list') + [str(*element)]
            case.check(
                [f for f in fields if f] == list(marsh.path.split(outcome.error.path)),
                'not the path of the key', fields=fields, path=outcome.error.path,
            )
    else:
        case.check(outcome.error is None, 'a valid element was rejected')


@check.workload(quick=500, thorough=10000)
def unhashable_items(case):
    """Sets of items that may not be hashable."""
    rng = case.rng
    item = gen.draw(case, depth=(0, 1, 1, 2))
    element = [gen.draw_element(case, item, rng.choice((0, 0, 1))) for _ in range(rng.randrange(4))]
    expected = expect(lambda: [item.un(e) for e in element])
    outer = rng.choice(('set', 'Set', 'union', 'list'))
    t = set[item.t] if outer == 'set' else typing.Set[item.t]
    if outer == 'union':
        t = typing.Union[t, typing.Literal['else']]
    elif outer == 'list':
        t, element = typing.List[t], [element]
    outcome = observe(marsh.unmarshal, t, element)
    case.note(type=t, element=element, outcome=repr(outcome))
    judge(case, item, element, outcome, model=False)
    if expected is None:
        return
    if expected.error is None:
        try:
            set(expected.value)
        except TypeError:
            case.event('unhashable')
            case.check(outcome.error is not None, 'an item that can not be hashed was accepted')
        else:
            case.event('hashable')
            case.check(outcome.error is None, 'a valid element was rejected')
    else:
        case.check(outcome.error is not None, 'an invalid element was accepted')
