"""C18: standardize, has_missing and resolve keep the content"""
import collections
import dataclasses
import types

import marsh

from .. import elements, specs
from ..core import Check
from ..oracles import observe
from ..values import freeze, same, same_element

check = Check(
    'C18',
    scale=15,
    rule=(
        'Random elements with all kinds of containers, missing values at '
        'any depth and interpolations between places. Compared with '
        'reference models. Non-trivial: distinct elements.'
    ),
    assumptions=[
        'Interpolation is what omegaconf defines: ${a.b} is absolute.',
    ],
)
check.require(**{
    'standardized': 2000,
    'with missing values': 500,
    'without missing values': 500,
    'resolved': 500,
    'interpolations': 500,
    'resolved containers of others': 150,
})

E = marsh.element


class Rows(tuple):
    pass


def convert(element, mapping, sequence):
    if specs.is_map(element):
        data = {k: convert(element[k], mapping, sequence) for k in element}
        return data if mapping is dict else mapping(data)
    if specs.is_seq(element):
        return sequence([convert(item, mapping, sequence) for item in element])
    return element


@check.workload(quick=2500, thorough=50000)
def standardizing(case):
    rng = case.rng
    element = elements.rand_tree(rng, 4, holes=0.03)
    mapping = rng.choice((dict, collections.OrderedDict, types.MappingProxyType, specs.MapView))
    sequence = rng.choice((tuple, list, Rows, collections.UserList))
    before = elements.image(element)
    case.note(element=element, mapping=mapping, sequence=sequence)
    case.sample(element)
    if rng.random() < 0.3:
        mapping, sequence = dict, tuple
        result = E.standardize(element)
    else:
        result = E.standardize(element, mapping_type=mapping, sequence_type=sequence)
    case.event('standardized')
    case.distinct(freeze(result))
    case.note(result=result)
    case.check(
        elements.image(element) == before,
        'standardize changed its input',
    )
    case.check(
        deep(result, convert(element, mapping, sequence)),
        'the content or a container type is not what was asked for',
    )
    again = E.standardize(result, mapping_type=mapping, sequence_type=sequence)
    case.check(deep(again, result), 'standardize is not idempotent')
    shared = elements.mutables(result).keys() & elements.mutables(element).keys()
    case.check(not shared, 'the result shares containers with the input')


def deep(a, b):
    if type(a) is not type(b):
        return False
    if specs.is_map(a):
        return list(a) == list(b) and all(deep(a[k], b[k]) for k in a)
    if specs.is_seq(a):
        return len(a) == len(b) and all(map(deep, a, b))
    return same(a, b)


@check.workload(quick=3000, thorough=50000)
def missing(case):
    rng = case.rng
    element = elements.rand_tree(rng, 4, holes=rng.choice((0, 0, 0.02, 0.1)))
    if rng.random() < 0.3:
        place = rng.choice(list(elements.places(element)))
        marker = rng.choice((specs.MISSING, dataclasses.MISSING, specs.StrSub('???')))
        element = plant(element, place, marker)
    if rng.random() < 0.1 and specs.is_map(element):
        element = {**element, '???': 1}
    case.note(element=element)
    expected = specs.has_missing(element)
    observed = E.has_missing(element)
    case.event('with missing values' if expected else 'without missing values')
    case.distinct(repr(element))
    case.check(
        observed is expected,
        'missing values are not found' if expected else 'a missing value was invented',
        observed=observed,
    )
    case.check(
        marsh.utils.is_missing(element) is specs.missing(element),
        'is_missing is wrong',
    )


def plant(element, place, marker):
    if not place:
        return marker
    if specs.is_map(element):
        return {
            k: plant(element[k], place[1:], marker) if k == place[0] else element[k]
            for k in element
        }
    return [
        plant(item, place[1:], marker) if i == place[0] else item
        for i, item in enumerate(element)
    ]


NAMES = 'abcdefgh'


@check.workload(quick=1200, thorough=20000)
def resolving(case):
    """Interpolations are replaced by the values they refer to."""
    rng = case.rng

    def text():
        return ''.join(rng.choice('xyzXYZ 019._-é') for _ in range(rng.randrange(1, 6))).strip() or 'x'

    def scalar():
        return rng.choice((
            lambda: rng.randrange(100), lambda: rng.choice((True, False)),
            lambda: None, text, lambda: rng.randrange(100) / 4,
        ))()

    def tree(depth):
        if depth == 0 or rng.random() < 0.3:
            return scalar()
        if rng.random() < 0.4:
            return rng.choice((list, tuple))(
                [tree(depth - 1) for _ in range(rng.randrange(4))],
            )
        return {
            rng.choice(NAMES): tree(depth - 1)
            for _ in range(rng.randrange(4))
        }

    base = {rng.choice(NAMES): tree(2) for _ in range(rng.randrange(1, 4))}
    if rng.random() < 0.3:
        base = [base, tree(2)]
    case.note(base=base)
    plain = E.resolve(base)
    case.event('resolved')
    case.check(
        same_element(plain, base),
        'an element without interpolations changes',
        result=plain,
    )
    # references from new keys to existing places
    targets = [
        p for p in elements.places(base)
        if p and not elements.is_container(elements.select(base, [str(f) for f in p]))
    ]
    if not targets or isinstance(base, list):
        return
    element = dict(base)
    expected = dict(base)
    for i in range(rng.randrange(1, 4)):
        place = rng.choice(targets)
        value = elements.select(base, [str(f) for f in place])
        reference = '${' + str(place[0]) + ''.join(
            f'[{f}]' if isinstance(f, int) else f'.{f}' for f in place[1:]
        ) + '}'
        roll = rng.random()
        if roll < 0.6:
            written, resolved = reference, value
        elif roll < 0.8:
            written, resolved = f'<{reference}>', f'<{value}>'
        else:
            written, resolved = {'n': [reference]}, {'n': [value]}
        element[f'ref{i}'] = written
        expected[f'ref{i}'] = resolved
        case.event('interpolations')
    if rng.random() < 0.4:
        # the containers of others
        case.event('resolved containers of others')
        element = convert(
            element,
            rng.choice((dict, collections.OrderedDict, types.MappingProxyType, specs.MapView, collections.UserDict)),
            rng.choice((tuple, list, Rows, collections.UserList, collections.deque)),
        )
    before = elements.image(element)
    case.note(element=element, expected=expected)
    case.distinct(repr(element))
    result = E.resolve(element)
    case.check(
        same_element(result, expected),
        'an interpolation is not the value that it refers to',
        result=result,
    )
    case.check(elements.image(element) == before, 'resolve changed its input')
    outcome = observe(E.resolve, {**element, 'bad': '${nothing.there}'})
    case.check(
        outcome.error is not None,
        'a dangling interpolation has to fail',
        observed=repr(outcome),
    )


@check.workload(quick=400, thorough=5000)
def resolving_terminals(case):
    value = specs.rand_scalar(case.rng)
    case.note(value=value)
    case.event('resolved')
    case.check(
        same(E.resolve(value), value),
        'a terminal element changes',
    )
