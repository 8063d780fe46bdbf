"""C17: merging keeps everything, the last element wins"""
import marsh

from .. import elements, specs
from ..core import Check
from ..values import freeze, same_element

check = Check(
    'C17',
    scale=30,
    rule=(
        'Random elements that share keys, with missing values, are merged; '
        'compared with a reference model, with laws (neutral and '
        'idempotent elements, folding, leaves of the last element) and '
        'images of the inputs. Non-trivial: distinct merged elements.'
    ),
)
check.require(**{
    'merges': 4000,
    'overlapping': 1500,
    'leaves': 2000,
    'missing values': 200,
})

merge = marsh.element.merge


def key(rng):
    return rng.choice('aabbccde.')


def tree(rng, depth=3):
    element = elements.rand_tree(rng, depth, holes=0.08, keys=key)
    return element


def leaves(element, path=()):
    if specs.is_map(element) and len(element):
        for k in element:
            yield from leaves(element[k], path + (k,))
    else:
        yield path, element


@check.workload(quick=5000, thorough=100000)
def random_elements(case):
    rng = case.rng
    concatenate = rng.random() < 0.4
    inputs = [tree(rng) for _ in range(rng.choice((1, 2, 2, 2, 3, 4)))]
    if rng.random() < 0.5:
        inputs = [
            i if specs.is_map(i) else {'a': i, key(rng): tree(rng, 2)}
            for i in inputs
        ]
    case.note(inputs=inputs, concatenate=concatenate)
    case.sample(inputs)
    before = [elements.image(i) for i in inputs]
    expected = inputs[0]
    for other in inputs[1:]:
        expected = elements.merge(expected, other, concatenate)
    merged = merge(*inputs, concatenate=concatenate)
    case.note(merged=merged, expected=expected)
    case.event('merges')
    case.distinct(freeze(merged))
    case.check(
        same_element(merged, expected),
        'the merged element differs (also in the order of keys)',
    )
    case.check(
        [elements.image(i) for i in inputs] == before,
        'merging changed an input',
    )
    if any(map(specs.has_missing, inputs)):
        case.event('missing values')
    # folding
    folded = inputs[0]
    for other in inputs[1:]:
        folded = merge(folded, other, concatenate=concatenate)
    case.check(
        same_element(folded, merged),
        'merging all at once differs from merging one after the other',
        folded=folded,
    )
    # every leaf of the last element is there
    last = inputs[-1]
    if len(inputs) > 1 and specs.is_map(last):
        for path, leaf in leaves(last):
            if not path or elements.is_container(leaf) or specs.missing(leaf):
                continue
            case.event('leaves')
            case.check(
                same_element(elements.select(merged, path), leaf),
                'a value of the last element is lost',
                path=path,
            )
    # every key of every mapping is there, in the order of first occurrence
    if all(map(specs.is_map, inputs)):
        keys = list(dict.fromkeys(k for i in inputs for k in i))
        case.event('overlapping' if len(keys) < sum(map(len, inputs)) else 'disjoint')
        case.check(
            list(merged) == keys,
            'keys are lost, invented or reordered',
        )


@check.workload(quick=1500, thorough=30000)
def laws(case):
    rng = case.rng
    a, b = tree(rng), tree(rng)
    case.note(a=a, b=b)
    case.event('merges')
    case.check(same_element(merge(a), a), 'merging one element changes it')
    case.check(same_element(merge(a, a), a), 'merging is not idempotent')
    case.check(
        same_element(merge(a, specs.MISSING), a),
        'a missing element has to be neutral',
    )
    case.check(
        same_element(merge(specs.MISSING, a), a),
        'a missing element has to be neutral',
    )
    once = merge(a, b)
    case.check(
        same_element(merge(once, b), once),
        'merging the last element again changes the result',
        once=once,
    )
    if specs.is_map(a):
        case.check(same_element(merge({}, a), a), '{} is not neutral')
        case.check(same_element(merge(a, {}), a), '{} is not neutral')
    if specs.is_map(a) and specs.is_map(b) and not set(a) & set(b):
        case.event('disjoint')
        c = merge(b, a)
        case.check(
            all(same_element(c[k], once[k]) for k in once) and len(c) == len(once),
            'disjoint mappings have to commute',
            other=c,
        )
    if specs.is_seq(a) and specs.is_seq(b):
        joined = merge(a, b, concatenate=True)
        case.check(
            same_element(joined, list(a) + list(b)),
            'sequences are not concatenated',
            joined=joined,
        )
        case.check(
            same_element(merge(a, b), b),
            'sequences are replaced without concatenate',
        )
