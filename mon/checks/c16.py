"""C16: select, override and remove address exactly one place"""
import marsh

from .. import elements, specs
from ..core import Check
from ..oracles import observe
from ..values import freeze, same_element

check = Check(
    'C16',
    scale=20,
    rule=(
        'Random elements out of all kinds of mappings and sequences, with '
        'paths (in all notations) to existing and missing places. Compared '
        'with reference models on lists of fields, laws between the '
        'operations, and images of the inputs before and after. '
        'Non-trivial: distinct results.'
    ),
)
check.require(**{
    'selections': 3000,
    'overrides': 3000,
    'combined': 500,
    'removals': 2000,
    'path errors': 1500,
})

E = marsh.element
PathError = marsh.errors.PathError


def rand_fields(rng, element):
    """A path, mostly of an existing place."""
    place = list(rng.choice(list(elements.places(element))))
    current = element
    fields = []
    for key in place:
        if isinstance(key, int) and rng.random() < 0.3:
            fields.append(str(key - len(current)))
        else:
            fields.append(str(key))
        current = current[key]
    roll = rng.random()
    if roll < 0.2:
        fields.append(elements.rand_key(rng))
    elif roll < 0.3 and specs.is_seq(current):
        fields.append(str(len(current)))
    elif roll < 0.38 and fields:
        fields[rng.randrange(len(fields))] = elements.rand_key(rng)
    elif roll < 0.42:
        fields += [elements.rand_key(rng), elements.rand_key(rng)]
    return fields


def expected(fn, *args):
    try:
        return fn(*args), None
    except elements.PathErr as err:
        return None, err


def compare(case, outcome, value, error, what):
    case.note(observed=repr(outcome), expected=error or value)
    if error is not None:
        case.event('path errors')
        case.check(
            isinstance(outcome.error, PathError),
            f'{what} of a place that can not exist has to be a PathError',
        )
        return False
    case.check(outcome.error is None, f'{what} was rejected')
    case.check(
        same_element(outcome.value, value),
        f'{what} has an unexpected result',
    )
    case.distinct(freeze(outcome.value))
    return True


@check.workload(quick=5000, thorough=100000)
def operations(case):
    rng = case.rng
    element = elements.rand_tree(rng, rng.choice((2, 3, 4)), holes=0.05)
    if not elements.is_container(element):
        element = {'a': element}
    fields = rand_fields(rng, element)
    path = elements.write(rng, fields)
    fields = elements.fields_of(path)
    case.note(element=element, path=path)
    case.sample(path)
    before = elements.image(element)

    # select
    value, error = expected(elements.select, element, fields)
    outcome = observe(E.select, element, path)
    case.event('selections')
    if compare(case, outcome, value, error, 'select'):
        steps = list(E.iterative_select(element, path))
        case.check(
            len(steps) == len(fields) + 1,
            'not all places along the path are visited',
        )
        for i, step in enumerate(steps):
            case.check(
                same_element(step.element, elements.select(element, fields[:i])),
                'another element is visited',
                step=step,
            )
            case.check(
                elements.split(step.path) == tuple(fields[:i])
                and elements.split(step.remaining_path) == tuple(fields[i:]),
                'the visited path is wrong',
                step=step,
            )
    elif isinstance(outcome.error, marsh.errors.MarshError):
        where = elements.split(outcome.error.path)
        case.check(
            where == tuple(fields[:len(where)])
            and expected(elements.select, element, where)[1] is None,
            'the path of the error is not an existing part of the path',
        )

    # override
    combine = rng.random() < 0.4
    new = elements.rand_tree(rng, 2)
    image = elements.image(new)
    value, error = expected(elements.override, element, new, fields, combine)
    outcome = observe(E.override, element, new, path, combine=combine)
    case.note(value=new, combine=combine)
    case.event('overrides')
    if combine:
        case.event('combined')
    if compare(case, outcome, value, error, 'override'):
        if not combine:
            back = E.select(outcome.value, elements.write(rng, fields))
            case.check(
                same_element(back, new),
                'the value that was set is not selected',
                selected=back,
            )
        elif fields:
            again = E.override(outcome.value, new, path)
            case.check(
                same_element(E.select(again, path), new),
                'the value that was set is not selected',
            )
    case.check(
        elements.image(new) == image,
        'override changed the value',
    )

    # remove
    if fields:
        value, error = expected(elements.remove, element, fields)
        outcome = observe(E.remove, element, path)
        case.event('removals')
        if compare(case, outcome, value, error, 'remove'):
            last, parent = fields[-1], fields[:-1]
            rest = elements.select(outcome.value, parent)
            old = elements.select(element, parent)
            case.check(
                len(rest) == len(old) - 1,
                'remove removed more than one place',
            )
            if specs.is_map(old):
                restored = E.override(
                    outcome.value, elements.select(element, fields), path,
                )
                case.check(
                    freeze_sorted(restored) == freeze_sorted(element),
                    'the element is not restored by setting the place again',
                    restored=restored,
                )
            del last
    case.check(
        elements.image(element) == before,
        'an operation changed its input',
    )


def freeze_sorted(element):
    if specs.is_map(element):
        return 'map', tuple(sorted((k, freeze_sorted(element[k])) for k in element))
    if specs.is_seq(element):
        return 'seq', tuple(map(freeze_sorted, element))
    return 'terminal', freeze(element)


@check.workload(quick=1500, thorough=30000)
def terminals(case):
    """Elements that can not be traversed."""
    rng = case.rng
    element = specs.rand_scalar(rng)
    path = elements.write(rng, [elements.rand_key(rng)])
    case.note(element=element, path=path)
    case.event('path errors')
    outcome = observe(E.select, element, path)
    case.check(
        isinstance(outcome.error, PathError),
        'selecting from a terminal has to be a PathError',
        observed=repr(outcome),
    )
    case.check(
        same_element(E.select(element, ''), element),
        'the empty path selects the element itself',
    )
    case.check(
        same_element(E.override(element, [1], ''), [1]),
        'the empty path overrides the whole element',
    )
    outcome = observe(E.override, element, 1, path)
    case.check(
        isinstance(outcome.error, PathError),
        'overriding a place of a terminal has to be a PathError',
        observed=repr(outcome),
    )
    outcome = observe(E.remove, element, path)
    case.check(
        isinstance(outcome.error, (ValueError, PathError)),
        'removing a place of a terminal has to fail',
        observed=repr(outcome),
    )
    outcome = observe(E.override, specs.MISSING, 1, path)
    case.check(
        outcome.error is None
        and same_element(E.select(outcome.value, path), 1),
        'overriding a place of a missing element creates it',
        observed=repr(outcome),
    )


@check.workload(quick=1500, thorough=30000)
def histories(case):
    """Sequences of operations against the model, errors leave no trace."""
    rng = case.rng
    element = {}
    model = {}
    trace = []
    for _ in range(rng.randrange(3, 14)):
        fields = rand_fields(rng, element) or [elements.rand_key(rng)]
        path = elements.write(rng, fields)
        fields = elements.fields_of(path)
        roll = rng.random()
        if roll < 0.75:
            value = elements.rand_tree(rng, 1)
            combine = rng.random() < 0.3
            trace.append(('override', path, value, combine))
            result, error = expected(elements.override, model, value, fields, combine)
            outcome = observe(E.override, element, value, path, combine)
            case.event('overrides')
        else:
            trace.append(('remove', path))
            result, error = expected(elements.remove, model, fields)
            outcome = observe(E.remove, element, path)
            case.event('removals')
        case.note(trace=trace)
        if compare(case, outcome, result, error, trace[-1][0]):
            element, model = outcome.value, result
