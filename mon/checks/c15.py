"""C15: fields survive being written into paths"""
import marsh

from .. import elements
from ..core import Check
from ..oracles import observe

check = Check(
    'C15',
    scale=40,
    rule=(
        'Random fields (with delimiters, quotes and escapes) and random '
        'path text for several delimiters; split is compared with a '
        'reference model, all other operations with laws over split. '
        'Non-trivial: distinct paths that were split.'
    ),
    assumptions=['Paths have no empty fields.'],
)
check.require(**{
    'well-formed': 5000,
    'malformed': 1000,
    'joined': 3000,
})

DELIMITERS = '.../:, |=a\n'
P = marsh.path


def rand_field(rng, delimiter):
    if rng.random() < 0.3:
        return rng.choice(elements.KEYS)
    n = rng.choice((1, 1, 2, 3, 5))
    return ''.join(rng.choice('ab0é \\\\"\'' + delimiter + delimiter) for _ in range(n))


def rand_path(rng, delimiter):
    n = rng.randrange(0, 9)
    return ''.join(rng.choice('abc0\\"\'' + delimiter * 3) for _ in range(n))


def fields(path, delimiter):
    return tuple(P.split(path, delimiter=delimiter))


def draw_delimiter(rng):
    """A delimiter, and arguments that select it."""
    d = rng.choice(DELIMITERS)
    return d, {} if d == '.' and rng.random() < 0.7 else {'delimiter': d}


@check.workload(quick=12000, thorough=300000)
def splitting(case):
    rng = case.rng
    d, using = draw_delimiter(rng)
    path = rand_path(rng, d)
    try:
        expected = elements.split(path, d)
    except elements.PathErr:
        expected = None
    case.note(path=path, **using, expected=expected)
    for fn in (
        lambda: tuple(P.split(path, **using)),
        lambda: tuple(P.iterative_split(path, **using)),
    ):
        outcome = observe(fn)
        case.note(observed=repr(outcome))
        if expected is None:
            case.event('malformed')
            case.check(
                isinstance(outcome.error, marsh.errors.PathError),
                'a malformed path has to be a PathError',
            )
        else:
            case.event('well-formed')
            case.distinct((d, path))
            case.check(
                outcome.error is None and outcome.value == expected,
                'the path is not split into its fields',
            )
    for fn, pick in ((P.head, 0), (P.tail, -1)):
        outcome = observe(fn, path, **using)
        case.note(function=fn.__name__, observed=repr(outcome))
        if expected is None:
            case.check(
                isinstance(outcome.error, marsh.errors.PathError),
                'a malformed path has to be a PathError',
            )
            continue
        case.check(outcome.error is None, 'a well-formed path was rejected')
        first, rest = outcome.value
        remaining = (expected[1:] if pick == 0 else expected[:-1]) if expected else ()
        case.check(
            first == (expected[pick] if expected else ''),
            'the wrong field was split from the path',
        )
        case.check(
            fields(rest, d) == remaining,
            'the remaining path lost or changed fields',
        )
    if expected is None:
        return
    stripped = P.strip_delimiter(path, **using)
    case.check(
        fields(stripped, d) == expected,
        'stripping delimiters changes the fields',
        stripped=stripped,
    )
    case.check(
        not stripped.startswith(d),
        'a leading delimiter was not stripped',
        stripped=stripped,
    )
    case.check(
        not stripped.endswith(d) or stripped.endswith('\\' + d),
        'a trailing delimiter was not stripped',
        stripped=stripped,
    )
    new = rand_field(rng, d)
    for fn, wanted in (
        (P.prepend, (new, *expected)),
        (P.append, (*expected, new)),
    ):
        longer = fn(path=path, field=new, **using)
        case.note(function=fn.__name__, field=new, longer=longer)
        case.event('joined')
        case.check(
            fields(longer, d) == wanted,
            'the field is not an additional field of the path',
        )
    for fn in (P.prepend, P.append):
        case.check(
            fields(fn(path=path, field='', **using), d) == expected,
            'an empty field changes the path',
        )


@check.workload(quick=4000, thorough=80000)
def joining(case):
    rng = case.rng
    d, using = draw_delimiter(rng)
    parts = [rand_field(rng, d) for _ in range(rng.randrange(6))]
    case.note(fields=parts, **using)
    case.sample(parts)
    path = P.join_fields(parts, **using)
    case.event('joined')
    case.distinct((d, path))
    case.check(
        fields(path, d) == tuple(parts),
        'joined fields are not restored by split',
        path=path,
    )
    for field in parts:
        escaped = P.escape_field(field, **using)
        case.check(
            fields(escaped, d) == (field,),
            'an escaped field is not restored by split',
            escaped=escaped,
        )
    # one after the other, in both directions
    forward, backward = '', ''
    for field in parts:
        forward = P.append(path=forward, field=field, **using)
    for field in reversed(parts):
        backward = P.prepend(path=backward, field=field, **using)
    case.check(
        forward == path and backward == path,
        'appending or prepending fields differs from joining them',
        forward=forward,
        backward=backward,
    )
    # consuming the path field by field
    for take, order in ((P.head, parts), (P.tail, parts[::-1])):
        rest = path
        for field in order:
            taken, rest = take(rest, **using)
            case.check(
                taken == field,
                'consuming the path yields other fields',
                function=take.__name__,
                taken=taken,
                field=field,
            )
        case.check(rest == '', 'there are fields left over', rest=rest)
    if d == '.':
        error = marsh.errors.MarshError('x')
        for field in reversed(parts):
            error.prepend(field)
        case.check(error.path == path, 'the path of an error differs', observed=error.path)
        error = marsh.errors.UnmarshalError('x')
        for field in parts:
            error.append(field)
        case.check(error.path == path, 'the path of an error differs', observed=error.path)


@check.workload(quick=2000, thorough=40000)
def notations(case):
    """The same fields in any mix of quotes and escapes."""
    rng = case.rng
    parts = [rand_field(rng, '.') for _ in range(rng.randrange(1, 6))]
    path = elements.write(rng, parts)
    case.note(fields=parts, path=path)
    case.event('well-formed')
    case.distinct(path)
    case.check(
        fields(path, '.') == tuple(parts),
        'a notation of the fields is not split into them',
    )
