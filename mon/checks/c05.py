"""C05: the path of an error locates the failure"""
import marsh

from .. import gen, specs
from ..core import Check
from ..oracles import expect, judge_unmarshal, observe

check = Check(
    'C05',
    scale=5,
    rule=(
        'A subelement of a valid element is damaged; the path of the '
        'UnmarshalError is compared with the path of the reference model, '
        'and it has to resolve inside of the element (or to exactly one '
        'absent field of a container). Non-trivial: distinct error paths.'
    ),
    assumptions=[
        'The first failure in the order of the reference model is reported.',
    ],
)
check.between = gen.clear_caches
check.require(**{
    'errors': 4000,
    'nested errors': 2000,
    'escaped paths': 100,
})


def split(path):
    """Fields of a path, independent of marsh.path"""
    fields, field, escaped = [], '', False
    for c in path:
        if escaped:
            field += c
            escaped = False
        elif c == '\\':
            escaped = True
        elif c == '.':
            fields.append(field)
            field = ''
        else:
            field += c
    fields.append(field)
    return fields if path else []


def resolves(element, fields):
    for i, field in enumerate(fields):
        if specs.is_map(element):
            if field in element:
                element = element[field]
                continue
            matching = [k for k in element if str(k) == field]
            if matching:
                element = element[matching[0]]
                continue
            return i == len(fields) - 1
        if specs.is_seq(element):
            if field.isdigit() and int(field) < len(element):
                element = element[int(field)]
                continue
            return i == len(fields) - 1
        return False
    return True


def judge(case, spec, element):
    outcome = observe(marsh.unmarshal, spec.t, element)
    if not isinstance(outcome.error, marsh.errors.UnmarshalError):
        return
    path = outcome.error.path
    case.event('errors')
    case.distinct(path)
    case.note(type=repr(spec), element=element, observed=repr(outcome))
    if '.' in path:
        case.event('nested errors')
    if '\\' in path:
        case.event('escaped paths')
    expected = expect(spec.un, element)
    judge_unmarshal(case, spec, element, outcome, expected, parts=('path',))


@check.workload(quick=3500, thorough=60000)
def damaged(case):
    spec = gen.draw(case, depth=(1, 2, 3, 3, 4))
    case.sample(spec)
    for element, _ in gen.elements(case, spec, 6, (1, 1, 1, 2, 2, 3)):
        judge(case, spec, element)


def deep_spec(rng, depth):
    """A chain of containers around a scalar."""
    spec = rng.choice(
        (specs.PrimS(int), specs.PrimS(bool), specs.EnumS(specs.Plain)),
    )
    chain = []
    for _ in range(depth):
        roll = rng.randrange(7)
        if roll == 0:
            spec = specs.SeqS(spec, rng.choice(specs.SeqS.FORMS[:8]))
        elif roll == 1:
            spec = specs.MapS(specs.PrimS(str), spec, rng.choice(specs.MapS.FORMS))
        elif roll == 2:
            spec = specs.TupleS([specs.PrimS(int), spec])
        elif roll == 3:
            spec = specs.DataclassS(
                'Chain%d' % rng.randrange(10**6),
                [
                    specs.Field('a', specs.PrimS(int), default=1),
                    specs.Field('b', spec, kind='kw'),
                ],
            )
        elif roll == 4:
            spec = specs.NamedTupleS(
                'ChainNT%d' % rng.randrange(10**6),
                [specs.Field('x', spec), specs.Field('y', specs.PrimS(int))],
            )
        elif roll == 5:
            spec = specs.TypedDictS(
                'ChainTD%d' % rng.randrange(10**6),
                [specs.Field('k', spec), specs.Field('a.b', specs.PrimS(int))],
            )
        elif not specs._noneish(spec):
            spec = specs.OptS(spec)
        chain.append(roll)
    return spec


@check.workload(quick=600, thorough=10000)
def chains(case):
    spec = gen.draw(case, depth=(3, 5, 8), make=deep_spec)
    for _ in range(4):
        specs.SEQUENCES.append(False)
        try:
            element = gen.draw_element(case, spec, 0)
        finally:
            specs.SEQUENCES.pop()
        places = list(specs.positions(element))
        place = case.rng.choice(places[-3:])
        if '' in place:
            continue  # paths have no empty fields
        bad = specs.replace(element, place, lambda sub: specs.Opaque())
        outcome = observe(marsh.unmarshal, spec.t, bad)
        case.note(type=repr(spec), element=bad, observed=repr(outcome))
        judge(case, spec, bad)
        if isinstance(outcome.error, marsh.errors.UnmarshalError):
            fields = split(outcome.error.path)
            case.check(
                resolves(bad, fields),
                'the path does not resolve inside of the element',
            )
            case.check(
                fields == [str(field) for field in place][:len(fields)],
                'the path leads somewhere else than to the damage',
                place=repr(place),
            )
            case.event('resolved paths')
