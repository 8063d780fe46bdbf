"""C03: unmarshal returns exactly the described value"""
import marsh

from .. import gen, specs
from ..core import Check
from ..oracles import expect, judge_unmarshal, observe
from ..values import freeze

check = Check(
    'C03',
    scale=8,
    rule=(
        'Random type hints, each with valid and mutated elements; the '
        'outcome of unmarshal is compared with a reference model of the '
        'type hint that never asks marsh for anything. Non-trivial: '
        'distinct values that were returned.'
    ),
    assumptions=[
        'The model is undecided for a few elements of bytes, complex, '
        'slice, datetime and overlapping TypedDict keys; there only '
        'conformance to the type is judged.',
    ],
)
check.between = gen.clear_caches
check.require(**{'model accepts': 4000, 'model rejects': 4000})


def judge(case, spec, element, outcome):
    judge_unmarshal(
        case,
        spec,
        element,
        outcome,
        expect(spec.un, element),
        parts=('value', 'error'),
    )
    if outcome.error is None:
        case.event('values')
        case.distinct(freeze(outcome.value))
        case.note(type=repr(spec), element=element, observed=repr(outcome))
        case.check(
            spec.conforms(outcome.value),
            'the value is not an instance of the type',
        )


@check.workload(quick=2500, thorough=40000)
def random_types(case):
    spec = gen.draw(case)
    gen.observe_kinds(case, spec)
    case.sample(spec)
    for element, _ in gen.elements(case, spec):
        judge(case, spec, element, observe(marsh.unmarshal, spec.t, element))


@check.workload(quick=200, thorough=4000)
def deep_types(case):
    spec = gen.draw(case, depth=(4, 5))
    for element, _ in gen.elements(case, spec):
        judge(case, spec, element, observe(marsh.unmarshal, spec.t, element))


@check.workload(quick=800, thorough=12000)
def scalars_of_everything(case):
    """Every scalar type reads arbitrary elements."""
    spec = specs.gen_scalar(case.rng)
    for _ in range(8):
        element = specs.junk(case.rng)
        judge(case, spec, element, observe(marsh.unmarshal, spec.t, element))


@check.workload(quick=400, thorough=6000)
def built_schemas(case):
    """A schema that is built once reads elements like unmarshal does, in any
    order and repeatedly."""
    spec = gen.draw(case)
    outcome = observe(marsh.schema.UnmarshalSchema, spec.t)
    case.note(type=repr(spec))
    case.check(outcome.error is None, 'no schema for a supported type',
               observed=repr(outcome))
    schema = outcome.value
    pairs = list(gen.elements(case, spec))
    pairs += [case.rng.choice(pairs) for _ in range(4)]
    for element, _ in pairs:
        judge(case, spec, element, observe(schema.unmarshal, element))
    case.event('schemas')
