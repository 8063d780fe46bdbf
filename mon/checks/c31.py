"""C31: containers of the user contain what their type parameters say"""
import collections
import json
import pickle

import marsh

from .. import containers, gen, refmarshal, specs
from ..core import Check
from ..oracles import expect, judge_unmarshal, observe
from ..values import freeze, is_element, same, same_element

check = Check(
    'C31',
    scale=2,
    rule=(
        'Random classes that are derived from containers, generic or '
        'not, over several levels: with parameters that are swapped, bound, '
        'nested, used twice or not at all; and classes that only look like '
        'containers. Outcomes of unmarshal and marshal are compared with a '
        'model that substitutes the parameters by itself. Non-trivial: '
        'distinct classes and values.'
    ),
    assumptions=[
        'Type parameters that are never bound have no content, and are not used.',
    ],
)
check.between = gen.clear_caches
check.require(**{
    'values': 4000,
    'values inside': 1000,
    'absent keys': 200,
    'model accepts': 9000,
    'model rejects': 6000,
    'marshaled': 1600,
    'round trips': 1500,
    'relatives': 1400,
    'bare classes': 1500,
    'documented': 500,
    'parameters 0': 500,
    'parameters 2': 400,
    'parameters 3': 40,
    **{f'root {root.name}': 100 for root in containers.ROOTS},
})


def draw(case, **kwargs):
    spec = containers.gen_container(case.rng, **kwargs)
    case.event(f'root {spec.root.name}')
    case.event(f'parameters {len(spec.made.parameters)}')
    case.note(type=spec)
    case.sample(spec)
    return spec


@check.workload(quick=3000, thorough=60000)
def elements(case):
    spec = draw(case)
    for element, _ in gen.elements(case, spec):
        expected = expect(spec.un, element)
        outcome = observe(marsh.unmarshal, spec.t, element)
        judge_unmarshal(case, spec, element, outcome, expected)
        if outcome.error is None:
            case.event('values')
            case.distinct(freeze(outcome.value))
            case.check(
                spec.conforms(outcome.value),
                'the value is not an instance of the class',
                element=element, observed=outcome,
            )
            if isinstance(outcome.value, collections.defaultdict):
                check_absent_keys(case, spec, outcome.value)


def check_absent_keys(case, spec, value):
    """The zero of the declared type of the values, or None without one."""
    key = object()
    made = observe(lambda: value[key])
    expected = None
    if isinstance(spec.inner, specs.AnyS):
        case.check(made.error is None and made.value is None, 'an absent key is not None', observed=made)
    else:
        for start in ('???', 0, '', None):
            expected = expect(spec.inner.un, start)
            if expected is None or expected.error is None:
                break
        if expected is not None:
            case.event('absent keys')
            case.check(
                (made.error is None) == (expected.error is None)
                and (made.error is None or isinstance(made.error, marsh.errors.MarshError)),
                'an absent key is not made as expected', observed=made, expected=expected,
            )
            if made.error is None:
                case.check(
                    same(made.value, expected.value), 'the value of an absent key differs from the model',
                    observed=made, expected=expected,
                )
    value.pop(key, None)


@check.workload(quick=1200, thorough=24000)
def values(case):
    """Values come back from their elements."""
    spec = draw(case)
    for _ in range(3):
        value = gen.typed_value(case, spec)
        if value is None:
            continue
        case.note(value=value)
        element = observe(marsh.marshal, value)
        if gen.no_value(spec, (specs.CallS, specs.AnnotatedS, specs.AnyS, specs.BareS)):
            # is not determined by the value
            continue
        case.check(element.error is None, 'the value is not marshaled', observed=element)
        case.note(element=element.value)
        expected = refmarshal.marshal(value)
        case.check(
            is_element(element.value) and same_element(element.value, expected),
            'marshaled to an unexpected element', expected=expected,
        )
        case.event('marshaled')
        back = expect(spec.un, expected)
        for text in (False, True):
            seen = observe(
                marsh.unmarshal, spec.t, json.loads(json.dumps(expected)) if text else element.value,
            )
            judge_unmarshal(case, spec, expected, seen, back)
        if spec.lossless and not gen.no_value(spec, specs.DateTimeS):
            case.event('round trips')
            case.distinct(freeze(value))
            case.check(same(seen.value, value), 'the value that is read back differs', observed=seen)
            case.check(
                same(observe(marsh.cast, spec.t, value).value, value), 'a cast to the own type changes the value',
            )


def nested(rng, depth):
    """A container somewhere inside of another type."""
    spec = containers.gen_container(rng, depth)
    for _ in range(rng.choice((1, 1, 2, 3))):
        roll = rng.randrange(7)
        name = f'Holder{rng.randrange(10 ** 9)}'
        if roll == 0:
            spec = specs.SeqS(spec, rng.choice(('List', 'Tuple...', 'Deque', 'Sequence')))
        elif roll == 1:
            spec = specs.MapS(specs.gen_key(rng), spec, rng.choice(specs.MapS.FORMS))
        elif roll == 2:
            spec = specs.OptS(spec) if not isinstance(spec, specs.OptS) else specs.TupleS([spec])
        elif roll == 3:
            spec = specs.TupleS([specs.gen_scalar(rng), spec])
        elif roll == 4:
            spec = specs.DataclassS(name, [specs.Field('other', specs.gen_scalar(rng)), specs.Field('inner', spec)])
        elif roll == 5:
            spec = specs.NamedTupleS(name, [specs.Field('inner', spec)])
        else:
            spec = specs.TypedDictS(name, [specs.Field('inner', spec), specs.Field('again', spec)])
    return spec


@check.workload(quick=800, thorough=16000)
def inside(case):
    """As content, field or alternative of other types."""
    spec = gen.draw(case, make=nested)
    case.note(type=spec)
    for element, _ in gen.elements(case, spec):
        outcome = observe(marsh.unmarshal, spec.t, element)
        judge_unmarshal(case, spec, element, outcome, expect(spec.un, element))
        if outcome.error is None:
            case.event('values inside')
            case.check(spec.conforms(outcome.value), 'the value is not an instance of the type', element=element)


@check.workload(quick=500, thorough=10000)
def relatives(case):
    """The same class with other arguments, and its bases, one after the other."""
    rng = case.rng
    made = containers.gen_made(rng, 1, rng.choice((0, 1, 2)))
    if not made.parameters:
        return
    family = [containers.bind(rng, made, 1) for _ in range(rng.choice((2, 3)))]
    pairs = [(spec, element) for spec in family for element, _ in gen.elements(case, spec, n=3)]
    rng.shuffle(pairs)
    schemas = {}
    reuse = rng.random() < 0.5
    for spec, element in pairs:
        if reuse:
            if id(spec) not in schemas:
                schemas[id(spec)] = marsh.schema.UnmarshalSchema(spec.t)
            outcome = observe(schemas[id(spec)].unmarshal, element)
        else:
            outcome = observe(marsh.unmarshal, spec.t, element)
        judge_unmarshal(case, spec, element, outcome, expect(spec.un, element))
        case.event('relatives')


@check.workload(quick=800, thorough=16000)
def bare(case):
    """Type parameters that are not given are what bounds them."""
    rng = case.rng
    spec, given = containers.gen_bare(rng)
    case.event(f'root {spec.root.name}')
    case.note(bare=spec, parameters={repr(p): p.spec for p in spec.made.parameters})
    pairs = [(s, element) for s in rng.sample((spec, spec, given), 3) for element, _ in gen.elements(case, s, n=2)]
    for s, element in pairs:
        case.note(type=s)
        outcome = observe(marsh.unmarshal, s.t, element)
        judge_unmarshal(case, s, element, outcome, expect(s.un, element))
        case.event('bare classes' if s is spec else 'their aliases')
        if outcome.error is None:
            case.distinct(freeze(outcome.value))
            case.check(s.conforms(outcome.value), 'the value is not an instance of the class', element=element)


@check.workload(quick=500, thorough=10000)
def schemas(case):
    """What else is asked of the schemas."""
    spec = draw(case)
    schema = marsh.schema.UnmarshalSchema(spec.t)
    doc = observe(schema.doc, 2)
    case.check(doc.error is None, 'no documentation of a supported type', observed=doc)
    text = observe(marsh.doc.terminal.format_unmarshal_help, spec.t, width=90)
    case.check(text.error is None and isinstance(text.value, str), 'no help for a supported type', observed=text)
    case.check(str(schema) == str(marsh.schema.UnmarshalSchema(spec.t)), 'the text of the schema differs')
    selected = observe(schema.select, '')
    case.check(selected.error is None, 'the schema does not select itself', observed=selected)
    case.event('documented')
