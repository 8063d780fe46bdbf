"""C08: elements are bound to fields and parameters like python binds them"""
import marsh

from .. import gen, source, specs
from ..core import Check
from ..oracles import UnmarshalError, expect, judge_unmarshal, observe
from ..values import freeze, same

check = Check(
    'C08',
    scale=5,
    rule=(
        'Dataclasses (inheritance, InitVar, KW_ONLY, slots, frozen, '
        'ClassVar, string annotations), named tuples, typed dicts, tuples, '
        'functions, methods, classes, partials and callable objects with all '
        'kinds of parameters, '
        'partly written as source code; elements are mappings and '
        'sequences, complete, incomplete and damaged. The reference is the '
        'python call with arguments that the models of the parameter types '
        'read. Non-trivial: distinct constructed values.'
    ),
)
check.between = gen.clear_caches
check.require(**{
    'bound': 2500,
    'rejected': 1500,
    'from sequences': 500,
    'dataclass': 300,
    'function': 100,
    'constructor': 50,
    'metaclass': 50,
    'object': 50,
    'partial': 50,
})


def judge(case, module, target, declared, element):
    fields = source.fields_of(target, declared)
    try:
        values, extra, extra_kw = specs.bind(fields, element)
        args, kwargs = [], {}
        for f in fields:
            if f.kind == 'pos' or (f.kind == 'pk' and extra):
                args.append(values[f.name])
            elif f.kind in ('pk', 'kw'):
                kwargs[f.name] = values[f.name]
        module.SEEN.clear()
        expected = source.snapshot(target(*args, *extra, **kwargs, **extra_kw), module)
        error = None
    except specs.Err as err:
        expected, error = None, err
    except specs.Unknown:
        return
    module.SEEN.clear()
    outcome = observe(marsh.unmarshal, target, element)
    case.note(element=element, observed=repr(outcome), expected=expected)
    case.event('oracle evaluations')
    if error is not None:
        case.event('rejected')
        case.check(
            isinstance(outcome.error, UnmarshalError),
            'an element that can not be bound was accepted',
        )
        return
    case.event('bound')
    if specs.is_seq(element):
        case.event('from sequences')
    case.check(outcome.error is None, 'an element that can be bound was rejected')
    observed = source.snapshot(outcome.value, module)
    case.note(observed=observed)
    case.distinct((repr(sorted(declared)), freeze(list(observed[1:]))))
    case.check(
        observed[0] is expected[0]
        and same(plain(observed[1]), plain(expected[1]))
        and same(observed[2], expected[2]),
        'the arguments differ from what python binds',
    )


def plain(state):
    return dict(sorted(state.items())) if isinstance(state, dict) else state


def elements(case, fields, n):
    for i in range(n):
        element = None
        for _ in range(10):
            try:
                element = specs.field_element(case.rng, fields)
                break
            except (specs.Err, specs.Unknown):
                pass
        if element is None:
            return
        for _ in range((0, 0, 0, 1, 1, 2)[i % 6]):
            element = specs.mutate(case.rng, element)
        if case.rng.random() < 0.1:
            element = specs.disguise(case.rng, element)
        yield element


@check.workload(quick=700, thorough=12000)
def dataclasses_from_source(case):
    rng = case.rng
    src = source.Source(rng)
    names = [f'C{case.index}_{i}' for i in range(rng.choice((1, 2, 3)))]
    base = None
    for name in names:
        src.dataclass(name, base)
        base = name
    case.note(source=src.text)
    try:
        module = src.build()
    except TypeError:
        # e.g. a field without default that follows one with default
        case.event('invalid sources')
        src.forget()
        return
    try:
        order = list(names)
        rng.shuffle(order)
        for name in order:
            case.event('dataclass')
            target = getattr(module, name)
            fields = source.fields_of(target, src.kinds[name])
            for element in elements(case, fields, 6):
                judge(case, module, target, src.kinds[name], element)
    finally:
        src.forget()


@check.workload(quick=900, thorough=15000)
def callables_from_source(case):
    rng = case.rng
    src = source.Source(rng)
    kinds = []
    for i in range(2):
        kind = rng.choice((
            'function', 'function', 'class', 'classmethod', 'staticmethod',
            'method', 'constructor', 'metaclass', 'inherited', 'object',
            'wrapped', 'partial',
        ))
        kinds.append(kind)
        src.callable(f'f{case.index}_{i}', kind)
    case.note(source=src.text)
    case.sample(src.lines[0])
    module = src.build()
    try:
        for i, kind in enumerate(kinds):
            name = f'f{case.index}_{i}'
            case.event(kind)
            target = getattr(module, name)
            fields = source.fields_of(target, src.kinds[name])
            for element in elements(case, fields, 6):
                judge(case, module, target, src.kinds[name], element)
    finally:
        src.forget()


@check.workload(quick=300, thorough=6000)
def namedtuples_from_source(case):
    rng = case.rng
    src = source.Source(rng)
    name = f'NT{case.index}'
    src.namedtuple(name)
    case.note(source=src.text)
    module = src.build()
    try:
        target = getattr(module, name)
        fields = source.fields_of(target, src.kinds[name])
        case.event('namedtuple')
        for element in elements(case, fields, 6):
            judge(case, module, target, src.kinds[name], element)
    finally:
        src.forget()


@check.workload(quick=1500, thorough=25000)
def structured_types(case):
    """Against the model, with nested types in all places."""
    rng = case.rng

    def make(r, depth):
        return r.choice((
            specs.gen_dataclass, specs.gen_namedtuple, specs.gen_typeddict,
            specs.gen_callable,
            lambda r, d: specs.TupleS(
                [specs.gen_spec(r, d - 1) for _ in range(r.randrange(1, 4))],
            ),
        ))(r, depth)

    spec = gen.draw(case, depth=(1, 1, 2), make=make)
    gen.observe_kinds(case, spec)
    for element, _ in gen.elements(case, spec, 6, (0, 0, 1, 1, 2, 2)):
        outcome = observe(marsh.unmarshal, spec.t, element)
        expected = expect(spec.un, element)
        judge_unmarshal(
            case, spec, element, outcome, expected,
            parts=('value', 'error', 'missing'),
        )
        if expected is not None:
            case.event('bound' if expected.error is None else 'rejected')
            if expected.error is None:
                case.distinct(freeze(outcome.value))
    # the same content as mapping and as sequence
    if isinstance(spec, (specs.DataclassS, specs.NamedTupleS)):
        element = gen.draw_element(case, spec, 0)
        if specs.is_map(element) and all(f.kind == 'pk' for f in spec.fields):
            names = [f.name for f in spec.fields]
            n = 0
            while n < len(names) and names[n] in element:
                n += 1
            if len(element) == n:
                as_sequence = [element[name] for name in names[:n]]
                a = observe(marsh.unmarshal, spec.t, element)
                b = observe(marsh.unmarshal, spec.t, as_sequence)
                case.event('mapping and sequence')
                case.check(
                    (a.error is None) == (b.error is None)
                    and (a.error is not None or freeze(a.value) == freeze(b.value)),
                    'a sequence of the fields differs from the mapping',
                    type=repr(spec),
                    element=element,
                    observed=repr((a, b)),
                )
    del rng
