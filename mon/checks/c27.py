"""C27: casts, keyword arguments and arguments agree with marshal and unmarshal"""
import collections
import types

import marsh

from .. import gen, programs, refmarshal, specs
from ..core import Check
from ..oracles import MarshError, expect, judge_unmarshal, observe
from ..values import freeze, same

check = Check(
    'C27',
    scale=3,
    rule=(
        'Values of random types are cast to the same and to other random '
        'types, structured types are filled with an element and keyword '
        'arguments, and arguments of random signatures are read without '
        'calling the function, with and without arguments that were given '
        'before. Judged by a model of marshal, unmarshal and of binding. '
        'Non-trivial: distinct results.'
    ),
)
check.between = gen.clear_caches
check.require(**{
    'casts': 3000,
    'casts accepted': 1500,
    'casts refused': 1200,
    'casts to the own type': 1000,
    'keywords': 1200,
    'keywords accepted': 500,
    'keywords that replace': 250,
    'no mapping': 80,
    'arguments': 1500,
    'arguments bound': 600,
    'arguments refused': 350,
    'given before': 250,
    'documented arguments': 250,
    'called': 600,
})


def model_marshal(value):
    try:
        return refmarshal.marshal(value)
    except refmarshal.NotSupported:
        raise specs.Err() from None


def document(case, schema, fields, given_args, given_kwargs):
    """Arguments that are given are documented as defaults."""
    expected = {}
    args, kwargs = list(given_args), dict(given_kwargs)
    for f in fields:
        text = None
        if f.kind == '**':
            text = kwargs and str(kwargs)
        elif f.kind == '*':
            text = args and str(args)
            args = []
        elif f.kind in ('pos', 'pk') and args:
            text = str(args.pop(0))
        elif f.name in kwargs:
            text = str(kwargs.pop(f.name))
        expected[(f.kind if '*' in f.kind else '') + f.name] = text or None
    before = observe(schema.doc, 1)
    seen = observe(schema.doc, 1, default_args=given_args, default_kwargs=given_kwargs)
    case.note(documented=repr(seen), defaults=expected)
    case.check(before.error is None and seen.error is None, 'no documentation')
    case.event('documented')
    usual = before.value.fields or {}
    observed = seen.value.fields or {}
    case.check(list(observed) == list(usual) == list(expected), 'other parameters are documented')
    for name, text in expected.items():
        if text is None:
            text = usual[name].doc.default
        else:
            case.event('documented arguments')
        case.check(
            observed[name].doc.default == text, 'another default is documented',
            parameter=name, observed=observed[name].doc.default, expected=text,
        )
        case.check(
            observed[name].type == usual[name].type, 'another type is documented', parameter=name,
        )


@check.workload(quick=3000, thorough=60000)
def casts(case):
    rng = case.rng
    spec = gen.draw(case)
    own = rng.random() < 0.4
    origin = spec if own else gen.draw(case)
    for _ in range(2):
        roll = rng.random()
        if roll < 0.1:
            value = rng.choice((specs.rand_scalar(rng), specs.rand_element(rng), marsh.MISSING))
        else:
            try:
                value = origin.value(rng)
            except (specs.Err, specs.Unknown):
                continue
        case.event('casts')
        case.note(origin=repr(origin), value=value)
        before = freeze(value)
        expected = expect(lambda: spec.un(model_marshal(value)))
        outcome = observe(marsh.cast, spec.t, value)
        judge_unmarshal(
            case, spec, value, outcome, expected, parts=('value', 'error', 'path', 'missing')
            if not isinstance(outcome.error, marsh.errors.MarshalError) else (),
        )
        steps = observe(lambda: marsh.unmarshal(spec.t, marsh.marshal(value)))
        case.check(
            # some texts are times relative to now
            outcome.key() == steps.key() or gen.no_value(spec, specs.DateTimeS),
            'a cast is not a marshal and an unmarshal',
            observed=repr(outcome), expected=repr(steps),
        )
        case.check(freeze(value) == before, 'the value was changed by casting it', observed=value)
        if outcome.error is None:
            case.event('casts accepted')
            case.distinct((repr(spec), freeze(outcome.value)))
            if not own:
                continue
            case.event('casts to the own type')
            if spec.lossless and same(outcome.value, value):
                again = observe(marsh.cast, spec.t, outcome.value)
                case.check(
                    again.error is None and same(again.value, outcome.value),
                    'casting again gives another value', observed=repr(again), expected=outcome.value,
                )
        else:
            case.event('casts refused')
            case.check(isinstance(outcome.error, MarshError), 'another kind of error', observed=repr(outcome))
    case.sample(f'{origin!r} -> {spec!r}')


def disguise_mapping(rng, element):
    return rng.choice((
        lambda e: e, lambda e: dict(e), specs.MapView, types.MappingProxyType,
        collections.OrderedDict, lambda e: collections.ChainMap(dict(e)),
        collections.UserDict,
    ))(element)


@check.workload(quick=1500, thorough=30000)
def keywords(case):
    rng = case.rng

    def make(r, depth):
        return r.choice((
            specs.gen_dataclass, specs.gen_namedtuple, specs.gen_typeddict,
            specs.gen_callable,
        ))(r, depth)

    spec = gen.draw(case, make=make)
    for hostility in (0, 0, 1):
        element = gen.draw_element(case, spec, hostility)
        case.event('keywords')
        kwargs = {}
        for f in spec.fields:
            if f.kind in ('pk', 'kw') and rng.random() < 0.5:
                try:
                    kwargs[f.name] = f.spec.value(rng)
                except (specs.Err, specs.Unknown):
                    continue
        if rng.random() < 0.1:
            kwargs['unknown_name'] = specs.rand_scalar(rng)
        if rng.random() < 0.1:
            kwargs[rng.choice(list(kwargs) or ['x'])] = marsh.MISSING
        kwargs.pop('element', None)
        kwargs.pop('type_', None)
        if specs.is_map(element):
            for name in list(element):
                # sometimes only the keyword
                if name in kwargs and rng.random() < 0.5:
                    element = {k: v for k, v in element.items() if k != name}
            element = disguise_mapping(rng, element)
            if any(name in element for name in kwargs):
                case.event('keywords that replace')
        args = (element,)
        if rng.random() < 0.2:
            element = marsh.MISSING
            args = rng.choice(((), (element,)))
        case.note(type=repr(spec), element=element, kwargs=kwargs)
        before = freeze(element) if not specs.missing(element) else None, freeze(kwargs)
        outcome = observe(marsh.unmarshal, spec.t, *args, **kwargs)
        if not kwargs:
            expected = expect(lambda: spec.un(element))
        elif not specs.is_map(element) and not specs.missing(element):
            case.event('no mapping')
            case.check(
                isinstance(outcome.error, (TypeError, MarshError)),
                'keywords for something that is not a mapping', observed=repr(outcome),
            )
            continue
        else:
            whole = {} if specs.missing(element) else dict(element)
            expected = expect(lambda: spec.un({**whole, **model_marshal(kwargs)}))
        if isinstance(outcome.error, marsh.errors.MarshalError):
            case.check(expected is None or expected.error is not None, 'a value of a keyword is not marshaled')
            continue
        judge_unmarshal(case, spec, element, outcome, expected)
        if outcome.error is None and kwargs:
            case.event('keywords accepted')
            case.distinct((repr(spec), freeze(outcome.value)))
        case.check(
            (freeze(element) if not specs.missing(element) else None, freeze(kwargs)) == before,
            'the element or the keywords were changed',
        )


@check.workload(quick=2000, thorough=40000)
def arguments(case):
    rng = case.rng
    fields = specs.gen_params(rng, rng.choice((1, 2)))
    if rng.random() < 0.3:
        fields = [f for f in fields if f.kind not in ('*', '**')]
    function = programs.Function(fields, result=object())
    given_args, given_kwargs = [], {}
    if rng.random() < 0.4:
        # some that are given before
        positional = rng.random() < 0.5
        for f in fields:
            if f.kind == '**' or f.kind == '*' and not positional:
                continue
            try:
                value = f.spec.value(rng)
            except (specs.Err, specs.Unknown):
                positional = False
                continue
            if f.kind in ('pos', 'pk', '*') and positional:
                given_args.append(value)
                positional = rng.random() < 0.7
            elif f.kind in ('kw', 'pk') and rng.random() < 0.5:
                positional = False
                given_kwargs[f.name] = value
            else:
                positional = False
        if any(f.kind == '**' for f in fields) and rng.random() < 0.3:
            given_kwargs['given'] = 5
    given = bool(given_args or given_kwargs)
    case.note(fields=fields, args=given_args, kwargs=given_kwargs)
    schema = marsh.schema.argument.ArgumentsUnmarshalSchema(function.fn)
    document(case, schema, fields, given_args, given_kwargs)
    for hostility in (0, 0, 1, 2):
        try:
            element = specs.field_element(rng, fields)
        except (specs.Err, specs.Unknown):
            continue
        for _ in range(hostility):
            element = specs.mutate(rng, element)
        if given and specs.is_map(element) and rng.random() < 0.7:
            names = [f.name for f in fields][:len(given_args)]
            element = {
                k: v for k, v in element.items() if k not in given_kwargs and k not in names
            }
        case.event('arguments')
        case.note(element=element)
        expected = expect(function.expected, element, given_args, given_kwargs)
        function.calls.clear()
        if given:
            case.event('given before')
            defaults = {
                'default_args': rng.choice((list, tuple))(given_args),
                'default_kwargs': given_kwargs,
            }
            # nothing can be left out
            for name, value in list(defaults.items()):
                if not value and rng.random() < 0.7:
                    case.event('nothing given')
                    if rng.random() < 0.5:
                        defaults[name] = None
                    else:
                        del defaults[name]
            seen = observe(schema.unmarshal, element, **defaults)
        else:
            seen = observe(marsh.unmarshal_args, function.fn, element)
        case.check(not function.calls, 'the function is called')
        case.note(observed=repr(seen), expected=repr(expected))
        if expected is None:
            continue
        if expected.error is not None:
            case.event('arguments refused')
            case.check(isinstance(seen.error, marsh.errors.UnmarshalError), 'bad arguments are accepted')
            if not given:
                case.check(
                    seen.error.path == specs.join(expected.error.path), 'the path of the error is wrong',
                    observed=seen.error.path, expected=expected.error.path,
                )
            continue
        case.check(seen.error is None, 'good arguments are refused')
        case.event('arguments bound')
        result = seen.value
        case.check(
            isinstance(result, marsh.schema.argument.Arguments)
            and tuple(result) == (result.args, result.kwargs),
            'not arguments',
        )
        bound = observe(lambda: function.signature.bind(*result.args, **result.kwargs))
        case.check(bound.error is None, 'the arguments do not fit the function', observed=repr(bound))
        bound.value.apply_defaults()
        case.check(
            same(dict(bound.value.arguments), expected.value), 'other arguments',
            observed=bound.value.arguments, expected=expected.value,
        )
        case.distinct((repr(fields), freeze(list(expected.value.values()))))
        if given:
            continue
        # and these are what the function is called with
        if same(expect(programs.bound, function.fields, element, {}).value, expected.value):
            called = observe(marsh.unmarshal, function.fn, element)
            case.check(
                called.error is None and len(function.calls) == 1
                and same(function.calls[0], expected.value),
                'the function is called with something else',
                observed=function.calls, expected=expected.value,
            )
            case.event('called')
    # values instead of elements
    data = {}
    for f in fields:
        if f.kind in ('pk', 'kw'):
            try:
                data[f.name] = f.spec.value(rng)
            except (specs.Err, specs.Unknown):
                return
    case.note(data=data)
    expected = expect(lambda: programs.bound(function.fields, model_marshal(data), {}))
    seen = observe(marsh.cast_args, function.fn, data)
    case.note(observed=repr(seen), expected=repr(expected))
    if expected is None or isinstance(seen.error, marsh.errors.MarshalError):
        return
    case.check((seen.error is None) == (expected.error is None), 'cast arguments are refused or accepted wrongly')
    if seen.error is None:
        bound = function.signature.bind(*seen.value.args, **seen.value.kwargs)
        bound.apply_defaults()
        case.check(same(dict(bound.arguments), expected.value), 'other arguments of values', observed=bound.arguments)
