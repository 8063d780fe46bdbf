"""C01: unmarshal(T, marshal(v)) == v"""
import datetime
import json
import logging
import typing

import marsh

from .. import gen, refmarshal, specs
from ..core import Check
from ..oracles import expect
from ..values import is_element, same

check = Check(
    'C01',
    scale=12,
    rule=(
        'A random type hint (nested up to three levels out of every '
        'supported family of types) and a random instance of it are drawn; '
        'the instance goes through marshal and unmarshal (also with the '
        'element sent through JSON text) and is compared, including all '
        'types, with the original. Non-trivial: the marshaled element is '
        'distinct from all others of the same type family.'
    ),
    assumptions=[
        'The string ??? is the missing value and never a value.',
        'Unions are compared only when the reference model reads the '
        'original value back, an earlier arm may accept the element.',
        'Callables and annotated types are not invertible and excluded.',
    ],
)
check.between = gen.clear_caches
check.require(**{
    'round trips': 3000,
    'round trips of lossless types': 2000,
    'type DataclassS': 100,
    'type MapS': 100,
    'type SeqS': 100,
    'type EnumS': 50,
    'type DateTimeS': 30,
    'loggers': 200,
    'levels restored': 30,
    'loggers without level below others': 30,
})

ONE_WAY = (specs.CallS, specs.AnnotatedS)


def invertible(spec):
    return not gen.no_value(spec, ONE_WAY)


def has_date(spec):
    return any(
        isinstance(s, specs.DateTimeS) and s.t is datetime.date
        for s in spec.walk()
    )


@check.workload(quick=2600, thorough=40000)
def typed_values(case):
    spec = gen.draw(case, accept=lambda s: invertible(s) and not has_date(s))
    gen.observe_kinds(case, spec)
    case.sample(spec)
    for _ in range(3):
        value = gen.typed_value(case, spec)
        case.note(type=repr(spec), value=value)
        element = marsh.marshal(value)
        case.note(element=element)
        if not spec.lossless:
            back = expect(spec.un, refmarshal.marshal(value))
            if back is None or back.error or not same(back.value, value):
                case.event('ambiguous unions')
                continue
        else:
            case.event('round trips of lossless types')
        case.event('round trips')
        case.distinct(repr(element))
        observed = marsh.unmarshal(spec.t, element)
        case.check(
            same(observed, value),
            'the value that is read back differs',
            observed=observed,
        )
        if not gen.no_value(spec, specs.SeqS):  # sets have no order
            again = marsh.marshal(observed)
            case.check(
                same(again, element),
                'marshaling the value that was read back differs',
                again=again,
            )
        if gen.no_value(spec, (specs.AnyS, specs.BareS)):
            continue  # JSON has no tuples, only lists
        text = json.dumps(element)
        observed = marsh.unmarshal(spec.t, json.loads(text))
        case.check(
            same(observed, value),
            'the value that is read back from JSON differs',
            observed=observed,
        )


@check.workload(quick=300, thorough=4000)
def dates(case):
    """A date comes back as that day."""
    spec = specs.DateTimeS(datetime.date)
    value = spec.value(case.rng)
    case.note(value=value)
    case.event('round trips')
    observed = marsh.unmarshal(datetime.date, marsh.marshal(value))
    case.check(
        isinstance(observed, datetime.date)
        and (observed.year, observed.month, observed.day)
        == (value.year, value.month, value.day),
        'the date that is read back differs',
        observed=observed,
    )
    case.distinct(value)


LEVELS = ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL', 'NOTSET', 13, 25, 1, 99, 'MON_NOTICE')


@check.workload(quick=300, thorough=4000)
def loggers(case):
    """A logger is the same logger, with the level it had, and no other is changed."""
    rng = case.rng
    if logging.getLevelName('MON_NOTICE') != 27:
        logging.addLevelName(27, 'MON_NOTICE')
    names = ['mon_c01']
    for _ in range(rng.randrange(1, 5)):
        names.append(f'{rng.choice(names)}.{rng.choice(("a", "b", "7", "1.0", "true", "x y"))}')
    family = [logging.getLogger(name) for name in dict.fromkeys(names)]
    levels = {}
    root = logging.getLogger().level

    def state():
        return {logger.name: logger.level for logger in family}

    try:
        for logger in family:
            logger.setLevel(rng.choice(LEVELS) if rng.random() < 0.6 else 0)
        levels = state()
        logger = rng.choice(family)
        hint, value = rng.choice((
            (logging.Logger, logger),
            (typing.List[logging.Logger], [logger]),
            (typing.Dict[str, logging.Logger], {'k': logger}),
            (typing.Optional[logging.Logger], logger),
        ))
        case.note(levels=levels, logger=logger.name, type=hint)
        element = marsh.marshal(value)
        if rng.random() < 0.5:
            element = json.loads(json.dumps(element))
        case.note(element=element)
        case.distinct((tuple(levels.items()), logger.name))
        case.check(state() == levels, 'marshaling changes the level of a logger', observed=state())
        if rng.random() < 0.5 and logger.level:
            # it has got another one in the meantime
            logger.setLevel(rng.choice(LEVELS))
            case.event('levels restored')
        back = marsh.unmarshal(hint, element)
        case.check(
            same(back, value) and state() == levels and logging.getLogger().level == root,
            'a logger comes back as another one or with another level',
            observed=(back, state()),
        )
        case.event('loggers')
        if any(other.level for other in family if other is not logger) and not logger.level:
            case.event('loggers without level below others')
    finally:
        for logger in family:
            logger.setLevel(0)


@check.workload(quick=250, thorough=4000)
def deep_values(case):
    """Deeper nesting of fewer type families."""
    def make(rng, depth):
        spec = specs.gen_scalar(rng)
        for _ in range(depth):
            roll = rng.randrange(6)
            if roll == 0:
                spec = specs.SeqS(spec, rng.choice(('List', 'Tuple...', 'Deque', 'Sequence')))
            elif roll == 1:
                spec = specs.MapS(specs.gen_key(rng), spec, rng.choice(specs.MapS.FORMS))
            elif roll == 2 and not specs._noneish(spec):
                spec = specs.OptS(spec)
            elif roll == 3:
                spec = specs.TupleS([spec, specs.gen_scalar(rng)])
            elif roll == 4:
                spec = specs.DataclassS(
                    'Deep%d' % rng.randrange(10**6),
                    [specs.Field('inner', spec), specs.Field('other', specs.gen_scalar(rng))],
                )
            else:
                spec = specs.NamedTupleS(
                    'DeepNT%d' % rng.randrange(10**6),
                    [specs.Field('inner', spec)],
                )
        return spec

    spec = gen.draw(
        case,
        depth=(4, 6, 8),
        accept=lambda s: s.lossless and not has_date(s) and invertible(s),
        make=make,
    )
    value = gen.typed_value(case, spec)
    case.note(type=repr(spec), value=value)
    element = marsh.marshal(value)
    case.check(is_element(element), 'the element is not JSON-like', element=element)
    observed = marsh.unmarshal(spec.t, element)
    case.event('round trips')
    case.event('round trips of lossless types')
    case.distinct(repr(element))
    case.check(
        same(observed, value),
        'the value that is read back differs',
        element=element,
        observed=observed,
    )
