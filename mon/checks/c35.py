"""C35: the assertions of marsh.testing hold exactly if what they assert is so"""
import re

import pytest

import marsh
import marsh.testing

from .. import gen, refmarshal, specs
from ..core import Check
from ..oracles import expect, observe
from ..values import same, same_element

check = Check(
    'C35',
    scale=8,
    rule=(
        'Assertions about random types, elements and values, true and false '
        'ones, and blocks that raise random chains of errors. Whether they '
        'hold is known from the reference model of the type, and from how '
        'the chain was made. Non-trivial: distinct assertions.'
    ),
    assumptions=[
        'Values are compared by ==, as the helpers document.',
    ],
)
check.between = gen.clear_caches
check.require(**{
    'true assertions': 3000,
    'false assertions': 3000,
    'causes found': 300,
    'causes not found': 300,
    'equal but not the same': 150,
})

Failed = pytest.fail.Exception  # not an Exception
KINDS = (
    ValueError, TypeError, KeyError, LookupError, OSError, ArithmeticError, ZeroDivisionError,
    marsh.errors.MarshError, marsh.errors.UnmarshalError, marsh.errors.MarshalError,
    marsh.errors.MissingValueError, marsh.errors.PathError,
)


class Assertion:
    """What became of an assertion."""

    def __init__(self, fn, *args, **kwargs):
        self.value = self.error = None
        try:
            self.value = fn(*args, **kwargs)
        except (Exception, Failed) as err:  # noqa: BLE001
            self.error = err

    @property
    def holds(self):
        return self.error is None

    @property
    def refused(self):
        return isinstance(self.error, (AssertionError, Failed))

    def __repr__(self):
        return f'{type(self.error).__name__}({self.error})' if self.error else f'returns {self.value!r}'


def chain(error):
    """The errors that an error was caused by."""
    seen = []
    while error is not None and not any(error is e for e in seen):
        seen.append(error)
        error = error.__cause__ if error.__cause__ is not None else error.__context__
    return seen


def count(case, true):
    case.event('true assertions' if true else 'false assertions')


def equal(a, b):
    """``None`` if it is not known, as numbers that are none differ from
    themselves unless they are the same object."""
    try:
        if 'nan' in repr((a, b)):
            return None
        return bool(a == b)
    except Exception:  # noqa: BLE001
        return None


@check.workload(quick=1500, thorough=30000)
def unmarshaling(case):
    rng = case.rng
    spec = gen.draw(case)
    for _ in range(3):
        try:
            element = spec.element(rng)
        except (specs.Err, specs.Unknown):
            return
        for _ in range(rng.choice((0, 0, 1, 2))):
            element = specs.mutate(rng, element)
        expected = expect(spec.un, element)
        if expected is None:
            case.event('model undecided')
            continue
        case.note(type=repr(spec), element=element, expected=repr(expected))
        case.distinct((repr(spec), repr(element)))
        # that it fails
        raised = observe(marsh.unmarshal, spec.t, element)
        errors = chain(raised.error)
        cause = rng.choice((None, None, *KINDS))
        given = rng.choice(((), (None,))) if cause is None else (cause,)
        fails = Assertion(marsh.testing.unmarshal_fails, spec.t, element, *given)
        true = isinstance(raised.error, marsh.errors.UnmarshalError) and (
            cause is None or any(isinstance(e, cause) for e in errors)
        )
        count(case, true)
        case.note(cause=cause, fails=repr(fails), raised=repr(raised))
        case.check(
            (expected.error is None) == (raised.error is None), 'accepted or refused wrongly',
        )
        if cause is not None and expected.error is not None:
            case.event('causes found' if true else 'causes not found')
        if true:
            case.check(fails.holds and fails.value is None, 'the assertion that it fails does not hold')
        else:
            case.check(fails.refused, 'the assertion that it fails holds')
        # that it succeeds
        if expected.error is not None:
            other = rng.choice((None, 0, 'x', ()))
            succeeds = Assertion(marsh.testing.unmarshal_succeeds, spec.t, element, other)
            count(case, False)
            case.note(succeeds=repr(succeeds))
            case.check(
                isinstance(succeeds.error, marsh.errors.UnmarshalError),
                'the assertion that it succeeds does not raise the error',
            )
            continue
        value = expected.value
        if rng.random() < 0.5:
            try:
                value = rng.choice((
                    lambda: spec.value(rng), lambda: specs.junk(rng),
                    lambda: [expected.value], lambda: None,
                ))()
            except (specs.Err, specs.Unknown):
                continue
        true = equal(raised.value, value)
        if true is None or true != equal(expected.value, value):
            continue
        case.note(value=repr(value))
        count(case, true)
        succeeds = Assertion(marsh.testing.unmarshal_succeeds, spec.t, element, value)
        case.note(succeeds=repr(succeeds))
        if true:
            case.check(
                succeeds.holds and same(succeeds.value, expected.value),
                'the assertion that it succeeds does not hold',
            )
        else:
            case.check(
                isinstance(succeeds.error, AssertionError), 'the assertion of another value holds',
            )


class Opaque:

    def __init__(self, cause=None):
        self.cause = cause


def plain(element):
    """Without the difference between sequences."""
    if isinstance(element, dict):
        return {key: plain(item) for key, item in element.items()}
    if specs.is_seq(element):
        return [plain(item) for item in element]
    return element


def equal_numbers(rng, element):
    """The same numbers of other types."""
    if isinstance(element, dict):
        return {key: equal_numbers(rng, item) for key, item in element.items()}
    if specs.is_seq(element):
        return [equal_numbers(rng, item) for item in element]
    if isinstance(element, (bool, int, float)):
        others = [other for other in (0, 1, 0.0, 1.0, True, False) if other == element] + [element]
        try:
            if float(element) == element:
                others.append(float(element))
        except OverflowError:
            pass
        return rng.choice(others)
    return element


def reshape(rng, element):
    """The same element of other containers."""
    if isinstance(element, dict):
        return {key: reshape(rng, item) for key, item in element.items()}
    if specs.is_seq(element):
        return rng.choice((list, tuple))([reshape(rng, item) for item in element])
    return element


@check.workload(quick=1500, thorough=30000)
def marshaling(case):
    rng = case.rng
    if rng.random() < 0.25:
        value = rng.choice((Opaque(), object(), [Opaque()], {'k': [1, object()]}))
        case.note(value=value)
        case.event('unsupported values')
        raised = observe(marsh.marshal, value)
        cause = rng.choice((None, *KINDS))
        true = cause is None or any(isinstance(e, cause) for e in chain(raised.error))
        fails = Assertion(marsh.testing.marshal_fails, value, *(() if cause is None else (cause,)))
        count(case, true)
        case.distinct((repr(type(value)), cause))
        case.note(cause=cause, fails=repr(fails), raised=repr(raised))
        case.check(fails.holds if true else fails.refused, 'the assertion that it fails is wrong')
        succeeds = Assertion(marsh.testing.marshal_succeeds, value, rng.choice((None, {}, [])))
        count(case, False)
        case.check(
            isinstance(succeeds.error, marsh.errors.MarshalError),
            'the assertion that it succeeds does not raise the error', succeeds=repr(succeeds),
        )
        return
    spec = gen.draw(case)
    value = gen.typed_value(case, spec)
    try:
        expected = refmarshal.marshal(value)
    except Exception:  # noqa: BLE001
        case.event('model undecided')
        return
    element = reshape(rng, expected)
    roll = rng.random()
    if roll < 0.4:
        element = specs.mutate(rng, element)
    elif roll < 0.6:
        element = equal_numbers(rng, element)
    true = equal(plain(element), plain(expected))
    case.note(type=repr(spec), value=value, element=element, expected=expected)
    if true is None:
        return  # numbers that do not equal themselves
    alike = same_element(plain(element), plain(expected))
    if alike and not true:
        return
    if true and not alike:
        case.event('equal but not the same')
    if not observe(marsh.element.standardize, element).error is None:
        return
    case.distinct(repr(element))
    count(case, true)
    succeeds = Assertion(marsh.testing.marshal_succeeds, value, element)
    case.note(succeeds=repr(succeeds))
    if true:
        case.check(
            succeeds.holds and same_element(plain(succeeds.value), plain(expected)),
            'the assertion that it succeeds does not hold',
        )
    else:
        case.check(isinstance(succeeds.error, AssertionError), 'the assertion of another element holds')
    fails = Assertion(marsh.testing.marshal_fails, value)
    count(case, False)
    case.check(fails.refused, 'the assertion that it fails holds', fails=repr(fails))


class Custom(marsh.errors.MarshError):
    pass


class Interrupted(BaseException):
    pass


@check.workload(quick=2500, thorough=50000)
def causes(case):
    """Blocks that raise chains of errors."""
    rng = case.rng
    kinds = (*KINDS, Custom)
    links = [(rng.choice(kinds), rng.choice(('cause', 'context', 'both')))
             for _ in range(rng.choice((0, 1, 2, 3, 5)))]
    base = rng.choice((None, None, *kinds))
    cause = rng.choice((None, *kinds))
    case.note(links=[(k.__name__, how) for k, how in links], base=base, cause=cause)
    case.distinct((repr(links), base, cause))
    arguments = {}
    if base is not None:
        arguments['base'] = base
    if cause is not None or rng.random() < 0.5:
        arguments['cause'] = cause

    def block(i):
        kind, how = links[i]
        if i + 1 == len(links):
            raise kind(f'link {i}')
        try:
            block(i + 1)
        except Exception as inner:  # noqa: BLE001
            if how == 'cause':
                raise kind(f'link {i}') from inner
            if how == 'context':
                raise kind(f'link {i}')
            try:
                raise LookupError('hidden by the cause')
            except LookupError:
                raise kind(f'link {i}') from inner

    def use():
        with marsh.testing.catch_cause(**arguments):
            if links:
                block(0)

    seen = Assertion(use)
    case.note(seen=repr(seen))
    caught = base or marsh.errors.MarshError
    if not links:
        count(case, False)
        case.check(isinstance(seen.error, Failed), 'nothing is raised and the assertion holds')
        return
    if not issubclass(links[0][0], caught):
        count(case, False)
        case.check(
            type(seen.error) is links[0][0] and 'link 0' in str(seen.error),
            'another error is not raised as it is',
        )
        return
    true = cause is None or any(issubclass(kind, cause) for kind, _ in links)
    count(case, true)
    if cause is not None:
        case.event('causes found' if true else 'causes not found')
    if true:
        case.check(seen.holds, 'a cause is not found')
        return
    case.check(isinstance(seen.error, AssertionError), 'a cause that is not there is found')
    names = '.*'.join(kind.__name__ for kind, _ in links)
    case.check(
        re.search(names, str(seen.error), re.S) and cause.__name__ in str(seen.error),
        'the chain is not displayed',
    )
