"""Oracles that are shared by the checks."""
import marsh

from . import specs
from .values import freeze, same

MarshError = marsh.errors.MarshError
UnmarshalError = marsh.errors.UnmarshalError
MissingValueError = marsh.errors.MissingValueError


class Outcome:
    """What was observed of a call: a value or an exception."""

    def __init__(self, value=None, error=None):
        self.value = value
        self.error = error

    def __repr__(self):
        if self.error is not None:
            return f'{type(self.error).__name__}({self.error!s:.300})'
        try:
            return f'value {self.value!r}'
        except Exception as err:  # noqa: BLE001
            return f'value of {type(self.value).__name__} without repr ({err!r})'

    def key(self):
        if self.error is not None:
            return (
                'error',
                type(self.error).__name__,
                getattr(self.error, 'path', None),
            )
        return 'value', freeze(self.value)


def observe(fn, *args, **kwargs):
    try:
        return Outcome(value=fn(*args, **kwargs))
    except Exception as err:  # noqa: BLE001
        return Outcome(error=err)


def expect(fn, *args, **kwargs):
    """The outcome of the model, `None` if it is not known."""
    try:
        return Outcome(value=fn(*args, **kwargs))
    except specs.Err as err:
        return Outcome(error=err)
    except specs.Unknown:
        return None


def judge_unmarshal(case, spec, element, outcome, expected, parts=('value', 'error', 'path', 'missing')):
    """Compare an observed unmarshal with the reference model."""
    case.event('oracle evaluations')
    if expected is None:
        case.event('model undecided')
        return
    case.note(
        type=repr(spec),
        element=element,
        observed=repr(outcome),
        expected=(
            f'error at {specs.join(expected.error.path)!r}'
            f'{" (missing)" if expected.error.missing else ""}'
            if expected.error is not None
            else repr(expected.value)
        ),
    )
    if expected.error is None:
        case.event('model accepts')
        if outcome.error is not None:
            if 'error' in parts:
                case.fail('a valid element was rejected')
        elif 'value' in parts and not same(outcome.value, expected.value):
            case.fail('unmarshaled to an unexpected value')
        return
    case.event('model rejects')
    if outcome.error is None:
        if 'error' in parts:
            case.fail('an invalid element was accepted')
        return
    if 'error' in parts and not isinstance(outcome.error, UnmarshalError):
        case.fail('the failure is not an UnmarshalError')
    if not isinstance(outcome.error, MarshError):
        return
    if 'missing' in parts:
        observed = isinstance(outcome.error, MissingValueError)
        if observed != expected.error.missing:
            case.fail(
                'a missing value was not reported as MissingValueError'
                if expected.error.missing
                else 'MissingValueError although no required value is missing',
            )
    if 'path' in parts:
        if outcome.error.path != specs.join(expected.error.path):
            case.fail('the path of the error does not locate the failure')
