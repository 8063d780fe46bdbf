"""C28: errors keep path, type and cause, and are handled as asked for"""
import contextlib
import copy
import os
import pickle

import marsh

from .. import gen, specs
from ..core import Check
from ..oracles import MarshError, observe
from ..values import same

check = Check(
    'C28',
    scale=8,
    rule=(
        'Random histories of fields that are put before and behind the path '
        'of errors, directly and while errors pass through contexts; random '
        'chains of causes; callbacks with and without MARSH_FULL_ERROR; '
        'failures of real conversions that are looked at from outside. '
        'Judged by models. Non-trivial: distinct '
        'messages.'
    ),
)
check.require(**{
    'paths': 1200,
    'fields': 4000,
    'escaped fields': 600,
    'messages': 1000,
    'causes': 400,
    'copies': 700,
    'contexts': 1000,
    'errors of others': 300,
    'handled': 200,
    'not handled': 600,
    'real failures': 500,
    'real failures below the root': 200,
})

KINDS = (
    marsh.errors.MarshError, marsh.errors.PathError, marsh.errors.UnmarshalError,
    marsh.errors.MissingValueError, marsh.errors.MarshalError, marsh.errors.ConfigFileError,
)


class Own(marsh.errors.UnmarshalError):
    pass


class Slash(marsh.errors.MarshError):
    delimiter = '/'


class Wide(marsh.errors.MarshError):
    delimiter = '::'


def field(rng, case):
    text = rng.choice((
        'a', 'b', 'name', '0', '12', '-1', 'a.b', 'a/b', '.', 'é', ' ', 'x\\', '\\.',
        'a\\.b', '..', 'a::b', ':', '"q"', '???', 'None', 'long name', '\n',
    ))
    case.event('fields')
    if any(c in text for c in './\\'):
        case.event('escaped fields')
    return text


@check.workload(quick=2500, thorough=60000)
def paths(case):
    """Fields that are added on both sides stay apart and in order."""
    rng = case.rng
    kind = rng.choice((*KINDS, Own, Slash))
    err = kind('message')
    delimiter = kind.delimiter
    case.check(err.path == '', 'starts with a path', observed=err.path)
    model = []
    history = []
    for _ in range(rng.randrange(7)):
        text = field(rng, case)
        if not text.strip(delimiter):
            # nothing but delimiters: can not be told apart at the ends
            text = 'a'
        how = rng.choice(('append', 'prepend', 'context'))
        history.append((how, text))
        if how == 'append':
            err.append(text)
            model.append(text)
            continue
        model.insert(0, text)
        if how == 'prepend':
            err.prepend(text)
            continue
        value = text
        if text.lstrip('-').isdigit() and rng.random() < 0.7:
            value = int(text)
        try:
            with marsh.errors.prepend(value):
                raise err
        except MarshError as seen:
            case.check(seen is err, 'another error leaves the context')
        if rng.random() < 0.3:
            # nothing to add
            with contextlib.suppress(MarshError), marsh.errors.prepend(''):
                raise err
    case.event('paths')
    case.note(kind=kind, history=history, path=err.path)
    observed = marsh.path.split(err.path, delimiter)
    case.check(
        list(observed) == model, 'the fields of the path are wrong', observed=observed, expected=model,
    )
    case.check(isinstance(err.path, str), 'a path that is not text')
    # while another error has its own
    case.check(kind('other').path == '', 'errors share a path')
    case.distinct((kind, err.path))


def chain(rng, err):
    """Causes one after the other, and the one that is shown."""
    shown = None
    link = err
    for _ in range(rng.choice((0, 0, 1, 1, 2, 3))):
        cause = rng.choice((
            lambda: ValueError('the cause'), lambda: KeyError('key'), lambda: OSError(2, 'gone'),
            lambda: marsh.errors.UnmarshalError('below', path='p.q'),
            lambda: marsh.errors.PathError('beside'), lambda: Exception(),
        ))()
        link.__cause__ = cause
        if shown is None and not isinstance(cause, MarshError):
            shown = cause
        link = cause
    if rng.random() < 0.2:
        link.__context__ = ValueError('not a cause')
    return shown


@check.workload(quick=2000, thorough=40000)
def messages(case):
    rng = case.rng
    kind = rng.choice((*KINDS, Own, Slash))
    message = rng.choice(('went wrong', '', 'two\nlines', 'é', '{x} %s'))
    path = rng.choice(('', 'a', 'a.b.0', '/x/y'))
    unmarshal = issubclass(kind, marsh.errors.UnmarshalError)
    extra = {}
    if unmarshal:
        if rng.random() < 0.6:
            extra['type'] = rng.choice((int, str, list, specs.IntSub, specs.Plain))
        if rng.random() < 0.6:
            extra['element'] = rng.choice((5, 'text', [1], {'a': None}, None, ()))
        err = kind(message, path=path, **extra)
    else:
        err = kind(*([message] if message or rng.random() < 0.5 else []), path=path)
    if rng.random() < 0.2 and not unmarshal:
        err = kind(message, 'second', 3, path=path)
        message = f'{message}, second, 3'
    shown = chain(rng, err)
    with_type = '\n\ttype: ' + extra['type'].__name__ if 'type' in extra else ''
    head = message + (f'\n\tpath: {path}' if path else '')
    cause = f'\n\tcause: {shown}' if shown is not None else ''
    case.event('messages')
    if shown is not None:
        case.event('causes')
    case.note(kind=kind, message=message, path=path, extra=extra, cause=shown)
    case.check(str(err) == head + cause + with_type, 'another text', observed=str(err), expected=head + cause + with_type)
    case.check(err.pretty() == head + with_type, 'another text without cause', observed=err.pretty())
    text = head + cause + with_type
    case.check(
        repr(err) == (f'{kind.__name__}: {text}' if text else kind.__name__), 'another repr', observed=repr(err),
    )
    if unmarshal:
        element = f"\n\telement: {extra['element']}" if 'element' in extra else ''
        case.check(
            err.pretty(cause=True, element=True) == text + element, 'another text with element',
            observed=err.pretty(cause=True, element=True), expected=text + element,
        )
        case.check(
            same(err.element, extra.get('element', '???')) and err.type == extra.get('type', '???'),
            'the element or the type is lost',
        )
    case.check(
        isinstance(err, MarshError) and isinstance(err, Exception)
        and isinstance(err, LookupError) is issubclass(kind, marsh.errors.PathError)
        and isinstance(err, (KeyError,)) is isinstance(err, IndexError),
        'another kind of exception',
    )
    # also after it was copied, or sent to another process
    other = rng.choice((
        copy.copy, copy.deepcopy, lambda e: pickle.loads(pickle.dumps(e)),  # noqa: S301
    ))(err)
    case.event('copies')
    case.check(
        type(other) is kind and other.path == path and other.pretty() == err.pretty()
        and getattr(other, 'element', None) == getattr(err, 'element', None),
        'a copy is different', observed=repr(other), expected=repr(err),
    )
    other.prepend('q')
    case.check(err.path == path, 'a copy shares the path')
    case.distinct((kind, text))
    case.sample(repr(err))


class Stop(BaseException):
    pass


@contextlib.contextmanager
def full_error(value):
    before = os.environ.pop('MARSH_FULL_ERROR', None)
    if value is not None:
        os.environ['MARSH_FULL_ERROR'] = value
    try:
        yield
    finally:
        os.environ.pop('MARSH_FULL_ERROR', None)
        if before is not None:
            os.environ['MARSH_FULL_ERROR'] = before


@check.workload(quick=2000, thorough=40000)
def contexts(case):
    """Which errors are handled, by whom, and what becomes of them."""
    rng = case.rng
    raised = rng.choice((
        None, marsh.errors.MarshError('x'), marsh.errors.PathError('x'), Own('x'),
        marsh.errors.MarshalError('y'), ValueError('v'), KeyError('k'), Stop('s'), KeyboardInterrupt(),
    ))
    asked = rng.choice((
        None, marsh.errors.MarshError, marsh.errors.UnmarshalError, KeyError, Exception, BaseException, Stop,
    ))
    setting = rng.choice((None, None, '', '1', '0', 'x'))
    response = rng.choice(('return', 'return', 'exit', 'raise', 'same'))
    calls = []
    other = RuntimeError('of the callback')

    def callback(err):
        calls.append(err)
        if response == 'exit':
            raise SystemExit(3)
        if response == 'raise':
            raise other
        if response == 'same':
            raise err
        return True

    case.event('contexts')
    case.note(raised=raised, asked=asked, setting=setting, response=response)
    reached = False
    with full_error(setting):
        try:
            with marsh.errors.maybe_handle_error(callback, *([asked] if asked else [])):
                if raised is not None:
                    raise raised
                reached = True
            seen = None
        except BaseException as err:  # noqa: BLE001
            seen = err
    if raised is None:
        case.check(reached and seen is None and not calls, 'something is handled', observed=(seen, calls))
        return
    matches = isinstance(raised, asked or MarshError)
    if not isinstance(raised, MarshError):
        case.event('errors of others')
    if not matches or setting:
        case.event('not handled')
        case.check(not calls and seen is raised, 'an error is not left alone', observed=(seen, calls))
        return
    case.event('handled')
    case.check(len(calls) == 1 and calls[0] is raised, 'the callback is not called once with the error', observed=calls)
    case.check(
        seen is None if response == 'return'
        else isinstance(seen, SystemExit) if response == 'exit'
        else seen is other if response == 'raise'
        else seen is raised,
        'the outcome of the callback is lost', observed=seen,
    )
    # errors of others pass through `prepend`
    err = rng.choice((ValueError('v'), KeyError('k'), Stop()))
    seen = None
    try:
        with marsh.errors.prepend('field'):
            raise err
    except BaseException as caught:  # noqa: BLE001
        seen = caught
    case.check(seen is err and not hasattr(err, 'path'), 'an error of others is changed', observed=seen)


@check.workload(quick=1500, thorough=30000)
def real(case):
    """Failures of conversions, looked at from outside."""
    rng = case.rng
    spec = gen.draw(case)
    element = gen.draw_element(case, spec, rng.choice((1, 2, 3)))
    outcome = observe(marsh.unmarshal, spec.t, element)
    case.note(type=repr(spec), element=element, outcome=repr(outcome))
    if not isinstance(outcome.error, MarshError):
        return
    err = outcome.error
    case.event('real failures')
    fields = marsh.path.split(err.path)
    if fields:
        case.event('real failures below the root')
    case.check(isinstance(err, marsh.errors.UnmarshalError), 'not an UnmarshalError')
    shown = None
    link = err
    while link.__cause__ is not None and shown is None:
        link = link.__cause__
        if not isinstance(link, MarshError):
            shown = link
    text = str(err)
    lines = text.split('\n')
    case.check(
        not fields or f'\tpath: {err.path}'.split('\n')[0] in lines, 'the path is not shown', observed=text,
    )
    case.check(
        shown is None or f'\tcause: {shown}'.split('\n')[0] in lines, 'the cause is not shown', observed=text,
    )
    # inside of something else, the path is longer by that
    name = rng.choice(('k', 'a.b', '0'))
    outer = observe(marsh.unmarshal, dict[str, spec.t], {name: element})
    case.check(
        isinstance(outer.error, type(err)) and isinstance(err, type(outer.error))
        and marsh.path.split(outer.error.path) == (name, *fields)
        and outer.error.args == err.args,
        'the failure looks different inside of a mapping', observed=repr(outer),
    )
