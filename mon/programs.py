"""Functions of random signatures that record how they are called, and
command lines for them."""
import contextlib
import inspect
import io
import os
import sys

import marsh

from . import elements, files, parsing, specs
from .oracles import observe
from .values import is_element


class Function:
    """A function of some fields that records its calls."""

    def __init__(self, fields, result=None, action=None):
        self.fields = tuple(fields)
        self.calls = []
        signature = specs.make_signature(fields)

        def main(*args, **kwargs):
            bound = signature.bind(*args, **kwargs)
            bound.apply_defaults()
            self.calls.append(dict(bound.arguments))
            if action is not None:
                action()
            return result

        main.__signature__ = signature
        main.__annotations__ = {f.name: f.ann for f in fields}
        main.__doc__ = None
        self.signature = signature
        self.fn = main

    def expected(self, element, args=(), kwargs=None):
        """The bound arguments of a call with an element and arguments."""
        args, kwargs = tuple(args), dict(kwargs or {})
        given = self.signature.bind_partial(*args, **kwargs).arguments
        return bound(self.fields, element, given)


def bound(fields, element, given):
    """The model of filling in the arguments that were not given."""
    if specs.missing(element):
        element = {}
    data, items = {}, []
    if specs.is_map(element):
        data = dict(element)
    elif specs.is_seq(element):
        items = list(element)
    else:
        raise specs.Err()
    out = {}
    for f in fields:
        with specs.at(f.name):
            if f.kind == '*':
                extra = []
                for i, item in enumerate(items):
                    with specs.at(i):
                        extra.append(f.spec.un(item))
                items = []
                out[f.name] = (*extra, *given.get(f.name, ()))
            elif f.kind == '**':
                extra = {k: v for k, v in given.get(f.name, {}).items() if k not in data}
                for key in list(data):
                    with specs.at(key):
                        extra[key] = f.spec.un(data.pop(key))
                out[f.name] = extra
            else:
                default = f.get_default if f.has_default() else specs.NO
                if items and f.kind != 'kw':
                    out[f.name] = f.spec.un(items.pop(0), default)
                elif f.name in data:
                    out[f.name] = f.spec.un(data.pop(f.name), default)
                elif f.name in given:
                    out[f.name] = given[f.name]
                else:
                    out[f.name] = f.spec.un(specs.MISSING, default)
    if data or items:
        raise specs.Err()
    return out


def decorate(case, fn, **options):
    """Make an entry point in one of the ways to do so."""
    rng = case.rng
    attributes = {}
    if rng.random() < 0.15:
        for name in rng.sample(ATTRIBUTES, 2):
            attributes[name] = f'attribute {name}'
            setattr(fn, name, attributes[name])
    before = {k: getattr(fn, k, None) for k in ('__name__', '__qualname__', '__doc__', '__module__')}
    if rng.random() < 0.5:
        call = marsh.main(fn, **options)
    else:
        call = marsh.main(**options)(fn)
    after = {k: getattr(call, k, None) for k in before}
    case.event('decorated')
    case.check(
        before == after and call.__wrapped__ is fn, 'the decorated function is described differently',
        before=before, after=after,
    )
    case.note(attributes=attributes, options=sorted(options))
    for name in attributes:
        if name not in ('fn', 'config', 'prog', 'description', 'epilog', 'help_depth', 'schema', 'setup_logging'):
            case.check(getattr(call, name, None) == attributes[name], 'an attribute of the function is lost')
    return call


ATTRIBUTES = 'fn', 'config', 'prog', 'description', 'schema', 'help_depth', 'setup_logging', 'note', 'author', 'path'


class Ran:

    def __init__(self, outcome, code, out, err):
        self.outcome = outcome
        self.code = code  # exit code, None if it did not exit
        self.out = out
        self.err = err

    def __repr__(self):
        return f'exit {self.code} {self.outcome!r} stdout={self.out!r:.600} stderr={self.err!r:.600}'


def run(call, argv, folder):
    """Run a decorated function as if it was started by a command line."""
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ['prog', *argv]
    before = os.getcwd()
    code = None
    try:
        os.chdir(folder)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                outcome = observe(call)
            except SystemExit as stop:
                outcome = None
                code = stop.code if isinstance(stop.code, int) else (0 if stop.code is None else 1)
        where = os.path.realpath(os.getcwd())
    finally:
        sys.argv = old
        os.chdir(before)
    ran = Ran(outcome, code, out.getvalue(), err.getvalue())
    ran.cwd = where
    return ran


def write_path(rng, path):
    text = parsing.write_string(rng, path, '+=@', bare=bool(path))
    if text.startswith('~'):
        text = '\\' + text
    return text


def command_line(rng, element, folder):
    """Arguments that have the element as their configuration.

    Returns the arguments and the configuration, as it is read again.
    Resolving interpolations makes lists of all sequences."""
    args, config = _command_line(rng, files.plain(element), folder)
    return args, files.plain(config)


def _command_line(rng, element, folder):
    args = []

    def set_(fields, value, combine=False):
        path = elements.write(rng, fields)
        args.append(
            write_path(rng, path) + '+' * combine + '=' + parsing.space(rng)
            + parsing.write_element(rng, value),
        )

    def build(fields, value):
        roll = rng.random()
        if specs.is_map(value) and value and '' not in value and roll < 0.6:
            if fields and rng.random() < 0.3:
                set_(fields, {})
            for key in value:
                build(fields + [key], value[key])
        elif specs.is_seq(value) and value and roll < 0.4:
            set_(fields, ())
            for i, item in enumerate(value):
                if rng.random() < 0.5:
                    build(fields + [str(i)], item)
                else:
                    set_(fields, (item,), True)
        else:
            if rng.random() < 0.15:
                # replaced later
                set_(fields, elements.rand_tree(rng, 1, mixed=False))
            set_(fields, value)

    config = parsing.written(element)
    if specs.is_map(element) and element:
        roll = rng.random()
        if roll < 0.25:
            name = f'conf{rng.choice(files.EXTENSIONS)}'
            half = {k: v for k, v in element.items() if rng.random() < 0.5}
            files.save(os.path.join(folder, name), half, rng)
            args.append(rng.choice(('@', '+@')) + rng.choice((name, 'conf')))
            for key in element:
                if key not in half:
                    build([key], element[key])
            config = {
                **half,
                **{k: v for k, v in config.items() if k not in half},
            }
            return args, config
        if roll < 0.8 and '' not in element:
            for key in element:
                build([key], element[key])
            return args, config
    if not (specs.is_map(element) and not element and rng.random() < 0.5):
        set_([], element)
        return args, config
    return args, specs.MISSING


def expressible(element):
    """Can the element be written on a command line?"""
    element = files.plain(element)
    if not is_element(element):
        return False

    def ok(value):
        if specs.is_map(value):
            return all(k and '$' not in k for k in value) and all(ok(value[k]) for k in value)
        if specs.is_seq(value):
            return all(map(ok, value))
        if isinstance(value, str):
            return '$' not in value
        if isinstance(value, float):
            return value == value and abs(value) != float('inf')
        return True
    return ok(element)
