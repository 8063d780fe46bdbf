"""C22: an entry point calls its function with what the command line says"""
import contextlib
import datetime
import json
import logging
import os
import re
import subprocess
import sys
import time
import typing

import marsh

from .. import files, gen, parsing, programs, specs
from ..core import REPO, Check
from ..oracles import expect
from ..values import freeze, same, same_element

LEVELS = 'CRITICAL', 'ERROR', 'WARNING', 'INFO', 'DEBUG', 'NOTSET'

check = Check(
    'C22',
    rule=(
        'Functions of random signatures (and config types) are decorated and '
        'started with random command lines (overrides in all notations, '
        'config files, options); valid, damaged and contradicting ones. The '
        'recorded call, exit code, output, files and working directory are '
        'compared with a reference model; a few are started as processes of '
        'their own. Non-trivial: distinct command lines.'
    ),
    assumptions=[
        'Text that is no override, and errors of omegaconf, are raised as they are.',
    ],
)
check.between = gen.clear_caches
check.require(**{
    'called': 600,
    'config errors': 150,
    'path errors': 100,
    'passed arguments': 150,
    'config files': 100,
    'written configs': 150,
    'output directories': 150,
    'help': 250,
    'processes': 8,
    'meta keys': 5,
    'interpolations': 150,
    'blocked output': 15,
    'unnamed output': 15,
    'output of another time zone': 60,
    'logging': 20,
    'help of passed arguments': 100,
    'help of config types': 200,
    'decorated': 2000,
})


class Boom(Exception):
    pass


def draw_element(case, fields):
    for _ in range(20):
        try:
            element = specs.field_element(case.rng, fields)
        except (specs.Err, specs.Unknown):
            continue
        if case.rng.random() < 0.3:
            element = specs.mutate(case.rng, element)
        if programs.expressible(element):
            return element
    return {}


def judge(case, ran, function, expected):
    """The function was called as expected, or the program failed with an
    error at the expected path."""
    case.note(
        ran=repr(ran), calls=function.calls,
        expected=None if expected is None else repr(expected),
    )
    if expected is None:
        case.event('model undecided')
        return
    if expected.error is not None:
        case.event('config errors')
        case.check(not function.calls, 'the function was called despite an invalid configuration')
        case.check(ran.code == 1, 'an invalid configuration has to exit with 1')
        case.check(
            'failed to unmarshal config' in ran.out,
            'the error is not printed',
        )
        path = specs.join(expected.error.path)
        found = re.search(r'^\tpath: (.*)$', ran.out, re.M)
        if '\n' not in path and '\r' not in path:
            case.check(
                (found.group(1) if found else '') == path,
                'the path of the error is not printed',
                path=path,
            )
        return
    case.event('called')
    case.check(ran.code is None, 'the program exited')
    case.check(
        ran.outcome.error is None, 'the entry point failed',
    )
    case.check(len(function.calls) == 1, 'the function was not called exactly once')
    call = {k: v for k, v in function.calls[0].items()}
    want = dict(expected.value)
    for name in list(want):
        if name not in call and want[name] in ((), {}):
            del want[name]
    case.check(
        call.keys() == want.keys() and all(same(call[k], want[k]) for k in call),
        'the function was called with other arguments',
    )


@check.workload(quick=1500, thorough=30000)
def functions(case):
    rng = case.rng
    fields = specs.gen_params(rng, rng.choice((1, 2)))
    result = object()
    function = programs.Function(fields, result=result)
    with files.scratch() as folder:
        element = draw_element(case, fields)
        args, config = programs.command_line(rng, element, folder)
        if any('@' in a for a in args):
            case.event('config files')
        call = programs.decorate(case, function.fn)
        passed, named = [], {}
        if rng.random() < 0.3:
            given_fields = [f for f in fields if f.kind in ('pos', 'pk')]
            n = rng.randrange(len(given_fields) + 1)
            passed = [object() for _ in range(n)]
            if n == len(given_fields) and any(f.kind == '*' for f in fields) and rng.random() < 0.5:
                passed += [object() for _ in range(2)]
            for f in fields:
                if f.kind == 'kw' or (f.kind == 'pk' and f in given_fields[n:]):
                    if rng.random() < 0.4:
                        named[f.name] = object()
                elif f.kind == '**' and rng.random() < 0.5:
                    named['zz'] = object()
            case.event('passed arguments')
            # a sequence and positional arguments are both in order
            if specs.is_seq(config):
                args, config = [], specs.MISSING
        case.note(fields=fields, args=args, config=config, passed=(passed, named))
        case.sample(args)
        case.distinct(tuple(args))
        expected = expect(function.expected, config, passed, named)
        dashes = any(a[:1] == '-' for a in args) or rng.random() < 0.5
        ran = programs.run(
            lambda: call(*passed, **named), ['--'] * dashes + args, folder,
        )
        judge(case, ran, function, expected)
        if expected is not None and expected.error is None:
            case.check(ran.outcome.value is result, 'the result is not returned')


@check.workload(quick=800, thorough=16000)
def config_types(case):
    """With a config type the function gets one value of it; direct calls
    with arguments do not look at the command line."""
    rng = case.rng
    spec = gen.draw(
        case, make=lambda r, d: r.choice((
            specs.gen_dataclass, specs.gen_dataclass, specs.gen_namedtuple,
            specs.gen_typeddict, specs.gen_callable, specs.gen_spec,
        ))(r, d),
    )
    if spec.t is None:
        # no config type
        return
    calls = []
    result = object()

    def fn(*args, **kwargs):
        calls.append((args, kwargs))
        return result

    call = programs.decorate(case, fn, config=spec.t)
    with files.scratch() as folder:
        for _ in range(10):
            element = gen.draw_element(case, spec, rng.choice((0, 0, 1)))
            if programs.expressible(element):
                break
        else:
            return
        args, config = programs.command_line(rng, element, folder)
        case.note(type=repr(spec), args=args, config=config)
        case.distinct(tuple(args))
        expected = expect(spec.un, config)
        ran = programs.run(call, ['--', *args], folder)
        case.note(ran=repr(ran), calls=calls, expected=repr(expected))
        if expected is None:
            case.event('model undecided')
        elif expected.error is not None:
            case.event('config errors')
            case.check(not calls, 'the function was called despite an invalid configuration')
            case.check(
                ran.code == 1 and 'failed to unmarshal config' in ran.out,
                'an invalid configuration has to be printed and exit with 1',
            )
        else:
            case.event('called')
            case.check(ran.code is None and ran.outcome.error is None, 'the entry point failed')
            case.check(
                len(calls) == 1 and len(calls[0][0]) == 1 and not calls[0][1],
                'the function was not called exactly once with one value',
            )
            case.check(
                same(calls[0][0][0], expected.value),
                'the function got another value',
            )
            case.check(ran.outcome.value is result, 'the result is not returned')
        if rng.random() < 0.3:
            # help of the type, whatever else is given
            del calls[:]
            ran = programs.run(call, [rng.choice(('-h', '--help')), *rng.choice(([], ['--', 'x=1']))], folder)
            case.event('help of config types')
            shown = ran.out.split('\nfields:\n')[-1] if '\nfields:\n' in ran.out else ''
            case.check(
                ran.code == 0 and not calls and not ran.err and '--config-dir' in ran.out,
                'help has to exit with 0 and nothing else', ran=repr(ran),
            )
            if isinstance(spec, specs.StructS):
                for f in spec.fields:
                    name = f'{f.kind}{f.name}' if f.kind in ('*', '**') else f.name
                    case.check(
                        re.search(rf'^  {re.escape(marsh.path.escape_field(name))}(:|$)', shown, re.M),
                        'the help misses a field', field=name, ran=repr(ran),
                    )
            elif isinstance(spec, specs.PrimS):
                case.check(not shown, 'fields of a scalar', ran=repr(ran))
        if rng.random() < 0.3:
            del calls[:]
            given = [object() for _ in range(rng.choice((1, 2)))]
            ran = programs.run(lambda: call(*given, k=result), ['--nonsense'], folder)
            case.event('passed arguments')
            case.check(
                ran.code is None and ran.outcome.value is result
                and calls == [(tuple(given), {'k': result})],
                'a direct call was not passed through',
                ran=repr(ran), calls=calls,
            )


@check.workload(quick=300, thorough=6000)
def interpolations(case):
    """The configuration is put together first, then resolved, then the
    metadata is dropped."""
    rng = case.rng
    calls = []

    def fn(**kwargs: typing.Any):
        calls.append(kwargs)

    with files.scratch() as folder:
        names = rng.sample('abcdefgh', rng.choice((3, 5)))
        known = {}
        meta = {}
        for name in rng.sample('uvw', rng.randrange(1, 4)):
            meta[name] = rng.choice((1, 'x', True, 2.5, 'long text', None))
            known['_meta_.' + name] = meta[name]
        values = {}
        where = {name: rng.choice(('first', 'other', 'override', 'override')) for name in names}
        # files are resolved on their own
        visible = {'first': set(known), 'other': set()}
        for name in names:
            targets = sorted(visible.get(where[name], known))
            if not targets or rng.random() < 0.3:
                values[name] = rng.choice((1, 'y', False, 'two words', {'k': 3}))
                expected = values[name]
            else:
                target = rng.choice(targets)
                form = rng.choice(('whole', 'whole', 'text', 'nested'))
                if form == 'text' and isinstance(known[target], dict):
                    form = 'whole'
                reference = '${%s}' % target
                expected = known[target]
                if form == 'text':
                    reference = f'<{reference}>'
                    expected = f'<{expected}>'
                elif form == 'nested':
                    reference, expected = {'in': [reference]}, {'in': [expected]}
                values[name] = reference
            known[name] = expected
            visible.get(where[name], set()).add(name)
        first = {'_meta_': meta, **{n: values[n] for n in names if where[n] == 'first'}}
        other = {n: values[n] for n in names if where[n] == 'other'}
        files.save(os.path.join(folder, 'one.yaml'), first, rng)
        files.save(os.path.join(folder, 'two.json'), other, rng)
        args = ['@one', '+@two']
        for n in names:
            if where[n] == 'override':
                args.append(n + '=' + parsing.write_element(rng, values[n]))
        case.note(args=args, one=first, two=other)
        case.distinct(repr((args, first, other)))
        ran = programs.run(marsh.main(fn), ['--', *args], folder)
        case.event('interpolations')
        case.check(
            ran.code is None and ran.outcome.error is None, 'the entry point failed',
            ran=repr(ran),
        )
        want = {n: known[n] for n in names}
        case.check(
            len(calls) == 1 and calls[0].keys() == want.keys() and all(
                same_element(files.plain(calls[0][n]), files.plain(want[n]))
                for n in names
            ),
            'the interpolations were not resolved as expected',
            calls=calls, expected=want,
        )


@check.workload(quick=500, thorough=10000)
def failing_overrides(case):
    """Overrides of places that can not exist, and missing files."""
    rng = case.rng
    fields = specs.gen_params(rng, 1)
    function = programs.Function(fields)
    call = programs.decorate(case, function.fn)
    with files.scratch() as folder:
        element = draw_element(case, fields)
        args, config = programs.command_line(rng, element, folder)
        bad = rng.choice((
            ['q=1', 'q.r.s=2'],
            ['q=[1]', 'q.5=2'],
            ['q=[1]', 'q.x=2'],
            ['q={}', '~q.a'],
            ['q=[1]', '~q.1'],
            ['~nowhere'],
            ['q@missing'],
            ['q@sub/missing'],
            ['@other.txt'],
        ))
        args = [*args, *bad] if rng.random() < 0.5 else [*bad, *args]
        if bad == ['~nowhere'] and specs.is_seq(config):
            return
        case.note(fields=fields, args=args)
        case.distinct(tuple(args))
        ran = programs.run(call, ['--', *args], folder)
        case.event('path errors')
        case.check(
            not function.calls and ran.code == 1
            and 'failed to load configuration' in ran.out,
            'an override that can not be applied has to be printed and exit with 1',
            ran=repr(ran), calls=function.calls,
        )


@contextlib.contextmanager
def local_time(zone):
    """The local time of another place."""
    if zone is None:
        yield
        return
    before = os.environ.get('TZ')
    os.environ['TZ'] = zone
    time.tzset()
    try:
        yield
    finally:
        if before is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = before
        time.tzset()


@check.workload(quick=600, thorough=12000)
def options(case):
    """Directories, written configs and errors of the function."""
    rng = case.rng
    fields = specs.gen_params(rng, 1)
    seen = []
    boom = rng.random() < 0.25

    def action():
        seen.append(os.path.realpath(os.getcwd()))
        if boom:
            raise Boom

    function = programs.Function(fields, action=action)
    setup = rng.random() < 0.2
    call = programs.decorate(case, function.fn, setup_logging=setup)
    with files.scratch() as folder:
        folder = os.path.realpath(folder)
        element = draw_element(case, fields)
        args, config = programs.command_line(rng, element, folder)
        start = folder
        options = []
        if rng.random() < 0.4:
            # config files relative to another directory
            start = os.path.join(folder, 'start')
            os.makedirs(start)
            options += rng.choice((['-c', folder], ['--config-dir', folder], ['-c', '..']))
        work = start
        blocked = unnamed = False
        if rng.random() < 0.6:
            name = rng.choice((
                'out', 'a/b/c', 'x%%y', '%Y/z', '%Y%m%d%H', 'taken', 'taken/z', None,
                os.path.join(folder, 'absolute/z'),
            ))
            options += [rng.choice(('-o', '--output'))]
            case.event('output directories')
            if name is None:
                unnamed = True
            else:
                options += [name]
                work = name
                blocked = name.startswith('taken')
        if blocked:
            with open(os.path.join(start, 'taken'), 'w') as file:
                file.write('x')
        target = None
        if rng.random() < 0.6:
            target = rng.choice(('-', 'c.yaml', 'c.json', 'c.YML', 'none/c.yaml', 'c.txt', 'c'))
            options += ['--config-out'] + ([target] if target != '-' or rng.random() < 0.5 else [])
            case.event('written configs')
        level = None
        style = None
        if setup and rng.random() < 0.7:
            level = rng.choice(LEVELS)
            options += ['--logging-level', level]
        if setup and rng.random() < 0.5:
            style = '%(message)s|%(levelname)s'
            options += ['--logging-format', style]
        argv = [*options, '--', *args]
        case.note(fields=fields, argv=argv, boom=boom, config=config)
        case.distinct(tuple(argv))
        root = logging.getLogger()
        handlers, old_level = root.handlers[:], root.level
        root.handlers[:] = []
        started = datetime.datetime.now(datetime.timezone.utc)
        zone = rng.choice((None, None, 'Etc/GMT-9', 'Etc/GMT+11'))
        try:
            with local_time(zone):
                ran = programs.run(call, argv, start)
            if zone and ('-o' in options or '--output' in options):
                case.event('output of another time zone')
            if setup:
                case.check(
                    len(root.handlers) == 1 and root.level == getattr(logging, level or 'INFO'),
                    'logging is not set up as asked for',
                    ran=repr(ran), level=root.level,
                )
                record = logging.LogRecord('n', logging.ERROR, 'p', 1, 'words', (), None)
                line = root.handlers[0].format(record)
                case.check(
                    line == 'words|ERROR' if style
                    else re.fullmatch(r'[-\d]+ [:,\d]+ ERROR: words', line),
                    'another format of logging', line=line,
                )
                case.event('logging')
            else:
                case.check(not root.handlers, 'logging is set up without being asked for')
        finally:
            for handler in root.handlers:
                handler.close()
            root.handlers[:] = handlers
            root.setLevel(old_level)
        case.note(ran=repr(ran), seen=seen)
        case.check(ran.cwd == start, 'the working directory is not restored', cwd=ran.cwd)
        if blocked:
            case.event('blocked output')
            case.check(
                ran.code == 1 and not function.calls
                and f'failed to create output directory {work}: ' in ran.out,
                'an output directory that can not be created has to be printed and exit with 1',
            )
            return
        if unnamed:
            jobs = os.listdir(os.path.join(start, 'jobs'))
            case.check(len(jobs) == 1, 'not one output directory', jobs=jobs)
            finished = datetime.datetime.now(datetime.timezone.utc)
            stamp = datetime.datetime.strptime(jobs[0], '%Y%m%dT%H%M%S.%fZ').replace(tzinfo=datetime.timezone.utc)
            case.check(started <= stamp <= finished, 'the output directory is not named after now', jobs=jobs)
            case.event('unnamed output')
            work = os.path.join(start, 'jobs', jobs[0])
        elif work != start:
            works = [
                os.path.join(start, when.strftime(work))
                for when in (started, datetime.datetime.now(datetime.timezone.utc))
            ]
            work = next((work for work in works if os.path.isdir(work)), None)
            case.check(work is not None, 'the output directory was not created', expected=works)
        if target in ('none/c.yaml', 'c.txt', 'c'):
            case.check(
                ran.code == 1 and not function.calls
                and re.search(
                    f'Failed to write input config to {re.escape(target)}: [^\\n]', ran.out,
                ),
                'a config that can not be written has to be printed and exit with 1',
            )
            return
        wanted = config
        if target == '-':
            text = ran.out.split('failed to unmarshal config')[0]
            target = 'stdout.yaml'
            with open(os.path.join(folder, target), 'w') as file:
                file.write(text)
            path = os.path.join(folder, target)
        elif target:
            path = os.path.join(work, target)
        if target:
            case.check(os.path.isfile(path), 'the config was not written')
            written = marsh.config.load(path, resolve=False, keep_meta=True)
            case.check(
                same_element(unordered(written), unordered(wanted)),
                'the written config is not the configuration of the program',
                written=written,
            )
        expected = expect(function.expected, config)
        if expected is not None and expected.error is None and boom:
            case.event('called')
            case.check(
                ran.outcome is not None and isinstance(ran.outcome.error, Boom)
                and len(function.calls) == 1,
                'an error of the function has to be raised as it is',
            )
        else:
            judge(case, ran, function, expected)
        for where in seen:
            case.check(
                where == os.path.realpath(work),
                'the function was not called in the output directory',
                expected=work,
            )
        if target and expected is not None and expected.error is None and not boom:
            # the written config starts the same program
            before = {k: freeze(v) for k, v in function.calls[0].items()}
            has_options = any(f.kind == '**' for f in fields)
            function.calls.clear()
            ran = programs.run(call, ['--', f'@"{path}"'], start)
            case.check(
                ran.code is None and ran.outcome.error is None and len(function.calls) == 1,
                'the written config can not be used',
                again=repr(ran),
            )
            after = {k: freeze(v) for k, v in function.calls[0].items()}
            if not has_options and '.yaml' not in path.lower() and '.yml' not in path.lower():
                case.check(before == after, 'the written config means something else')


def unordered(element):
    if specs.is_map(element):
        return {key: unordered(element[key]) for key in sorted(element)}
    if specs.is_seq(element):
        return [unordered(item) for item in element]
    return element


@check.workload(quick=500, thorough=10000)
def help_(case):
    rng = case.rng
    fields = specs.gen_params(rng, rng.choice((1, 2)))
    function = programs.Function(fields)
    depth = rng.choice((1, 2, 3))
    call = programs.decorate(
        case, function.fn, help_depth=depth, prog='the-program',
        description='About it.', epilog='At the end.',
    )
    with files.scratch() as folder:
        case.note(fields=fields)
        case.event('help')
        given = {}
        passed = []
        if rng.random() < 0.5:
            ordered = [f for f in fields if f.kind in ('pos', 'pk')]
            for f in ordered[:rng.randrange(len(ordered) + 1)]:
                passed.append(f'passed{len(passed)}')
            for f in fields:
                if f.kind == 'kw' or f.kind == 'pk' and f not in ordered[:len(passed)]:
                    if rng.random() < 0.5:
                        given[f.name] = f'given{len(given)}'
        shown_values = {
            **{f.name: value for f, value in zip((f for f in fields if f.kind in ('pos', 'pk')), passed)}, **given,
        }
        case.note(given=given, passed=passed)
        ran = programs.run(
            lambda: call(*passed, **given), [rng.choice(('-h', '--help'))], folder,
        )
        case.note(ran=repr(ran))
        case.distinct(ran.out)
        case.check(
            ran.code == 0 and not function.calls, 'help has to exit with 0 and nothing else',
        )
        for text in ('the-program', 'About it.', 'At the end.', '--config-dir', '--config-out'):
            case.check(text in ran.out, 'the help misses a part', part=text)
        shown = ran.out.split('\nfields:\n')[-1] if '\nfields:\n' in ran.out else ''
        for f in fields:
            name = f'{f.kind}{f.name}' if f.kind in ('*', '**') else f.name
            case.check(
                re.search(rf'^  {re.escape(marsh.path.escape_field(name))}(:|$)', shown, re.M),
                'the help misses a parameter',
                parameter=name,
            )
            if f.name in shown_values:
                case.event('help of passed arguments')
                case.check(
                    f'={shown_values[f.name]}' in ''.join(shown.split()),
                    'the help misses the value of a passed argument',
                    parameter=name,
                )
        # help of a place, also while the command line is invalid
        for f in fields:
            ran = programs.run(call, ['--help', f.name, 'not=[valid'], folder)
            case.check(
                ran.code in (0, 1) and not function.calls and ran.outcome is None,
                'help of a parameter failed',
                parameter=f.name, ran=repr(ran),
            )
            case.check(
                (ran.code == 0) != ('no help documention available' in ran.out),
                'help exits with the wrong code',
                parameter=f.name, ran=repr(ran),
            )
            case.check(bool(ran.out.strip()), 'no output')
        ran = programs.run(call, ['--help', 'nowhere.at.all'], folder)
        case.check(
            ran.code == 1 and 'failed to traverse configuration' in ran.out
            and not function.calls and not ran.err,
            'help of a place that does not exist has to be printed and exit with 1',
            ran=repr(ran),
        )
        case.check(not os.listdir(folder), 'help writes files')


@check.workload(quick=100, thorough=1000)
def full_errors(case):
    """With MARSH_FULL_ERROR the errors themselves are raised."""
    rng = case.rng
    fields = [specs.Field('x', specs.PrimS(int)), specs.Field('y', specs.SeqS(specs.PrimS(float), 'List'))]
    function = programs.Function(fields)
    call = programs.decorate(case, function.fn)
    argv = rng.choice((
        ['x=a', 'y=[]'], ['y=[1]'], ['x=1', 'x.y=1'], ['--help', 'z'], ['@none'],
        ['x=1', 'y=[1,b]'],
    ))
    with files.scratch() as folder:
        ran = programs.run(call, argv, folder)
        case.check(
            ran.code == 1 and ran.outcome is None, 'an error has to exit with 1',
            argv=argv, ran=repr(ran),
        )
        value = rng.choice(('1', 'yes', '0'))
        os.environ['MARSH_FULL_ERROR'] = value
        try:
            full = programs.run(call, argv, folder)
        finally:
            del os.environ['MARSH_FULL_ERROR']
        case.event('full errors')
        case.check(
            full.outcome is not None and isinstance(full.outcome.error, marsh.errors.MarshError)
            and not function.calls,
            'the error is not raised',
            argv=argv, ran=repr(full),
        )


SCRIPT = '''\
import dataclasses, json, os, sys
from typing import Dict, List, Optional
import marsh

@dataclasses.dataclass
class Inner:
    a: int
    b: List[float] = dataclasses.field(default_factory=list)
    c: Optional[str] = None

@marsh.main
def main(x: int, inner: Inner, *, table: Dict[str, bool] = None, name: str = 'n'):
    json.dump([x, dataclasses.asdict(inner), table, name, os.path.basename(os.getcwd())], sys.stdout)

if __name__ == '__main__':
    main()
'''


@check.workload(quick=12, thorough=150)
def processes(case):
    rng = case.rng
    with files.scratch() as folder:
        with open(os.path.join(folder, 'prog.py'), 'w') as file:
            file.write(SCRIPT)
        element = {
            'x': rng.randrange(-99, 99),
            'inner': {'a': rng.randrange(9), 'b': [rng.randrange(9) / 4 for _ in range(rng.randrange(3))]},
        }
        expected = [element['x'], {'a': element['inner']['a'], 'b': [float(f) for f in element['inner']['b']], 'c': None}, None, 'n', os.path.basename(folder)]
        if rng.random() < 0.5:
            element['inner']['c'] = expected[1]['c'] = rng.choice(('a b', '1', "it's", 'é', '[x'))
        if rng.random() < 0.5:
            element['table'] = expected[2] = {'k': True, 'l.m': False}
        if rng.random() < 0.5:
            element['name'] = expected[3] = rng.choice(('-x', 'true', '', '=', 'other'))
        args, _ = programs.command_line(rng, element, folder)
        options = []
        if rng.random() < 0.5:
            options = ['-o', 'work']
            expected[4] = 'work'
        broken = rng.random() < 0.3
        if broken:
            args.append('x=abc')
        env = {**os.environ, 'PYTHONPATH': REPO, 'PYTHONIOENCODING': 'utf-8'}
        env.pop('MARSH_META_KEY', None)
        meta = rng.choice(('', '_meta_', '_meta_', 'about', 'the meta'))
        if meta:
            if meta != '_meta_':
                env['MARSH_META_KEY'] = meta
            args.insert(rng.randrange(len(args) + 1), f'{programs.write_path(rng, meta + ".author")}={rng.choice(("me", "[1, 2]", "{k: v}"))}')
            case.event('meta keys')
        done = subprocess.run(
            [sys.executable, 'prog.py', *options, '--', *args], cwd=folder, env=env,
            capture_output=True, text=True, timeout=50,
        )
        case.event('processes')
        case.note(args=args, stdout=done.stdout, stderr=done.stderr, code=done.returncode, expected=expected)
        if broken:
            case.check(
                done.returncode == 1 and 'failed to unmarshal config' in done.stdout
                and 'path: x' in done.stdout and not done.stderr,
                'an invalid configuration has to be printed and exit with 1',
            )
        else:
            case.check(
                done.returncode == 0 and json.loads(done.stdout) == expected,
                'the program did not get its configuration',
            )
