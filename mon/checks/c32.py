"""C32: data is only data, and calls leave the process alone"""
import base64
import dataclasses
import datetime
import json
import os
import pickle
import sys
import typing

import marsh

from .. import effects, elements, files, gen, programs, specs
from ..core import Check, Inconclusive
from ..oracles import observe

check = Check(
    'C32',
    rule=(
        'Elements, texts, paths, config files and command lines that '
        'contain code in many notations, and ordinary ones, go through all '
        'operations while audit events of python (compiling, '
        'executing, importing, opening, processes, sockets, ...), output, '
        'warnings and the global state of the process are recorded. '
        'Non-trivial: distinct operations and inputs.'
    ),
    assumptions=[
        'Resolvers of omegaconf (e.g. of environment variables) are asked for by the text itself.',
    ],
)
check.require(**{
    'watched': 8000,
    'failures': 2500,
    'audit events': 500,
    'poisoned': 1500,
    'schemas': 300,
    'config files: load': 250,
    'loaded values': 800,
    'config files: find': 80,
    'config files: decode': 80,
    'written files': 300,
    'programs': 300,
    'programs: called': 40,
    'misdeeds seen': 60,
})

CODE = f"__import__('sys').audit('{effects.PAYLOAD}')"


class Reduced:

    def __reduce__(self):
        return sys.audit, (effects.PAYLOAD,)


PICKLE = pickle.dumps(Reduced())

TEXTS = [
    CODE,
    f'({CODE})',
    f'[{CODE}]',
    f'{{{CODE}}}',
    f'{{{{{CODE}}}}}',
    f'${{{CODE}}}',
    f'$({CODE})',
    f'`{CODE}`',
    f'%({CODE})s',
    f'lambda: {CODE}',
    f'eval({CODE!r})',
    f'exec({CODE!r})',
    f'"{CODE}"',
    f'x for x in [{CODE}]',
    f'1 if {CODE} else 2',
    f'slice({CODE})',
    f'{CODE}:{CODE}',
    f'{CODE}, {CODE}',
    f'f"{{{CODE}}}"',
    f"!!python/object/apply:sys.audit ['{effects.PAYLOAD}']",
    f"!!python/object/new:sys.audit ['{effects.PAYLOAD}']",
    '!!python/name:sys.audit',
    '!!python/name:os.system',
    '!!python/complex 1+2j',
    "!!python/long '12'",
    '!!python/object/apply:complex [1, 2]',
    '!!python/module:antigravity',
    '!!python/object:mon.checks.c32.Trap {}',
    f'sys.audit:{effects.PAYLOAD}',
    'sys.audit',
    'os.system',
    '__class__',
    '__init__',
    '__dict__',
    '{0.__class__}',
    '%s%s%s%n',
    '../../../etc/passwd',
    '/etc/passwd',
    '@/etc/passwd',
    '~/.bashrc',
    'file:///etc/passwd',
    'http://127.0.0.1:9/',
    '$(touch x)',
    '; touch x',
    '| touch x',
    'antigravity',
    'this',
    '${oc.decode:"' + CODE.replace('"', '') + '"}',
    base64.b64encode(PICKLE).decode(),
    PICKLE.decode('latin-1'),
    '__main__',
    'typing.List[int]',
    'int',
    'NaN',
    '1' * 60,
]
KEYS = [
    '__class__', '__reduce__', '__init__', '__dict__', '__module__', 'py/object', 'py/reduce',
    '_target_', '$ref', 'name', '_meta_', '__call__', '__root__', *TEXTS[:4],
]


class Trap:
    """An object that must not be called."""
    calls = 0

    def __call__(self, *args, **kwargs):
        type(self).calls += 1

    __reduce__ = __enter__ = __exit__ = __call__


def hostile(rng, depth=2):
    roll = rng.random()
    if depth == 0 or roll < 0.5:
        if roll < 0.06:
            return Trap()
        if roll < 0.1:
            return PICKLE
        return rng.choice(TEXTS)
    if roll < 0.7:
        return [hostile(rng, depth - 1) for _ in range(rng.randrange(3))]
    return {
        rng.choice(KEYS): hostile(rng, depth - 1) for _ in range(rng.randrange(3))
    }


def poison(rng, element):
    """Replace some of the terminals."""
    if specs.is_map(element):
        out = {key: poison(rng, element[key]) for key in element}
        if rng.random() < 0.1:
            out[rng.choice(KEYS)] = hostile(rng, 1)
        return out
    if specs.is_seq(element):
        return [poison(rng, item) for item in element]
    return hostile(rng, 1) if rng.random() < 0.4 else element


def describe(events):
    return [(event, [str(arg)[:120] for arg in args]) for event, args in events[:6]]


def reads_languages(event, args):
    """The parser of dates imports what it needs for a language."""
    return event in ('import', 'exec', 'marshal.loads', 'os.listdir', 'compile') or (
        event == 'open' and args[1] in ('r', 'rb', None) and 'date' in str(args[0])
    )


def interpolates(event, args):
    """Interpolations are read by omegaconf, which has forward references."""
    return event == 'compile' and args[0] in (b'Node', 'Node') or (
        event == 'exec' and getattr(args[0], 'co_names', None) == ('Node',)
    )


def judge(case, seen, allowed=lambda event, args: False, printed=False, spec=None):
    if spec is not None and gen.no_value(spec, specs.DateTimeS):
        allowed = reads_languages
        seen.changed = [name for name in seen.changed if name != 'random']
        seen.warnings = []
    bad = [(event, args) for event, args in seen.events if not allowed(event, args)]
    case.event('watched')
    case.event('audit events', len(seen.events))
    case.event('failures', seen.error is not None)
    case.note(
        events=describe(bad), output=seen.out[:200], changed=seen.changed, warnings=seen.warnings[:3],
        outcome=repr(seen.error if seen.error is not None else seen.value)[:200],
    )
    case.check(Trap.calls == 0, 'an object inside of the data was called')
    case.check(not bad, 'a call does more than to return')
    case.check(printed or not seen.out, 'a call prints')
    case.check(not seen.changed, 'a call changes the state of the process')
    case.check(not seen.warnings, 'a call warns')


@dataclasses.dataclass
class Component:
    x: typing.Any = None


@dataclasses.dataclass
class Part(Component):
    y: int = 1


def some_types():
    if 'c32' not in marsh.namespaces:
        namespace = marsh.namespaces.new('c32', base=Component)
        namespace.register(Part, name='part')
    return [
        typing.Any, str, int, float, bool, bytes, complex, slice, None, specs.Level, specs.Plain,
        typing.Literal['a', 1], typing.List[str], typing.Dict[str, int], typing.Optional[int],
        typing.Union[int, str, typing.List[int]], Component, Part,
        typing.Tuple[int, str], typing.Callable, dict, list, typing.Sequence, specs.HasLen,
        specs.HasUpper, type, object,
    ]


def operations(rng, element):
    """Everything that reads an element."""
    t = rng.choice(some_types())
    text = element if isinstance(element, str) else rng.choice(TEXTS)
    e = marsh.element
    return rng.choice((
        ('unmarshal', lambda: marsh.unmarshal(t, element)),
        ('unmarshal', lambda: marsh.unmarshal(t, element)),
        ('unmarshal text', lambda: marsh.unmarshal(t, text)),
        ('marshal', lambda: marsh.marshal(element)),
        ('cast', lambda: marsh.cast(t, element)),
        ('keywords', lambda: marsh.unmarshal(Component, {}, **{'x': element})),
        ('named', lambda: marsh.unmarshal(Component, {'name': text, 'x': element})),
        ('resolve', lambda: e.resolve(element)),
        ('standardize', lambda: e.standardize(element)),
        ('merge', lambda: e.merge(element, element)),
        ('override', lambda: e.override(element, element, text)),
        ('select', lambda: e.select(element, text)),
        ('remove', lambda: e.remove(element, text)),
        ('has_missing', lambda: e.has_missing(element)),
        ('parse element', lambda: marsh.parse.element(text)),
        ('parse json', lambda: marsh.parse.element(json.dumps(element))),
        ('parse override', lambda: marsh.parse.override(text)),
        ('parse config', lambda: marsh.parse.config_names(text)),
        ('path', lambda: (marsh.path.split(text), marsh.path.escape_field(text))),
        ('hash key', lambda: marsh.utils.make_hash_key(element, text)),
        ('closest', lambda: marsh.utils.get_closest(text, ['a', 'b', *KEYS])),
        ('find_class', lambda: marsh.namespaces.find_class(text)),
        ('namespace', lambda: marsh.namespaces['c32'].get(text)),
        ('error', lambda: str(marsh.errors.UnmarshalError(text, path=text, element=element))),
        ('select type', lambda: marsh.schema.UnmarshalSchema(t).select(text)),
    ))


_warm = []


def warm_up():
    """Whatever is imported or read only once."""
    if _warm:
        return
    _warm.append(True)
    import random
    rng = random.Random(0)
    for element in ('${a}', '1', {'a': '${b}', 'b': 1}, '2020-01-01', '12:00', '1+2j'):
        for t in (*some_types(), datetime.datetime, datetime.date, datetime.time):
            observe(marsh.unmarshal, t, element)
        observe(marsh.element.resolve, element)
    for _ in range(60):
        spec = specs.gen_spec(rng, 2)
        observe(lambda: marsh.schema.UnmarshalSchema(spec.t).doc(2))
        observe(lambda: marsh.doc.terminal.format_unmarshal_help(spec.t, width=80))
        observe(lambda: marsh.marshal(spec.value(rng)))
        observe(operations(rng, hostile(rng))[1])


@check.workload(quick=5000, thorough=90000)
def hostile_data(case):
    rng = case.rng
    warm_up()
    element = hostile(rng, rng.choice((0, 1, 2, 3)))
    name, operation = operations(rng, element)
    case.note(operation=name, element=element)
    case.distinct((name, repr(element)))
    case.sample(f'{name} {element!r}'[:150])
    case.event(f'operation {name}')
    Trap.calls = 0
    judge(case, effects.watch(operation), interpolates)


@check.workload(quick=1500, thorough=30000)
def random_types(case):
    """Types with elements that are valid, damaged or poisoned."""
    rng = case.rng
    warm_up()
    spec = gen.draw(case)
    schema = marsh.schema.UnmarshalSchema(spec.t)
    for element, _ in gen.elements(case, spec, n=4):
        if rng.random() < 0.5:
            element = poison(rng, element)
            case.event('poisoned')
        case.note(type=spec, element=element)
        case.distinct((spec.label, repr(element)))
        Trap.calls = 0
        seen = effects.watch(lambda: schema.unmarshal(element))
        judge(case, seen, spec=spec)
        if seen.error is None:
            judge(case, effects.watch(lambda: marsh.marshal(seen.value)), spec=spec)
            judge(case, effects.watch(lambda: marsh.cast(spec.t, seen.value)), spec=spec)
        else:
            judge(case, effects.watch(lambda: (str(seen.error), repr(seen.error))))


def reads_source(event, args):
    """Descriptions of attributes are read from the source."""
    return event == 'compile' or event == 'open' and args[1] in ('r', 'rb', None)


@check.workload(quick=600, thorough=12000)
def building(case):
    """Schemas, documentation and help."""
    rng = case.rng
    warm_up()
    spec = gen.draw(case)
    case.note(type=spec)
    case.distinct(spec.label)
    seen = effects.watch(lambda: marsh.schema.UnmarshalSchema(spec.t))
    case.event('schemas')
    judge(case, seen)
    schema = seen.value
    judge(case, effects.watch(lambda: str(schema)))
    judge(case, effects.watch(lambda: schema.doc(2)), reads_source)
    judge(case, effects.watch(lambda: marsh.doc.terminal.format_unmarshal_help(spec.t, width=80)), reads_source)
    judge(case, effects.watch(lambda: schema.select(rng.choice(TEXTS))))


# -- files and programs -----------------------------------------------------------

def within(names, write=()):
    """Only these files may be opened (and those written)."""
    names = {os.path.realpath(name) for name in names}
    written = {os.path.realpath(name) for name in write}

    def allowed(event, args):
        if interpolates(event, args):
            return True
        if event == 'open' and isinstance(args[0], (str, os.PathLike)):
            path = os.path.realpath(args[0])
            if args[1] in ('r', 'rb', 'rt'):
                return path in names | written
            return path in written
        # to find a file without its extension
        return event in ('os.listdir', 'os.scandir')
    return allowed


def content(rng, data, path):
    """Text of a file, mostly well-formed."""
    text = json.dumps(files.plain(data), default=str)
    if path.endswith('.json'):
        return text
    roll = rng.random()
    if roll < 0.4:
        import yaml
        return yaml.safe_dump(json.loads(text), sort_keys=False)
    if roll < 0.6:
        return f'a: {rng.choice(TEXTS)}\nb: {text}\n'
    return rng.choice(TEXTS) if roll < 0.7 else text


def textual(element):
    if specs.is_map(element):
        return {str(key): textual(element[key]) for key in element}
    if specs.is_seq(element):
        return [textual(item) for item in element]
    return element if isinstance(element, (str, int, float, type(None))) else str(element)


DATA = (
    list, dict, tuple, set, bool, int, float, str, bytes, type(None), datetime.date, datetime.datetime,
)


def only_data(case, seen):
    """A config file holds no objects but those of its format."""
    if seen.error is not None:
        return
    strange = []

    def visit(value):
        case.event('loaded values')
        if type(value) not in DATA:
            strange.append(repr(value))
        elif isinstance(value, dict):
            for key in value:
                visit(key)
                visit(value[key])
        elif isinstance(value, (list, tuple, set)):
            for item in value:
                visit(item)
    visit(seen.value)
    case.check(not strange, 'a config file holds objects', strange=strange)


@check.workload(quick=1000, thorough=24000)
def config_files(case):
    """Only the files that are named are opened, and only to be read."""
    rng = case.rng
    warm_up()
    with files.scratch() as folder, files.cwd(folder):
        names = []
        for i in range(rng.choice((1, 2, 3))):
            name = f'conf{i}' + rng.choice(('.yaml', '.yml', '.json'))
            with open(name, 'w', encoding='utf-8', errors='replace') as file:
                file.write(content(rng, textual(hostile(rng, 3)), name))
            names.append(name)
        with open('other.yaml', 'w') as file:
            file.write('secret: 1\n')
        given = [rng.choice((name, os.path.splitext(name)[0], os.path.join(folder, name))) for name in names]
        if rng.random() < 0.2:
            given.append(rng.choice(TEXTS))
        case.note(names=given, content=[open(name, errors='replace').read() for name in names])
        case.distinct((repr(given), case.detail['content']))
        options = dict(
            resolve=rng.random() < 0.5, keep_meta=rng.random() < 0.5, concatenate=rng.random() < 0.5,
        )
        may = within([os.path.join(folder, name) for name in names])
        how = rng.choice(('load', 'load', 'find', 'tree', 'decode'))
        case.event(f'config files: {how}')
        if how == 'load':
            seen = effects.watch(lambda: marsh.config.load(*given, **options))
            judge(case, seen, may)
            only_data(case, seen)
        elif how == 'find':
            judge(case, effects.watch(lambda: marsh.config.find_config(given[-1])), may)
        elif how == 'tree':
            judge(case, effects.watch(lambda: marsh.config.tree(folder)), may)
        else:
            text = open(names[0], errors='replace').read()
            seen = effects.watch(lambda: marsh.config.ConfigSchema(names[0]).loads(text))
            judge(case, seen, may)
            only_data(case, seen)
        after = sorted(os.listdir(folder))
        case.check(after == sorted([*names, 'other.yaml']), 'files appear or vanish', files=after)


@check.workload(quick=500, thorough=12000)
def written_files(case):
    """Only the file that is named is written, whatever it contains."""
    rng = case.rng
    warm_up()
    with files.scratch() as folder, files.cwd(folder):
        name = rng.choice(('out.yaml', 'out.json', 'out.yml'))
        data = textual(hostile(rng, 3)) if rng.random() < 0.7 else hostile(rng, 3)
        case.note(name=name, data=data)
        case.distinct(repr(data) + name)
        case.event('written files')
        target = rng.choice((name, os.path.join(folder, name)))
        judge(
            case, effects.watch(lambda: marsh.config.ConfigSchema(target).dump(data)), within([], [target]),
        )
        after = sorted(os.listdir(folder))
        case.check(after in ([name], []), 'other files appear', files=after)


@check.workload(quick=600, thorough=14000)
def entry_points(case):
    """A program reads the configs that are named and calls its function."""
    rng = case.rng
    warm_up()
    calls = []

    def fn(*args: typing.Any, **kwargs: typing.Any):
        calls.append((args, kwargs))

    with files.scratch() as folder, files.cwd(folder):
        allowed = []
        args = []
        for i in range(rng.randrange(1, 4)):
            roll = rng.random()
            if roll < 0.3:
                name = f'conf{i}.yaml'
                with open(name, 'w', encoding='utf-8', errors='replace') as file:
                    file.write(content(rng, {'k': textual(hostile(rng, 2))}, name))
                allowed.append(os.path.join(folder, name))
                args.append(rng.choice(('@', '+@', 'x@', 'a.b@', 'x+@')) + name)
            elif roll < 0.8:
                text = json.dumps(textual(hostile(rng, 2))) if rng.random() < 0.5 else rng.choice(TEXTS)
                args.append(rng.choice(('a', 'a.b', 'k.0', 'x+', '')) + '=' + text)
            else:
                args.append(rng.choice(TEXTS))
        case.note(args=args)
        case.distinct(tuple(args))
        entry = marsh.main(fn)
        old = sys.argv
        sys.argv = ['program', '--', *args]
        try:
            seen = effects.watch(entry)
        finally:
            sys.argv = old
        case.event('programs')
        case.event('programs: called', len(calls))
        judge(case, seen, within(allowed), printed=not calls)
        names = sorted(os.listdir(folder))
        case.check(names == sorted(map(os.path.basename, allowed)), 'files appear', files=names)


MISDEEDS = {
    'executes': lambda: eval(CODE),
    'compiles': lambda: compile('1', 'x', 'eval'),
    'imports': lambda: __import__('xml.sax.saxutils') and sys.modules.pop('xml.sax.saxutils'),
    'prints': lambda: print('x'),
    'opens': lambda: open('/dev/null').close(),
    'unpickles': lambda: pickle.loads(PICKLE),
    'lists': lambda: os.listdir('/dev'),
    'environment': lambda: os.environ.update(MON_TEST=str(len(os.environ)) + repr(object())),
    'sys.path': lambda: sys.path.append('x'),
    'random': lambda: __import__('random').random(),
    'warns': lambda: __import__('warnings').warn('x'),
    'filters': lambda: __import__('warnings').simplefilter('error'),
    'limit': lambda: sys.setrecursionlimit(sys.getrecursionlimit() + 1),
    'calls': lambda: Trap()(),
    'working directory': lambda: os.chdir('/' if os.getcwd() != '/' else '/tmp'),
}


@check.workload(quick=60, thorough=600)
def monitors(case):
    """What is looked for is seen when it happens."""
    name = case.rng.choice(list(MISDEEDS))
    where, path, limit = os.getcwd(), list(sys.path), sys.getrecursionlimit()
    Trap.calls = 0
    seen = effects.watch(MISDEEDS[name])
    os.chdir(where)
    sys.path[:] = path
    sys.setrecursionlimit(limit)
    called, Trap.calls = Trap.calls, 0
    case.event('misdeeds seen')
    if not (seen.events or seen.out or seen.changed or seen.warnings or called):
        raise Inconclusive(f'the monitor does not see: {name}')
