"""What marsh does with some random work, as text.

Runs in a process of its own, which is set up in some unusual way; the text has
to be the same in all of them."""
import contextlib
import gc
import importlib
import io
import json
import os
import random
import re
import sys
import threading
import warnings

def text_of(outcome):
    try:
        key = outcome.key()
    except Exception as err:  # noqa: BLE001
        key = type(outcome.value).__qualname__, type(err).__name__
    error = '' if outcome.error is None else str(outcome.error)
    return f'{key!r} {error}'


class Work:
    """A piece of work and its results."""

    def __init__(self, setup, kind, index):
        from . import specs
        self.rng = random.Random(f'{setup["seed"]}/{kind}/{index}')
        self.docs = setup.get('docs', True)
        self.dates = setup.get('dates', False)  # reading them takes time
        self.lines = []
        specs.fresh()

    def observe(self, name, fn, *args, **kwargs):
        from .oracles import observe
        outcome = observe(fn, *args, **kwargs)
        self.say(name, text_of(outcome))
        return outcome

    def say(self, name, text):
        self.lines.append(re.sub(r'(0x|@)[0-9a-f]{5,}', r'\1', f'{name}: {text}'))


KINDS = {}


def kind(weight):
    def decorator(fn):
        KINDS[fn.__name__] = weight, fn
        return fn
    return decorator


def ordered(spec):
    """Types whose values have an order."""
    from . import specs
    return not any(
        getattr(s, 'form', '') in ('Set', 'set') or isinstance(s, specs.ProtocolS)
        or 'et' in getattr(s, 'label', '') and isinstance(s, specs.BareS)
        for s in spec.walk()
    )


def draw(work, depth=(1, 2, 2, 3)):
    from . import specs
    while True:
        spec = specs.gen_spec(work.rng, work.rng.choice(depth))
        if not ordered(spec):
            continue
        if not work.dates and any(isinstance(s, specs.DateTimeS) for s in spec.walk()):
            continue
        return spec


def documented(work, t):
    import marsh
    import marsh.doc.terminal
    schema = marsh.schema.UnmarshalSchema(t)
    work.observe('text', str, schema)
    if work.rng.random() < 0.3 and work.docs:
        work.observe('doc', schema.doc, 2)
        work.observe('help', marsh.doc.terminal.format_unmarshal_help, t, width=80)
        for path in ('', 'x', '0', 'a.b'):
            work.observe(f'select {path}', lambda: str(schema.select(path)))


@kind(6)
def types(work):
    import marsh
    from . import gen
    spec = draw(work)
    work.say('type', spec.label)
    documented(work, spec.t)
    for hostility in (0, 1, 3):
        element = gen.draw_element(work, spec, hostility)
        outcome = work.observe(f'unmarshal {element!r}', marsh.unmarshal, spec.t, element)
        if outcome.error is None:
            work.observe('marshal', marsh.marshal, outcome.value)
            work.observe('cast', marsh.cast, spec.t, outcome.value)


@kind(2)
def containers(work):
    import marsh
    from . import containers as made, gen
    while True:
        spec = made.gen_container(work.rng, 2)
        if ordered(spec) and 'et' not in spec.label:
            break
    work.say('type', spec.label)
    for hostility in (0, 1, 3):
        element = gen.draw_element(work, spec, hostility)
        outcome = work.observe(f'unmarshal {element!r}', marsh.unmarshal, spec.t, element)
        if outcome.error is None:
            work.observe('marshal', marsh.marshal, outcome.value)
    work.lines = [re.sub(r'\b([A-Z][A-Za-z]+)\d+', r'\1', line) for line in work.lines]


@kind(3)
def elements(work):
    import marsh
    from . import elements as made
    rng = work.rng
    e = marsh.element
    a, b = made.rand_tree(rng), made.rand_tree(rng)
    path = '.'.join(rng.choice('ab01') for _ in range(rng.randrange(4)))
    work.say('elements', f'{a!r} {b!r} {path}')
    work.observe('merge', e.merge, a, b)
    work.observe('concatenate', e.merge, a, b, concatenate=True)
    work.observe('override', e.override, a, b, path)
    work.observe('combine', e.override, a, b, path, combine=True)
    work.observe('select', e.select, a, path)
    work.observe('remove', e.remove, a, path)
    work.observe('resolve', e.resolve, a)
    work.observe('standardize', e.standardize, a)
    work.observe('missing', e.has_missing, a)
    work.observe('marshal', marsh.marshal, a)
    word = rng.choice(('a', 'abc', 'name', 'x'))
    words = [made.rand_key(rng) for _ in range(5)]
    work.observe('closest', marsh.utils.get_closest, word, words)


@kind(3)
def parsing(work):
    import marsh
    import marsh.parse
    from . import elements as made, parsing as writing
    rng = work.rng
    text = writing.write_element(rng, made.rand_tree(rng, 2, mixed=False))
    for _ in range(rng.choice((0, 0, 1, 2))):
        text = writing.damage(rng, text)
    work.say('text', repr(text))
    for fn in (
        marsh.parse.element, marsh.parse.override, marsh.parse.config_names,
        marsh.path.split, marsh.path.escape_field, marsh.path.head, marsh.path.tail,
    ):
        work.observe(fn.__name__, fn, text)


@kind(2)
def configs(work):
    import marsh
    import marsh.config
    from . import files
    rng = work.rng
    with files.scratch() as folder, files.cwd(folder):
        names = []
        for i in range(rng.choice((1, 2, 3))):
            name = f'{"abc"[i]}{rng.choice(files.EXTENSIONS)}'
            if rng.random() < 0.3:
                name = f'sub{i}/{name}'
            data = files.jsonable(rng)
            if rng.random() < 0.5:
                data = {rng.choice(('text', 'größe')): rng.choice(('é日', 'ß', '😀', 'Ωμέγα', 'naïve')), 'a': data}
            files.save(name, data, rng)
            names.append(name)
        given = [os.path.splitext(n)[0] if rng.random() < 0.4 else n for n in names]
        for options in ({}, {'concatenate': True}, {'resolve': True}, {'keep_meta': True}):
            outcome = work.observe(f'load {given} {options}', marsh.config.load, *given, **options)
            work.lines[-1] = work.lines[-1].replace(os.path.realpath(folder), '').replace(folder, '')
        work.observe('tree', marsh.config.tree, '.')
        if outcome.error is None:
            for name in ('x.yaml', 'x.json'):
                work.observe(name, marsh.config.ConfigSchema(name).dump, outcome.value)
                if os.path.exists(name):
                    with open(name, 'rb') as file:
                        work.say(name, repr(file.read()))
        work.lines = [line.replace(os.path.realpath(folder), '').replace(folder, '') for line in work.lines]


@kind(2)
def programs(work):
    import marsh
    from . import files, programs as made, specs
    rng = work.rng
    while True:
        fields = specs.gen_params(rng, 2)
        if all(ordered(f.spec) for f in fields) and (
            work.dates or not any(isinstance(s, specs.DateTimeS) for f in fields for s in f.spec.walk())
        ):
            break
    function = made.Function(fields)
    options = {'run_config': True} if rng.random() < 0.1 else {}
    call = marsh.main(function.fn)
    with files.scratch() as folder:
        try:
            element = specs.field_element(rng, fields)
        except (specs.Err, specs.Unknown):
            element = {}
        for _ in range(rng.choice((0, 0, 1, 2))):
            element = specs.mutate(rng, element)
        if not made.expressible(element):
            element = {}
        argv, _ = made.command_line(rng, element, folder)
        argv = ['--', *argv] if rng.random() < 0.5 else argv
        if rng.random() < 0.2 and work.docs:
            argv = ['--help', *argv]
        ran = made.run(call, argv, folder)
        work.say('argv', repr(argv))
        work.say('exit', repr(ran.code))
        work.say('calls', repr([
            {k: text_of_value(v) for k, v in call.items()} for call in function.calls
        ]))
        if ran.outcome is not None:
            work.say('outcome', text_of(ran.outcome))
        for text in (ran.out, ran.err):
            if 'Traceback' not in text:
                work.say('printed', text.replace(os.path.realpath(folder), '').replace(folder, ''))


def text_of_value(value):
    from .values import freeze
    return freeze(value)


@kind(2)
def namespaces(work):
    """Components are found by name, and named in errors."""
    import dataclasses

    import marsh
    from . import specs
    rng = work.rng
    base = dataclasses.make_dataclass('Base', [('x', int, 1)])
    name = 'work'
    space = marsh.namespaces.new(name, base=base)
    try:
        classes = []
        for i in range(rng.choice((0, 1, 3, 5))):
            cls = dataclasses.make_dataclass(f'Part{i}', [(f'y{i}', rng.choice((int, str, float)), i)], bases=(base,))
            space.register(cls, name=rng.choice(('a', 'aa', 'ab', 'b', 'Part')) + str(i))
            classes.append(cls)
        work.say('names', repr(list(space)))
        for t in (base, *classes[:2], typing_list(base)):
            documented(work, t)
            for element in (
                {}, {'name': 'a0'}, {'name': 'a1', 'x': '2'}, {'name': 'nothing'}, {'x': 'x'},
                {'name': 'Part0'}, [{'name': 'b2'}], specs.rand_element(rng, 2),
            ):
                outcome = work.observe(f'unmarshal {element!r}', marsh.unmarshal, t, element)
                if outcome.error is None:
                    work.observe('marshal', marsh.marshal, outcome.value)
    finally:
        del marsh.namespaces[name]


def typing_list(t):
    import typing
    return typing.List[t]


@kind(1)
def recursion(work):
    import marsh
    from . import recursive, specs
    module = recursive.Module(work.rng).build()
    try:
        for spec in list(module.specs.values())[:3]:
            try:
                element = recursive.element(work.rng, spec, 3)
            except (specs.Err, specs.Unknown):
                continue
            for _ in range(work.rng.choice((0, 1, 2))):
                element = specs.mutate(work.rng, element)
            work.observe(f'{spec!r} {element!r}', marsh.unmarshal, spec.t, element)
            work.lines[-1] = re.sub(r'mon_recursive_\d+', 'module', work.lines[-1])
    finally:
        module.forget()


def probe(work):
    work.say('set', repr({work.rng.choice('abc') * i for i in range(9)}))


# -- the process ---------------------------------------------------------------

def plan(n):
    """Kinds of work, by their weights."""
    total = [name for name, (weight, _) in KINDS.items() for _ in range(weight)]
    return [(total[i % len(total)], i) for i in range(n)]


def do(setup, name, index):
    work = Work(setup, name, index)
    KINDS[name][1](work)
    return work.lines


def everything(setup):
    work = plan(setup['n'])
    order = list(range(len(work)))
    if setup.get('order') == 'reversed':
        order.reverse()
    elif setup.get('order') == 'shuffled':
        random.Random(setup['seed'] + 1).shuffle(order)
    results = [None] * len(work)
    for i in order:
        results[i] = do(setup, *work[i])
        if setup.get('clear'):
            import marsh
            marsh.schema.caches.cache_clear()
    return results


@contextlib.contextmanager
def observed(setup):
    """Profilers, debuggers and the garbage collector."""
    how = setup.get('trace')
    threshold = gc.get_threshold()

    def trace(frame, event, arg):
        return trace

    try:
        if how == 'profile':
            sys.setprofile(trace)
        elif how == 'trace':
            sys.settrace(trace)
        elif how == 'no gc':
            gc.disable()
        elif how == 'gc':
            gc.set_threshold(5, 2, 2)
        yield
    finally:
        sys.setprofile(None)
        sys.settrace(None)
        gc.enable()
        gc.set_threshold(*threshold)


def in_thread(setup):
    results = []
    old = threading.stack_size(64 << 20)
    thread = threading.Thread(target=lambda: results.append(everything(setup)))
    thread.start()
    thread.join()
    threading.stack_size(old)
    return results[0]


def in_child(setup):
    """In a process that is forked after marsh was used."""
    everything({**setup, 'n': 8})
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(read)
            with open(write, 'w', encoding='utf-8') as file:
                json.dump(everything(setup), file)
        finally:
            os._exit(0)
    os.close(write)
    with open(read, encoding='utf-8') as file:
        results = json.load(file)
    os.waitpid(pid, 0)
    return results


def main():
    setup = json.loads(sys.argv[1])
    sys.stdout, real = io.StringIO(), sys.stdout
    modules = set(sys.modules)
    for name in setup.get('first', ()):
        module = importlib.import_module(name)
        if setup.get('star'):
            exec(f'from {name} import *', {})
            for public in getattr(module, '__all__', ()):
                getattr(module, public)
    printed = sys.stdout.getvalue()
    assert not printed, printed
    if setup.get('probe'):
        KINDS['probe'] = 100, probe
    if setup.get('warn'):
        warnings.filterwarnings('error', module=r'marsh(\.|$)')
    import marsh
    with observed(setup):
        run = {'thread': in_thread, 'fork': in_child}.get(setup.get('where'), everything)
        results = run(setup)
    json.dump({
        'results': results,
        'marsh': os.path.dirname(os.path.abspath(marsh.__file__)),
        'modules': len(set(sys.modules) - modules),
    }, real)


if __name__ == '__main__':
    main()
