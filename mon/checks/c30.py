"""C30: nothing accumulates, nothing is kept alive"""
import dataclasses
import enum
import gc
import inspect
import logging
import sys
import types
import typing
import weakref

import marsh

from .. import gen, specs
from ..core import Check
from ..oracles import observe

check = Check(
    'C30',
    rule=(
        'Random types are used again and again, in every way; the number of '
        'objects and of allocated blocks must not grow with the number of '
        'calls. Objects inside of elements, values, errors and defaults are '
        'observed by weak references and must be released with the results. '
        'Classes that nobody else uses must be released once the caches are '
        'cleared. Non-trivial: distinct types and operations.'
    ),
)
check.require(**{
    'rounds': 720,
    'values': 700,
    'errors': 700,
    'values released': 1200,
    'errors released': 900,
    'objects observed': 3500,
    'classes': 120,
    'classes: everything': 50,
    'classes: main': 12,
    'classes of namespaces': 400,
})


def collect():
    gc.collect()
    return len(gc.get_objects())


def use(rng, t, elements, log):
    """Use a type in every way, without keeping anything."""
    schema = observe(marsh.schema.UnmarshalSchema, t).value
    for element in elements:
        seen = observe(marsh.unmarshal, t, element)
        if seen.error is None:
            log['values'] += 1
            out = observe(marsh.marshal, seen.value)
            if out.error is None:
                log['elements'] += 1
                observe(marsh.cast, t, seen.value)
                observe(marsh.element.merge, out.value, element)
                observe(marsh.element.resolve, out.value)
                observe(marsh.element.has_missing, out.value)
                observe(marsh.element.standardize, out.value)
        else:
            log['errors'] += 1
            seen.error.prepend('field')
            str(seen.error), repr(seen.error)
            observe(seen.error.pretty) if hasattr(seen.error, 'pretty') else None
        if schema is not None:
            observe(schema.unmarshal, element)
    if schema is not None:
        observe(schema.select, 'a.b')
        str(schema), repr(schema)
    observe(marsh.parse.element, '{a: [1, 2, {b: c}]}')
    observe(marsh.parse.override, 'a.b.c=[1, 2')
    observe(marsh.path.split, 'a.b\\.c')


def document(t):
    schema = observe(marsh.schema.UnmarshalSchema, t).value
    if schema is not None:
        observe(schema.doc, 2)
        observe(marsh.doc.terminal.format_unmarshal_help, t, width=80)


@check.workload(quick=120, thorough=3000)
def repeated(case):
    rng = case.rng
    gen.clear_caches()
    spec = gen.draw(case)
    gen.observe_kinds(case, spec)
    elements = [element for element, _ in gen.elements(case, spec)]
    case.note(type=spec, elements=elements)
    case.distinct((spec.label, repr(elements)))
    case.sample(f'{spec} {elements}')
    log = dict.fromkeys(('values', 'elements', 'errors'), 0)

    def sizes():
        return {name: cache.cache_info().currsize for name, cache in marsh.schema.caches.items()}

    documented = rng.random() < 0.2

    def round_():
        if documented:
            document(spec.t)
        else:
            use(rng, spec.t, elements, log)

    round_()
    round_()
    rounds = 6
    # what is kept once is not kept again: one of the measurements in a row
    # has to be without growth
    for _ in range(4):
        objects, cached = collect(), sizes()
        blocks = sys.getallocatedblocks()
        for _ in range(rounds):
            round_()
        grown = collect() - objects
        more = sys.getallocatedblocks() - blocks
        if documented or gen.no_value(spec, specs.DateTimeS):
            # other packages keep compiled patterns and the like
            more = 0
        case.event('rounds', rounds)
        if grown < rounds and more < rounds and sizes() == cached:
            break
        case.event('measured again')
    for name, n in log.items():
        case.event(name, n)
    case.note(objects=grown, blocks=more, rounds=rounds)
    case.check(grown < rounds, 'objects accumulate')
    case.check(sizes() == cached, 'cache entries accumulate', before=cached, after=sizes())
    case.check(more < rounds, 'memory accumulates')


# -- objects inside of elements, values and errors --------------------------

class Text(str):
    __slots__ = ('__weakref__',)


class Items(list):
    __slots__ = ('__weakref__',)


class Data(dict):
    __slots__ = ('__weakref__',)


def observable(element, seen):
    """A copy that consists of objects that can be observed."""
    if isinstance(element, str) and element != '???' and '$' not in element:
        # (the parser of omegaconf keeps interpolations)
        out = Text(element)
    elif specs.is_map(element):
        out = Data({
            observable(key, seen) if isinstance(key, str) else key: observable(element[key], seen)
            for key in element.keys()
        })
    elif specs.is_seq(element):
        out = Items(observable(item, seen) for item in element)
    else:
        return element
    seen.append(weakref.ref(out))
    return out


def watch(value, seen, depth=4):
    """References to everything in a value that can be referred to weakly."""
    if depth == 0 or isinstance(value, (type, typing.TypeVar)):
        return
    try:
        seen.append(weakref.ref(value))
    except TypeError:
        pass
    if specs.is_map(value):
        items = [*value, *(value[key] for key in value)]
    elif specs.is_seq(value) or isinstance(value, (set, frozenset)):
        items = list(value)
    else:
        items = list(getattr(value, '__dict__', {}).values())
    for item in items:
        watch(item, seen, depth - 1)


def alive(seen):
    gc.collect()
    return [ref() for ref in seen if ref() is not None]


def consume(rng, t, element, seen):
    """Everything that is done with the element, nothing is returned."""
    counts = [0, 0]
    schema = observe(marsh.schema.UnmarshalSchema, t).value
    calls = [
        lambda: marsh.unmarshal(t, element),
        lambda: schema.unmarshal(element),
        lambda: marsh.cast(t, element),
        lambda: marsh.marshal(element),
        lambda: marsh.element.merge(element, element),
        lambda: marsh.element.override(element, element, 'a'),
        lambda: marsh.element.standardize(element),
        lambda: marsh.element.has_missing(element),
        lambda: marsh.element.remove(element, 'a'),
        lambda: marsh.element.select(element, 'a'),
        lambda: marsh.element.resolve(element),
        lambda: marsh.utils.make_hash_key(element),
        lambda: marsh.unmarshal(t, element, **element),
    ]
    rng.shuffle(calls)
    for call in calls:
        got = observe(call)
        if got.error is None:
            counts[0] += 1
            before = len(seen)
            watch(got.value, seen)
            again = observe(marsh.marshal, got.value)
            watch(again.value, seen)
            if again.error is not None:
                watch(again.error, seen, 1)
        else:
            counts[1] += 1
            watch(got.error, seen, 1)
            if isinstance(got.error, marsh.errors.MarshError):
                str(got.error), repr(got.error), got.error.pretty
    return counts


@check.workload(quick=450, thorough=16000)
def released(case):
    """What is handed over and what is returned is not kept."""
    rng = case.rng
    spec = gen.draw(case, accept=lambda spec: not gen.no_value(spec, specs.LoggerS))
    hostility = rng.choice((0, 0, 1, 2))
    element = gen.draw_element(case, spec, hostility)
    case.note(type=spec, element=element)
    defaults = []
    # defaults and enum members belong to the type
    for node in spec.walk():
        watch([f.default for f in getattr(node, 'fields', ()) if hasattr(f, 'default')], defaults)
        watch(list(getattr(node, 'values', ()) or ()), defaults) if isinstance(node, specs.LitS) else None
    watch(element, defaults, 8)
    kept = {id(obj) for obj in alive(defaults)}
    seen = []
    given = observable(element, seen)
    counts = consume(rng, spec.t, given, seen)
    del given
    case.event('values released', counts[0])
    case.event('errors released', counts[1])
    case.event('objects observed', len(seen))
    case.distinct((spec.label, repr(element)))
    left = [
        obj for obj in alive(seen)
        if id(obj) not in kept and not belongs(obj)
    ]
    case.check(not left, 'something is kept', kept=left[:5], types=[type(obj) for obj in left[:5]])


def belongs(obj):
    """Is kept by python, by the types or by the harness itself."""
    return obj is marsh.MISSING or isinstance(obj, (
        enum.Enum, logging.Logger, types.FunctionType, types.ModuleType, type(dataclasses.MISSING),
    ))


# -- classes ------------------------------------------------------------------

def classes_of(spec):
    return [
        node.t for node in spec.walk()
        if isinstance(node.t, type) and isinstance(node, (specs.StructS, specs.ProtocolS, specs.EnumS))
        and not hasattr(specs, node.t.__name__)
    ]


def build_and_use(case, how, seen):
    """Classes are created, used and dropped again."""
    rng = case.rng
    spec = gen.draw(case)
    seen.extend(weakref.ref(cls) for cls in classes_of(spec))
    case.note(type=spec, use=how)
    case.distinct((spec.label, how))
    log = dict.fromkeys(('values', 'elements', 'errors'), 0)
    elements = [element for element, _ in gen.elements(case, spec, n=2)]
    if how == 'everything':
        use(rng, spec.t, elements, log)
        document(spec.t)
    elif how == 'schemas':
        observe(marsh.schema.UnmarshalSchema, spec.t)
    elif how == 'values':
        value = gen.typed_value(case, spec)
        observe(marsh.marshal, value)
        observe(marsh.cast, spec.t, value)
    elif how == 'function':
        def function(x, *args):
            return x
        function.__annotations__['x'] = spec.t
        observe(marsh.unmarshal, function, elements[:1])
        observe(marsh.unmarshal_args, function, {'x': elements[0]})
        observe(marsh.cast_args, function, [elements[0]])
        seen.append(weakref.ref(function))
    elif how == 'main':
        @marsh.main
        def entry(x):
            return x
        seen.append(weakref.ref(entry))


def forget():
    specs.fresh()
    marsh.schema.caches.cache_clear()
    marsh.schema.UnmarshalSchema.cache_clear()
    # python keeps the classes of which attributes were looked up
    for name in ('_shadowed_dict_from_mro_tuple', '_shadowed_dict_from_weakref_mro_tuple'):
        getattr(getattr(inspect, name, None), 'cache_clear', bool)()
    gc.collect()
    gc.collect()


@check.workload(quick=300, thorough=10000)
def classes(case):
    """Classes that are not in use are released with the caches."""
    how = case.rng.choice(('everything', 'everything', 'schemas', 'values', 'function', 'main'))
    seen = []
    build_and_use(case, how, seen)
    case.event('classes', len(seen))
    case.event(f'classes: {how}')
    forget()
    left = [ref() for ref in seen if ref() is not None]
    case.check(not left, 'classes are kept', kept=left[:5])


# -- namespaces ---------------------------------------------------------------

def namespace_round(rng, seen):
    base = type('Base', (), {})
    name = f'space{rng.randrange(1000)}'
    namespace = marsh.namespaces.new(name, base=base)
    try:
        for i in range(rng.randrange(1, 4)):
            def __init__(self, x=1):
                self.x = x
            cls = type(f'C{i}', (base,), {'__init__': __init__})
            if rng.random() < 0.5:
                cls.__init__.__annotations__['x'] = typing.Optional[base]
            namespace.register(cls, name=f'c{i}')
            seen.append(weakref.ref(cls))
        seen.append(weakref.ref(base))
        seen.append(weakref.ref(namespace))
        for i in range(rng.randrange(3)):
            observe(marsh.unmarshal, base, {'name': f'c{i}'})
            observe(marsh.marshal, cls())
            observe(marsh.unmarshal, typing.List[base], [{'name': 'c0', 'x': None}])
            observe(namespace.find_class, cls)
            observe(marsh.namespaces.find_class, cls)
            observe(marsh.namespaces.find_namespaces, cls)
            observe(marsh.schema.UnmarshalSchema(base).doc, 2)
        if rng.random() < 0.5:
            other = type('C0', (base,), {})
            namespace.register(other, name='c0', replace=True)
            seen.append(weakref.ref(other))
            observe(marsh.unmarshal, base, {'name': 'c0'})
    finally:
        del marsh.namespaces[name]


@check.workload(quick=150, thorough=5000)
def namespaces(case):
    """Namespaces that are removed are gone, and so are their classes."""
    rng = case.rng
    seen = []
    for _ in range(rng.randrange(1, 4)):
        namespace_round(rng, seen)
    case.event('classes of namespaces', len(seen))
    case.distinct(len(seen))
    forget()
    left = [ref() for ref in seen if ref() is not None]
    case.check(not left, 'classes of removed namespaces are kept', kept=left[:5])
