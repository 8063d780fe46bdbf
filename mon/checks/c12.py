"""C12: types may refer to themselves and each other"""
import dataclasses
import gc
import itertools
import sys
import types
import typing

import marsh

from .. import gen, recursive, refmarshal, specs
from ..core import Check
from ..oracles import expect, judge_unmarshal, observe
from ..values import freeze, same, same_element

check = Check(
    'C12',
    scale=4,
    rule=(
        'Random modules of one to four dataclasses, named tuples, typed '
        'dicts and plain classes that refer to themselves, to each other '
        'and to another module in all kinds of containers, with quoted and '
        'postponed annotations. The types are used in random order, alone '
        'and inside of other types, with kept and cleared caches, valid and '
        'damaged elements of any depth. Compared with a reference model '
        'that follows references by name. Local classes of the same name '
        'are told apart. Non-trivial: distinct pairs of source and outcome.'
    ),
    assumptions=['Annotations can be evaluated in their module.'],
)
check.between = gen.clear_caches
check.require(**{
    'modules': 300,
    'model accepts': 2000,
    'model rejects': 1000,
    'round trips': 800,
    'local classes': 200,
    'deep': 50,
    'collected classes': 200,
    'documented': 200,
    'dotted names': 300,
    'collections of themselves': 300,
    'ends': 1500,
})


def uses(rng, module):
    """The classes, and types that contain them."""
    out = []
    for name in module.classes:
        spec = module.specs[name]
        out.append(spec)
        if rng.random() < 0.3:
            specs.fresh()
            roll = rng.random()
            if roll < 0.3:
                out.append(specs.SeqS(spec, rng.choice(('List', 'list', 'Sequence'))))
            elif roll < 0.6:
                out.append(specs.OptS(spec))
            elif roll < 0.8:
                out.append(specs.MapS(specs.PrimS(str), spec, 'dict'))
            else:
                out.append(specs.TupleS([spec, specs.PrimS(int)], 'tuple'))
    rng.shuffle(out)
    return out


def lossless(spec, seen=None):
    """Does the marshaled value determine the value?"""
    seen = set() if seen is None else seen
    if isinstance(spec, recursive.RefS):
        return lossless(spec.target, seen)
    if id(spec) in seen:
        return True
    seen.add(id(spec))
    if isinstance(spec, specs.StructS):
        return getattr(spec, 'kind', '') != 'class' and all(
            lossless(f.spec, seen)
            and (f.default is not None or isinstance(f.spec, specs.OptS))
            for f in spec.fields
        )
    if isinstance(spec, specs.UnionS):
        return False
    return spec.lossless and all(lossless(c, seen) for c in spec.children())


def judge(case, module, spec, element, schema=None):
    rng = case.rng
    case.note(source=module.text + (module.other.text if module.other else ''))
    expected = expect(spec.un, element)
    if schema is None:
        outcome = observe(marsh.unmarshal, spec.t, element)
    else:
        outcome = observe(schema.unmarshal, element)
    judge_unmarshal(case, spec, element, outcome, expected)
    case.distinct((module.text, repr(outcome.error), freeze(outcome.value)))
    if outcome.error is None and rng.random() < 0.5 and lossless(spec):
        marshaled = observe(marsh.marshal, outcome.value)
        case.note(marshaled=repr(marshaled))
        case.check(marshaled.error is None, 'the value can not be marshaled')
        case.check(
            same_element(marshaled.value, refmarshal.marshal(outcome.value)),
            'marshaled to an unexpected element',
        )
        again = observe(marsh.unmarshal, spec.t, marshaled.value)
        case.event('round trips')
        case.check(
            again.error is None and same(again.value, outcome.value),
            'the marshaled value is not restored',
            again=repr(again),
        )


def describe(case, module, spec):
    """The documentation, text and selection of recursive types end."""
    case.note(source=module.text + (module.other.text if module.other else ''), type=repr(spec))
    schema = marsh.schema.UnmarshalSchema(spec.t)
    for depth in (0, 1, 3):
        doc = observe(schema.doc, depth)
        case.check(doc.error is None, 'no documentation', error=repr(doc))
    case.check(
        isinstance(str(schema), str) and isinstance(repr(schema), str),
        'no text of the schema',
    )
    case.event('documented')


@check.workload(quick=1000, thorough=15000)
def modules(case):
    rng = case.rng
    other = None
    built = []
    try:
        if rng.random() < 0.25:
            other = recursive.Module(rng).build()
            built.append(other)
        module = recursive.Module(rng, other=other).build()
        built.append(module)
        case.event('modules')
        case.sample(module.lines[0])
        types_ = uses(rng, module)
        if other is not None:
            types_ += uses(rng, other)
            rng.shuffle(types_)
        for spec in types_:
            if rng.random() < 0.15:
                marsh.schema.caches.cache_clear()
            if rng.random() < 0.15:
                marsh.schema.UnmarshalSchema.cache_clear()
            schema = None
            if rng.random() < 0.5:
                schema = marsh.schema.UnmarshalSchema(spec.t)
            if rng.random() < 0.4:
                describe(case, module, spec)
            for i in range(rng.choice((2, 4))):
                element = recursive.element(rng, spec, rng.choice((1, 2, 3, 5)))
                for _ in range((0, 0, 1, 2)[i % 4]):
                    element = specs.mutate(rng, element)
                judge(case, module, spec, element, schema)
    finally:
        for module in built:
            module.forget()


@check.workload(quick=500, thorough=8000)
def local_classes(case):
    """Several local classes of the same name, that only differ in what they
    contain, are used in turn."""
    rng = case.rng
    made = []
    try:
        state = rng.getstate()
        for _ in range(rng.choice((2, 3))):
            module = recursive.Module(rng, local=True)
            module.build()
            made.append(module)
            case.event('local classes')
        del state
        for _ in range(6):
            module = rng.choice(made)
            spec = module.specs[module.classes[0]]
            element = recursive.element(rng, spec, rng.choice((1, 2, 3)))
            if rng.random() < 0.3:
                element = specs.mutate(rng, element)
            judge(case, module, spec, element)
            if rng.random() < 0.1:
                gc.collect(0)
            if rng.random() < 0.1:
                marsh.schema.caches.cache_clear()
    finally:
        for module in made:
            module.forget()


@check.workload(quick=60, thorough=800)
def collected_classes(case):
    """Local classes are dropped while others are used, and the garbage
    collector runs as often as it can."""
    rng = case.rng
    made = []
    try:
        for _ in range(rng.choice((4, 8))):
            for module in made[:-1]:
                module.forget()
            del made[:-1]
            if rng.random() < 0.3:
                specs.fresh()
            module = recursive.Module(rng, local=rng.random() < 0.8)
            module.build()
            made.append(module)
            case.event('collected classes')
            with gen.eager_collector(rng):
                for _ in range(rng.choice((1, 2))):
                    module = rng.choice(made)
                    spec = module.specs[module.classes[0]]
                    element = recursive.element(rng, spec, rng.choice((1, 2)))
                    judge(case, module, spec, element)
    finally:
        for module in made:
            module.forget()


@check.workload(quick=150, thorough=2000)
def deep(case):
    """Elements that are as deep as the stack of python allows."""
    rng = case.rng
    module = recursive.Module(rng, kinds=('dataclass', 'class', 'typeddict')).build()
    try:
        found = None
        for name in module.classes:
            spec = module.specs[name]
            for f in spec.fields:
                inner = f.spec
                steps = []
                while not isinstance(inner, recursive.RefS):
                    if isinstance(inner, specs.SeqS):
                        steps.append('seq')
                        inner = inner.inner
                    elif isinstance(inner, specs.OptS):
                        inner = inner.inner
                    elif isinstance(inner, specs.MapS):
                        steps.append('map')
                        inner = inner.inner
                    else:
                        break
                if isinstance(inner, recursive.RefS) and inner.target is spec:
                    found = spec, f, steps
        if found is None:
            return
        spec, field, steps = found
        depth = rng.choice((20, 40))
        element = recursive.element(rng, spec, 0)
        for _ in range(depth):
            item = element
            for step in reversed(steps):
                item = [item] if step == 'seq' else {'1': item}
            outer = recursive.element(rng, spec, 0)
            if not isinstance(outer, dict):
                outer = {}
                for f in spec.fields:
                    outer[f.name] = recursive.element(rng, f.spec, 0)
            outer[field.name] = item
            element = outer
        case.event('deep')
        judge(case, module, spec, element)
    finally:
        module.forget()


_packages = itertools.count()
WORDS = 'alpha', 'beta', 'gamma', 'delta'
DOTTED = (
    (lambda ref: ref, lambda x: x, lambda x: x),
    (lambda ref: typing.List[ref], lambda x: [x], lambda x: [x]),
    (lambda ref: typing.Dict[str, ref], lambda x: {'k': x}, lambda x: {'k': x}),
    (lambda ref: typing.Optional[ref], lambda x: x, lambda x: x),
    (lambda ref: typing.Union[int, ref], lambda x: x, lambda x: x),
    (lambda ref: typing.Tuple[ref, int], lambda x: [x, 2], lambda x: (x, 2)),
)


@check.workload(quick=150, thorough=2500)
def dotted_names(case):
    """References with the name of a module: every module of a package, however
    deep, has classes of the same names."""
    rng = case.rng
    root = f'verif_pkg{next(_packages)}'
    names = [root]
    for _ in range(rng.randrange(1, 5)):
        name = f'{rng.choice(names)}.{rng.choice(WORDS)}'
        if name not in names:
            names.append(name)
    classes = {}
    try:
        for name in names:
            module = sys.modules[name] = types.ModuleType(name)
            module.__path__ = []
            for cls in ('Leaf', 'Other'):
                made = dataclasses.make_dataclass(cls, [(f'f{len(classes)}', int)], namespace={'__module__': name})
                setattr(module, cls, made)
                classes[name, cls] = made
        for _ in range(6):
            (name, cls), made = rng.choice(list(classes.items()))
            hint, element, value = rng.choice(DOTTED)
            ref = f'{name}.{cls}'
            hint = hint(typing.ForwardRef(ref) if rng.random() < 0.5 else typing.List[ref].__args__[0])
            field = dataclasses.fields(made)[0].name
            number = rng.randrange(100)
            outcome = observe(marsh.unmarshal, hint, element({field: number}))
            case.note(hint=hint, modules=names, observed=repr(outcome))
            case.event('dotted names')
            case.distinct((len(names), ref.count('.'), repr(hint)[-40:]))
            case.check(
                outcome.error is None and same(outcome.value, value(made(number))),
                'a name with its module is not the class of that module',
            )
            unknown = observe(marsh.unmarshal, typing.List[f'{name}.Unknown'], [{field: number}])
            case.check(
                isinstance(unknown.error, marsh.errors.MarshError),
                'a class that is not in the module has to fail', observed=repr(unknown),
            )
    finally:
        for name in names:
            sys.modules.pop(name, None)


def container(rng, inner):
    roll = rng.randrange(6)
    if roll == 0:
        return specs.SeqS(inner, rng.choice(('List', 'Sequence', 'Tuple...')))
    if roll == 1:
        return specs.MapS(specs.PrimS(str), inner, rng.choice(('Dict', 'Mapping')))
    if roll == 2:
        return specs.TupleS([specs.PrimS(int), inner], 'Tuple')
    if roll == 3:
        return specs.OptS(specs.SeqS(inner, 'List'))
    if roll == 4:
        return specs.SeqS(specs.OptS(inner), 'List')
    return specs.UnionS(
        [specs.PrimS(int), specs.SeqS(inner, 'List'), specs.MapS(specs.PrimS(str), inner, 'Dict')],
    )


def finite(rng, spec, depth):
    if isinstance(spec, recursive.RefS):
        return finite(rng, spec.target, depth)
    if depth <= 0:
        return rng.choice((1, [], {}, None))
    if isinstance(spec, specs.SeqS):
        return [finite(rng, spec.inner, depth - 1) for _ in range(rng.choice((0, 1, 2)))]
    if isinstance(spec, specs.MapS):
        return {k: finite(rng, spec.inner, depth - 1) for k in rng.sample('abc', rng.choice((0, 1, 2)))}
    if isinstance(spec, specs.TupleS):
        return [finite(rng, item, depth - 1) for item in spec.specs]
    if isinstance(spec, specs.OptS):
        return None if rng.random() < 0.3 else finite(rng, spec.inner, depth)
    if isinstance(spec, specs.UnionS):
        return finite(rng, rng.choice(spec.arms), depth)
    return spec.element(rng)


@check.workload(quick=120, thorough=2000)
def collections_of_themselves(case):
    """Types like JSON, that consist of nothing but collections of each other."""
    rng = case.rng
    root = f'verif_alias{next(_packages)}'
    module = sys.modules[root] = types.ModuleType(root)
    try:
        names = rng.sample(('Json', 'Tree', 'Rows'), rng.choice((1, 1, 2, 3)))
        refs = {}
        for name in names:
            specs.fresh()
            refs[name] = recursive.RefS(f'{root}.{name}')
        made = {}
        for i, name in enumerate(names):
            # all of them are part of the cycle
            inner = refs[names[(i + 1) % len(names)] if rng.random() < 0.7 else rng.choice(names)]
            made[name] = container(rng, inner)
            refs[name].target = made[name]
            setattr(module, name, made[name].t)
        case.note(types={name: spec.t for name, spec in made.items()})
        for name in rng.sample(names, len(names)):
            spec = made[name]
            hint = spec.t
            if rng.random() < 0.3:
                hint = refs[name].t
            schema = marsh.schema.UnmarshalSchema(hint)
            case.event('collections of themselves')
            for depth in (0, 1, 2, 4):
                element = finite(rng, spec, depth)
                if rng.random() < 0.3:
                    element = specs.mutate(rng, element)
                outcome = observe(schema.unmarshal, element)
                judge_unmarshal(case, spec, element, outcome, expect(spec.un, element))
                case.distinct((repr(hint)[-60:], freeze(outcome.value), repr(outcome.error)[:60]))
            holder = marsh.schema.UnmarshalSchema(
                dataclasses.make_dataclass('Holder', [('x', hint), ('y', int)]),
            )
            paths = [rng.choice(('a', '0', 'a.b', '0.a.1', 'x')) for _ in range(2)]
            for look in (
                schema.doc, lambda: schema.doc(3), schema.doc_type, schema.doc_field_type,
                lambda: str(schema), lambda: repr(schema), lambda: holder.doc(2), lambda: str(holder),
                lambda: marsh.doc.terminal.format_unmarshal_help(holder, depth=2),
                lambda: holder.select('x'), lambda: schema.select(''),
                *(lambda path=path: schema.select(path) for path in paths),
                *(lambda path=path: holder.select(f'x.{path}') for path in paths),
            ):
                seen = observe(look)
                case.event('ends')
                case.check(
                    seen.error is None or isinstance(seen.error, marsh.errors.PathError),
                    'a question about a type that contains itself has no answer',
                    observed=repr(seen), paths=paths,
                )
    finally:
        sys.modules.pop(root, None)
