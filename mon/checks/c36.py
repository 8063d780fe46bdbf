"""C36: schemas of the user work like those of marsh"""
import dataclasses
import typing

import marsh

from .. import gen, refmarshal, specs, templates
from ..core import Check
from ..oracles import expect, judge_unmarshal, observe
from ..values import freeze, same, same_element

check = Check(
    'C36',
    scale=3,
    rule=(
        'Schemas of the user are registered that are built on each of the '
        'templates (sequence, mapping, structured, callable, union, none), '
        'wrappers, and some that match by value. '
        'Random classes that they are for are used in all kinds of types, and '
        'contain all kinds of types. Compared with a reference model of the '
        'templates, and with the builtin types of the same shape. '
        'Non-trivial: distinct outcomes.'
    ),
    assumptions=[
        'Schemas implement what the documentation of the templates asks for.',
    ],
)


def between():
    gen.clear_caches()
    templates.forget()


check.between = between
check.require(**{
    'model accepts': 3000,
    'model rejects': 1500,
    'marshaled': 1000,
    'defaults': 400,
    'selected': 800,
    'documented': 500,
    'recursive': 500,
    'constructed': 3000,
    'refused by the class': 150,
    'empty ones are refused': 100,
    'wrapped': 3000,
    'wrapped defaults': 300,
    'innermost schemas': 1000,
    'marshaled by value': 500,
    'described': 2000,
    'described fields': 400,
    'described through wrappers': 200,
})


def used(spec):
    return any(isinstance(s, templates.OwnS) for s in spec.walk())


def draw(case, depth=(1, 2, 2, 3)):
    for _ in range(30):
        templates.forget()
        with templates.everywhere():
            spec = specs.gen_spec(case.rng, case.rng.choice(depth))
        if used(spec):
            return spec
    return templates.OwnSeqS(case.rng, specs.PrimS(int))


@check.workload(quick=2500, thorough=50000)
def unmarshaling(case):
    rng = case.rng
    spec = draw(case)
    case.note(type=repr(spec), hint=spec.t)
    case.sample(repr(spec))
    schema = None
    if rng.random() < 0.5:
        schema = marsh.schema.UnmarshalSchema(spec.t)
    for i in range(4):
        element = gen.draw_element(case, spec, (0, 0, 1, 2)[i])
        templates.CALLS.clear()
        expected = expect(spec.un, element)
        wanted = list(templates.CALLS)
        templates.CALLS.clear()
        if schema is None:
            outcome = observe(marsh.unmarshal, spec.t, element)
        else:
            outcome = observe(schema.unmarshal, element)
        calls = len(templates.CALLS)
        case.event('constructed', calls)
        judge_unmarshal(case, spec, element, outcome, expected)
        if 'too many' in repr(outcome):
            case.event('refused by the class')
        if 'too few' in repr(outcome):
            case.event('empty ones are refused')
        del wanted
        case.distinct((repr(spec), freeze(outcome.value), repr(outcome.error)))


@check.workload(quick=1000, thorough=15000)
def marshaling(case):
    """Wherever a value is, the schema of its class is used."""
    spec = draw(case)
    value = gen.typed_value(case, spec)
    try:
        expected = refmarshal.marshal(value)
    except refmarshal.NotSupported:
        return
    outcome = observe(marsh.marshal, value)
    case.note(type=repr(spec), value=value, expected=expected, observed=repr(outcome))
    case.event('marshaled')
    case.distinct(freeze(expected))
    case.check(
        outcome.error is None and same_element(outcome.value, expected),
        'the element differs from the model',
    )


@check.workload(quick=700, thorough=10000)
def defaults(case):
    """Defaults of fields and parameters, whatever they are."""
    rng = case.rng
    with templates.everywhere():
        spec = templates.own(rng, rng.choice((1, 2)))
    default = rng.choice((None, 5, 'text', (), object(), [1]))
    factory = rng.random() < 0.4

    def make():
        return [default]

    options = {'default_factory': make} if factory else {'default': default}
    schema = marsh.schema.UnmarshalSchema(spec.t, **options)
    case.note(type=repr(spec), options=options)
    case.event('defaults')
    case.distinct((spec.label, repr(default), factory))
    marker = rng.choice((specs.MISSING, dataclasses.MISSING))
    outcome = observe(schema.unmarshal, marker)
    case.check(
        outcome.error is None
        and (same(outcome.value, [default]) if factory else outcome.value is default),
        'an absent value is not the default', observed=repr(outcome),
    )
    if factory:
        case.check(schema.unmarshal(marker) is not outcome.value, 'the factory is called once')
    element = gen.draw_element(case, spec, rng.choice((0, 1)))
    if specs.missing(element):
        return
    judge_unmarshal(
        case, spec, element, observe(schema.unmarshal, element), expect(spec.un, element),
    )
    # the same type without a default is another schema
    judge_unmarshal(
        case, spec, specs.MISSING,
        observe(marsh.unmarshal, spec.t, specs.MISSING), expect(spec.un, specs.MISSING),
    )


def child_schema(spec):
    return marsh.schema.UnmarshalSchema(spec.t)


@check.workload(quick=900, thorough=12000)
def structure(case):
    """Selections, documentation and text follow the structure of builtin
    types of the same shape."""
    rng = case.rng
    with templates.everywhere():
        spec = templates.own(rng, rng.choice((1, 2)))
    schema = marsh.schema.UnmarshalSchema(spec.t)
    case.note(type=repr(spec), schema=str(schema))
    case.distinct(str(schema))
    case.event('documented')
    name = spec.t.__name__

    def selected(path, child, rest):
        seen = observe(lambda: str(schema.select(path)))
        wanted = observe(lambda: str(child_schema(child).select(rest)))
        case.event('selected')
        case.check(
            (seen.error is None) == (wanted.error is None)
            and (seen.error is not None or seen.value == wanted.value),
            'another schema is selected', path=path, observed=repr(seen), expected=repr(wanted),
        )
        if seen.error is not None:
            case.check(isinstance(seen.error, marsh.errors.PathError), 'another error', observed=repr(seen))

    def twins(other):
        for look in (str, lambda s: s.doc_field_type()):
            case.check(
                look(schema) == look(other), 'described in another way than a builtin type',
                observed=look(schema), expected=look(other),
            )

    if isinstance(spec, templates.OwnSeqS):
        selected('', spec.inner, '')
        selected('x', spec.inner, 'x')
        twins(marsh.schema.UnmarshalSchema(typing.List[spec.inner.t]))
    elif isinstance(spec, templates.OwnMapS):
        selected('', spec.inner, '')
        selected('a.b', spec.inner, 'a.b')
        twins(marsh.schema.UnmarshalSchema(typing.Dict[spec.key.t, spec.inner.t]))
    elif isinstance(spec, templates.OwnStructS):
        case.check(schema.select('') is schema, 'nothing is selected')
        for field in spec.fields:
            selected(marsh.path.escape_field(field.name), field.spec, '')
            selected(marsh.path.escape_field(field.name) + '.zz', field.spec, 'zz')
        wrong = observe(schema.select, 'qqqqq')
        case.check(isinstance(wrong.error, marsh.errors.PathError), 'an unknown field is selected')
        doc = schema.doc(1)
        names = [(f.kind if f.kind in ('*', '**') else '') + f.name for f in spec.fields]
        case.check(list(doc.fields) == names and doc.type == name, 'other fields are documented')
        for field, key in zip(spec.fields, names):
            seen = doc.fields[key]
            case.check(
                seen.type == child_schema(field.spec).doc_field_type(),
                'another type of a field', field=key, observed=seen.type,
            )
            wanted = None
            if field.factory is not None:
                wanted = '...'
            elif field.default is not specs.NO:
                try:
                    wanted = str(marsh.marshal(field.default))
                except marsh.errors.MarshalError:
                    wanted = str(field.default)
            case.check(seen.doc.default == wanted, 'another default', field=key, observed=seen.doc.default)
        case.check(schema.doc_field_type() == f'{name}(...)', 'another type')
        text = f'{name}({", ".join(f"{key}: {child_schema(f.spec)}" for key, f in zip(names, spec.fields))})'
        case.check(str(schema) == text, 'another text', expected=text)
    elif isinstance(spec, templates.OwnUnionS):
        case.check(schema.select('') is schema, 'nothing is selected')
        wrong = observe(schema.select, 'a')
        case.check(isinstance(wrong.error, marsh.errors.PathError), 'a union is traversed')
        text = ' | '.join(str(child_schema(arm)) for arm in spec.arms)
        case.check(str(schema) == text, 'another text', expected=text)
        text = ' | '.join(child_schema(arm).doc_field_type() for arm in spec.arms)
        case.check(schema.doc_field_type() == text, 'another type', expected=text)
    else:
        case.check(schema.select('') is schema and str(schema) == f'<{name}>', 'another text')
        wrong = observe(schema.select, 'a')
        case.check(isinstance(wrong.error, marsh.errors.PathError), 'a terminal is traversed')
        case.check(schema.doc_type() == schema.doc_field_type() == name, 'another type')


class LinkS(specs.Spec):
    """A type that contains this one."""
    hashable = False

    def __init__(self):
        self.label = 'link'

    def point(self, target):
        self.target = target
        self.t = target.t

    def un(self, element, default=specs.NO):
        return self.target.un(element, default)

    def conforms(self, value):
        return self.target.conforms(value)


@check.workload(quick=500, thorough=8000)
def recursive(case):
    """Types of the user that contain themselves, directly or within other
    types of the user."""
    rng = case.rng
    link = LinkS()
    leaf = rng.choice((specs.PrimS(int), specs.PrimS(str)))
    inner = link
    shapes = []

    def element(depth):
        item = leaf.element(rng) if depth <= 0 or rng.random() < 0.2 else element(depth - 1)
        for shape in shapes:
            if shape == 'seq':
                item = [item] * rng.choice((0, 1, 1))
            elif shape == 'map':
                item = {'k': item}
            elif shape == 'struct':
                item = {'x': item, 'n': 1}
        return item

    # an element may end in a leaf
    first = templates.OwnUnionS(rng, [leaf, inner])
    outer = first
    for _ in range(rng.choice((1, 1, 2, 3))):
        shape = rng.choice(('seq', 'map', 'struct', 'plain'))
        shapes.append(shape)
        if shape == 'seq':
            outer = templates.OwnSeqS(rng, outer)
        elif shape == 'map':
            outer = templates.OwnMapS(rng, specs.PrimS(str), outer)
        elif shape == 'struct':
            outer = templates.OwnStructS(rng, [specs.Field('x', outer), specs.Field('n', specs.PrimS(int))])
        else:
            outer = templates.OwnPlainS(rng, outer)
    if set(shapes) == {'plain'}:
        # nothing of the element is left behind: no type has values
        shapes.append('seq')
        outer = templates.OwnSeqS(rng, outer)
    link.point(outer)
    hint, value, wrap = outer.t, lambda x: x, lambda x: x
    if rng.random() < 0.4:
        hint, value, wrap = rng.choice((
            (typing.List[outer.t], lambda x: [x], lambda x: [x]),
            (typing.Dict[str, outer.t], lambda x: {'k': x}, lambda x: {'k': x}),
            (typing.Tuple[outer.t, int], lambda x: (x, 1), lambda x: [x, 1]),
        ))
    if rng.random() < 0.5:
        hint_schema = marsh.schema.UnmarshalSchema(hint)
        unmarshal = hint_schema.unmarshal
        for depth in (0, 2):
            case.check(observe(hint_schema.doc, depth).error is None, 'no documentation')
        case.check(isinstance(str(hint_schema), str), 'no text')
    else:
        def unmarshal(element):
            return marsh.unmarshal(hint, element)
    for depth in (0, 2, rng.choice((3, 6))):
        item = element(depth)
        for _ in range(rng.choice((0, 0, 1))):
            item = specs.mutate(rng, item)
        case.event('recursive')
        expected = expect(outer.un, item)
        outcome = observe(unmarshal, wrap(item))
        case.note(shapes=shapes, hint=hint, element=item, observed=repr(outcome), expected=repr(expected))
        case.distinct((tuple(shapes), freeze(outcome.value), repr(outcome.error)))
        if expected is None:
            continue
        case.check(
            (outcome.error is None) == (expected.error is None), 'another outcome',
        )
        if expected.error is None:
            case.check(same(outcome.value, value(expected.value)), 'another value')
            marshaled = observe(marsh.marshal, outcome.value)
            case.check(
                marshaled.error is None and same_element(marshaled.value, refmarshal.marshal(outcome.value)),
                'marshaled into something else', marshaled=repr(marshaled),
            )
        else:
            case.check(isinstance(outcome.error, marsh.errors.UnmarshalError), 'another error')


@check.workload(quick=700, thorough=10000)
def wrappers(case):
    """Wrappers are applied in the order of their priority, around the schema
    that is used without them, to values and defaults."""
    rng = case.rng
    names = templates.ORDER
    used_by = {t: [n for n in names if rng.random() < 0.45] for t in (int, str, dict)}
    marshaled_by = {t: [n for n in names if rng.random() < 0.45] for t in (int, str)}
    holder = dataclasses.make_dataclass(
        'Holder', [('n', int), ('s', str, 'dflt'), ('m', int, dataclasses.field(default_factory=lambda: 7))],
        module='nowhere',
    )
    try:
        templates.WRAPPING.update({
            name: [t for t in used_by if name in used_by[t]] for name in names
        })
        templates.WRAPPING.update({
            f'marshal {name}': [t for t in marshaled_by if name in marshaled_by[t]] for name in names
        })
        gen.clear_caches()

        def tagged(type_, value):
            for name in reversed(used_by[type_]):
                if name != 'never':
                    value = templates.Tagged(name, value)
            return value

        shapes = (
            (int, 3, lambda: tagged(int, 3)),
            (str, 'x', lambda: tagged(str, 'x')),
            (typing.List[int], [1, 2], lambda: [tagged(int, 1), tagged(int, 2)]),
            (typing.Optional[str], 'y', lambda: tagged(str, 'y')),
            (typing.Dict[str, typing.Tuple[int, str]], {'k': [1, 'a']}, None),
            (holder, {'n': 1}, None),
            (typing.List[holder], [{'n': 1, 's': 'b'}, {'n': 2, 'm': 3}], None),
            (dict, {'a': 1}, lambda: tagged(dict, {'a': 1})),
            (typing.Annotated[int, 'x'], 4, lambda: tagged(int, 4)),
        )
        case.note(used_by=used_by, marshaled_by=marshaled_by)
        case.distinct(repr(used_by))

        def hold(n, s='dflt', m=7):
            return ('Holder', tagged(int, n), tagged(str, s), tagged(int, m))

        def plain(value):
            if isinstance(value, holder):
                case.event('wrapped defaults')
                return ('Holder', plain(value.n), plain(value.s), plain(value.m))
            if isinstance(value, templates.Tagged):
                case.event('wrapped')
                tag, inner = value._observed
                return ('Tagged', tag, plain(inner))
            if isinstance(value, (list, tuple)):
                return tuple(map(plain, value))
            if isinstance(value, dict):
                return {plain(k): plain(v) for k, v in value.items()}
            return value

        for hint, element, expected in rng.sample(shapes, 5):
            if expected is None:
                if hint is holder:
                    expected = hold(1)
                elif 'Holder' in repr(hint):
                    expected = (hold(1, 'b'), hold(2, m=3))
                else:
                    expected = {plain(tagged(str, 'k')): (tagged(int, 1), tagged(str, 'a'))}
            else:
                expected = expected()
            if hint == typing.Dict[str, typing.Tuple[int, str]] and set(used_by[str]) - {'never'}:
                # wrapped keys have no equality
                continue
            outcome = observe(marsh.unmarshal, hint, element)
            case.check(
                outcome.error is None and repr(plain(outcome.value)) == repr(plain(expected)),
                'the wrappers were not applied as expected', hint=hint,
                observed=repr(outcome.error) if outcome.error else plain(outcome.value), expected=plain(expected),
            )
        for type_, default in ((int, 5), (str, 'z')):
            outcome = observe(marsh.schema.UnmarshalSchema(type_, default=default).unmarshal, specs.MISSING)
            case.event('wrapped defaults')
            case.check(
                outcome.error is None and plain(outcome.value) == plain(tagged(type_, default)),
                'the default is lost or changed', observed=repr(outcome), expected=plain(tagged(type_, default)),
            )
            wrong = observe(marsh.unmarshal, typing.List[type_], [default, {}])
            case.check(
                isinstance(wrong.error, marsh.errors.UnmarshalError) and wrong.error.path == '1',
                'another error through wrappers', observed=repr(wrong),
            )
        schema = marsh.schema.UnmarshalSchema(typing.List[int])
        bare = [n for n in used_by[int] if n != 'never']
        item = schema.value_schema
        for name in bare:
            case.check(type(item).__name__ == name, 'another order of the wrappers', observed=type(item).__name__)
            item = item.schema
        for holder_ in (schema.value_schema, *([schema.value_schema.schema] if bare else ())):
            if isinstance(holder_, marsh.schema.core.base.WrapperSchema):
                case.event('innermost schemas')
                case.check(
                    holder_.inner_schema is item, 'the innermost schema is another one', observed=type(holder_.inner_schema),
                )
        case.check(not isinstance(item, marsh.schema.core.base.WrapperSchema), 'one more wrapper')
        case.check(str(schema) == '[<int>, ...]' and schema.doc_field_type() == '[<int>, ...]', 'a wrapper changes the text')
        case.check(schema.doc(2).type == marsh.schema.UnmarshalSchema(typing.List[float]).doc(2).type.replace('float', 'int'), 'a wrapper changes the documentation')

        def marshal(value):
            element = value
            if isinstance(value, (list, tuple)):
                return [marshal(v) for v in value]
            if isinstance(value, dict):
                return {k: marshal(v) for k, v in value.items()}
            for name in reversed(marshaled_by.get(type(value), ())):
                if name != 'never':
                    element = [name, element]
            return element

        for value in (1, 'x', [1, 2.5, 'y'], {'k': (1, True)}, {'k': {'l': 'm'}}):
            outcome = observe(marsh.marshal, value)
            if 'k' in repr(value) and set(marshaled_by[str]) - {'never'}:
                # keys as well
                continue
            case.check(
                outcome.error is None and same_element(outcome.value, marshal(value)),
                'the wrappers of values were not applied as expected', value=value,
                observed=repr(outcome), expected=marshal(value),
            )
    finally:
        templates.WRAPPING.clear()
        gen.clear_caches()


WORDS = ('alpha', 'beta', 'gamma', 'delta', 'omega', 'sigma')


@check.workload(quick=500, thorough=8000)
def described(case):
    """What a schema says about itself is what is documented, through
    wrappers and as part of others."""
    rng = case.rng
    Doc = marsh.schema.UnmarshalSchema.Doc
    subject = type('Subject', (), {'__module__': 'nowhere', '__doc__': rng.choice((None, 'Of the class.'))})
    says = {
        'doc_type': rng.choice(WORDS),
        'doc_field_type': rng.choice(WORDS) + '...',
        'doc_description': rng.choice((None, 'Is ' + rng.choice(WORDS) + '.')),
        'doc_default': rng.choice((None, 'some')),
        'doc_special_fields': rng.choice((None, [Doc.SpecialField(value=w, description=w[:2]) for w in WORDS[:rng.randrange(1, 4)]])),
        '__str__': '<' + rng.choice(WORDS) + '>',
    }
    says = {name: value for name, value in says.items() if rng.random() < 0.75}
    attributes = {
        name: (lambda value: lambda self: value)(value) for name, value in says.items()
    }
    depths = []
    fields = rng.choice((None, {w: Doc.Field(doc=Doc(type=w), type=w) for w in WORDS[:rng.randrange(1, 3)]}))
    told = rng.random() < 0.7
    if told:
        def doc_fields(self, depth):
            depths.append(depth)
            return fields
        attributes['doc_fields'] = doc_fields
    attributes['match'] = classmethod(lambda cls, value: value is subject)
    attributes['unmarshal'] = lambda self, element: subject()
    schema_class = type('SubjectSchema', (marsh.schema.UnmarshalSchema,), attributes)
    layers = rng.choice((0, 0, 1, 2))
    wrapper_classes = [
        type(f'Around{i}', (marsh.schema.core.unmarshal.WrapperUnmarshalSchema,), {
            'match': classmethod(lambda cls, value: value is subject),
        })
        for i in range(layers)
    ]
    default = rng.choice(({}, {}, {'default': rng.choice((None, 3, 'text'))}, {'default_factory': subject}))
    case.note(says=says, layers=layers, fields=fields and list(fields), default=default)
    case.distinct((repr(says), layers, told, repr(default), repr(fields)))
    registry = marsh.schema.UnmarshalSchema.registry
    registered = [schema_class, *wrapper_classes]
    try:
        for i, cls in enumerate(registered):
            marsh.schema.register(cls, priority=60 + i)
        gen.clear_caches()
        schema = marsh.schema.UnmarshalSchema(subject, **default)
        implied = None
        if 'default' in default:
            implied = str(default['default'])
        elif default:
            implied = '...'
        expected = Doc(
            type=says.get('doc_type', 'Subject'),
            default=says.get('doc_default', implied),
            description=says.get('doc_description', subject.__doc__),
            fields=fields if told else None,
            special_fields=says.get('doc_special_fields'),
        )
        text = says.get('__str__')
        for depth in (0, 1, 3, -1):
            depths.clear()
            seen = schema.doc(depth)
            case.check(seen == expected, 'another documentation', observed=seen, expected=expected, depth=depth)
            case.check(not told or depths == [max(0, depth)], 'another depth of the fields', observed=depths)
        parts = {
            'doc_type': expected.type, 'doc_default': expected.default, 'doc_description': expected.description,
            'doc_field_type': says.get('doc_field_type', expected.type), 'doc_special_fields': expected.special_fields,
        }
        for name, value in parts.items():
            seen = getattr(schema, name)()
            case.event('described')
            case.check(seen == value, 'a schema says something else', method=name, observed=seen, expected=value)
        case.check(schema.doc_fields(2) == expected.fields, 'other fields', observed=schema.doc_fields(2))
        if text:
            case.check(str(schema) == text, 'another text', observed=str(schema))
        holder = dataclasses.make_dataclass('Holder', [('part', subject), ('many', typing.List[subject])], module='nowhere')
        outer = marsh.schema.UnmarshalSchema(holder)
        inner = dataclasses.replace(expected, default=says.get('doc_default', None))
        field = outer.doc(2).fields['part']
        case.check(
            field.doc == inner and field.type == parts['doc_field_type'],
            'a field is documented in another way', observed=field, expected=inner,
        )
        case.check(outer.select('part').doc(1) == inner, 'another schema is selected')
        case.event('described fields')
        if layers:
            case.event('described through wrappers')
        lines = ''.join(marsh.doc.terminal.format_unmarshal_help(schema, depth=1).split())
        for said in (expected.description, *(f.value for f in expected.special_fields or ()), *(fields if told and fields else ())):
            case.check(said is None or ''.join(said.split()) in lines, 'the help does not say it', observed=lines, expected=said)
    finally:
        for i in reversed(range(len(registry.priority))):
            if any(registry.priority[i] is cls for cls in registered):
                del registry.priority[i]
        gen.clear_caches()
        marsh.schema.UnmarshalSchema.cache_clear()


@check.workload(quick=300, thorough=5000)
def by_value(case):
    """Schemas may match some of the values of a type."""
    rng = case.rng
    limits = {t: rng.choice((0, 3, 5)) for t in rng.sample((int, float, bool), rng.choice((1, 2)))}

    def draw(depth):
        roll = rng.random()
        if depth > 0 and roll < 0.3:
            return [draw(depth - 1) for _ in range(rng.randrange(4))]
        if depth > 0 and roll < 0.5:
            return {f'k{i}': draw(depth - 1) for i in range(rng.randrange(3))}
        return rng.choice((0, 1, 2, 3, 4, 5, 6, 2.5, 3.0, 5.5, True, False, 'x', None))

    def marshal(value):
        if isinstance(value, list):
            return tuple(map(marshal, value))
        if isinstance(value, dict):
            return {k: marshal(v) for k, v in value.items()}
        if type(value) in limits and value >= limits[type(value)]:
            case.event('marshaled by value')
            return f'large {value}'
        return value

    try:
        templates.LEAVES.update(limits)
        for _ in range(4):
            value = [draw(2) for _ in range(4)]
            outcome = observe(marsh.marshal, value)
            expected = marshal(value)
            case.note(limits=limits, value=value, expected=expected, observed=repr(outcome))
            case.distinct(freeze(expected))
            case.check(
                outcome.error is None and same_element(outcome.value, expected),
                'the element differs from the model',
            )
    finally:
        templates.LEAVES.clear()
