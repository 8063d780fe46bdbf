"""C14: schemas are matched in the order of their priority"""
import dataclasses
import typing

import marsh

from ..core import Check
from ..oracles import observe

check = Check(
    'C14',
    scale=4,
    rule=(
        'Random histories of prioritized values that are added, replaced and '
        'removed; of registries of schema classes (some of which wrap others) '
        'that are matched in between; and of user-defined schemas that are '
        'registered while their types are in use everywhere. Models: '
        'insertion by priority, and the first match in that order. '
        'Non-trivial: distinct histories.'
    ),
)
check.require(**{
    'added': 25000,
    'related': 6000,
    'contradictions': 100,
    'removed': 4000,
    'moved by removal': 120,
    'matches': 10000,
    'wrapped matches': 900,
    'no match': 500,
    'other winner': 500,
    'custom types': 2000,
})

U = marsh.utils
core = marsh.schema.core


class ModelOrder:
    """The specification: a value is placed directly behind the last value of
    higher priority that is in front of the first one it has to precede."""

    def __init__(self):
        self.values = []
        self.age = 0

    def __iter__(self):
        return (entry[0] for entry in self.values)

    @staticmethod
    def relation(new, old):
        value, _, lower, higher, _ = new
        other, _, other_lower, other_higher, _ = old
        precedes = other in lower or value in other_higher
        follows = other in higher or value in other_lower
        return precedes, follows

    def contradictions(self, new):
        return any(all(self.relation(new, old)) for old in self.values) or bool(new[2] & new[3])

    def place(self, new):
        index = 0
        for i, old in enumerate(self.values):
            precedes, follows = self.relation(new, old)
            if precedes:
                break
            if follows or old[1] > new[1]:
                index = i + 1
        self.values.insert(index, new)

    def entry(self, value, priority, lower, higher):
        self.age += 1
        return (value, priority, frozenset(lower), frozenset(higher), self.age)

    def add(self, new, replace):
        if replace:
            self.values = [old for old in self.values if old[0] != new[0]]
        self.place(new)

    def remove(self, removed):
        self.values = [old for old in self.values if old not in removed]
        if any(any(self.relation(old, gone)) for old in self.values for gone in removed):
            values = sorted(self.values, key=lambda entry: entry[4])
            before = list(self.values)
            self.values = []
            for entry in values:
                self.place(entry)
            return before != self.values
        return False


def related(rng, pool):
    """An argument for relative priorities, and the values it stands for."""
    if rng.random() < 0.55:
        return None, ()
    values = rng.sample(pool, rng.choice((1, 1, 2)))
    if len(values) == 1 and rng.random() < 0.5:
        return values[0], values
    return rng.choice((list, tuple, set, iter))(values), values


@check.workload(quick=10000, thorough=200000)
def orders(case):
    rng = case.rng
    order = U.PriorityOrder()
    model = ModelOrder()
    pool = list('abcdefgh')[:rng.choice((3, 5, 8))]
    related_rate = rng.choice((0, 0.3, 1))
    history = []
    for _ in range(rng.choice((5, 15, 30))):
        op = rng.choice(('add',) * 6 + ('remove', 'remove', 'slice', 'reload', 'look'))
        if op == 'add':
            value = rng.choice(pool)
            priority = rng.choice((0, 0, 0, 1, 5, -3))
            (lower, low), (higher, high) = (None, ()), (None, ())
            if rng.random() < related_rate:
                lower, low = related(rng, pool)
                higher, high = related(rng, pool)
            if value in (*low, *high) and rng.random() < 0.9:
                continue
            replace = rng.random() < 0.3
            history.append((op, value, priority, sorted(low), sorted(high), replace))
            case.note(history=history, before=list(model))
            options = {
                key: v for key, v in dict(
                    priority=priority, lower_priority=lower, higher_priority=higher, replace=replace,
                ).items() if v or rng.random() < 0.2
            }
            if rng.random() < 0.3:
                seen = observe(lambda: order.add(**options)(value))
            else:
                seen = observe(order.add, value, **options)
            new = model.entry(value, priority, low, high)
            exists = value in list(model)
            rest = ModelOrder()
            rest.values = [old for old in model.values if old[0] != value]
            if (exists and not replace) or rest.contradictions(new):
                case.event('contradictions')
                if exists and not replace:
                    case.check(
                        isinstance(seen.error, ValueError),
                        'a value was added twice', observed=repr(seen), order=list(order),
                    )
                if seen.error is not None:
                    case.check(
                        isinstance(seen.error, ValueError) and list(order) == list(model),
                        'a refused value changed the order',
                        observed=repr(seen), order=list(order), expected=list(model),
                    )
                    continue
                # contradictions do not have to be found
                if sorted(order) != sorted({*model, value}):
                    case.fail('a value was lost', order=list(order))
                return
            case.check(
                seen.error is None and seen.value == value, 'adding a value failed', observed=repr(seen),
            )
            model.add(new, replace)
            case.event('added')
            if low or high:
                case.event('related')
        elif op == 'remove' and model.values:
            index = rng.randrange(-len(model.values), len(model.values))
            history.append((op, index))
            case.note(history=history)
            seen = observe(order.__delitem__, index)
            case.check(seen.error is None, 'removing failed', observed=repr(seen))
            case.event('removed')
            if model.remove([model.values[index]]):
                case.event('moved by removal')
        elif op == 'slice':
            part = slice(*sorted(rng.sample(range(len(pool) + 2), 2)))
            history.append((op, part))
            case.note(history=history)
            case.check(
                list(order[part]) == list(model)[part] and type(order[part]) is U.PriorityOrder,
                'a slice is wrong', observed=list(order[part]),
            )
            if rng.random() < 0.3:
                del order[part]
                case.event('removed')
                if model.remove(model.values[part]):
                    case.event('moved by removal')
        elif op == 'reload':
            history.append((op,))
            order.reload()
            values = sorted(model.values, key=lambda entry: entry[4])
            model.values = []
            for entry in values:
                model.place(entry)
        case.check(
            list(order) == list(model) and len(order) == len(model.values)
            and [order[i] for i in range(len(order))] == list(model),
            'the order is wrong', observed=list(order), expected=list(model), history=history,
        )
        if op == 'look':
            value = rng.choice(pool)
            case.check((value in order) == (value in list(model)), 'membership is wrong')
            case.check(list(reversed(order)) == list(model)[::-1], 'the reverse is wrong')
            case.check(
                isinstance(observe(lambda: order[len(pool)]).error, IndexError), 'an index that does not exist is found',
            )
    if not related_rate:
        # priorities alone: highest first, then newest first
        expected = [
            entry[0] for entry in sorted(model.values, key=lambda entry: (-entry[1], -entry[4]))
        ]
        case.check(list(order) == expected, 'not by priority', observed=list(order), expected=expected)
    case.distinct(repr(history))
    case.sample(history[:6])


class Failure(Exception):
    pass


def make_schema(rng, base, wrapper, serial):
    """A class that matches some of the values 0..5."""
    matched = {i for i in range(6) if rng.random() < 0.5}
    raising = {i for i in range(6) if rng.random() < 0.1}

    def match(cls, value):
        number = value[0] if isinstance(value, list) else value
        if number in raising:
            raise TypeError('can not compare')
        return number in matched

    bases = (core.base.WrapperSchema, base) if wrapper else (base,)
    cls = type(base)(
        f'Schema{serial}', bases, {'match': classmethod(match)},
    )
    cls.matched = matched - raising
    cls.wraps = wrapper
    return cls


@check.workload(quick=4000, thorough=80000)
def registries(case):
    rng = case.rng
    cached = rng.random() < 0.6
    kind = core.unmarshal.UnmarshalSchemaRegistry if cached else core.base.SchemaRegistry
    base = core.base.Schema
    registries = [(kind(error=Failure), ModelOrder()) for _ in range(rng.choice((1, 2)))]
    schemas = [make_schema(rng, base, rng.random() < 0.3, i) for i in range(8)]
    history = []
    for _ in range(rng.choice((10, 25))):
        which = rng.randrange(len(registries))
        registry, model = registries[which]
        op = rng.choice(('register', 'match', 'match', 'match'))
        if len(model.values) < 3 and rng.random() < 0.7:
            op = 'register'
        if op == 'register':
            schema = rng.choice(schemas)
            if schema in list(model):
                continue
            priority = rng.choice((0, 0, 1, -1))
            low = [rng.choice(schemas)] if rng.random() < 0.2 else []
            high = [rng.choice(schemas)] if rng.random() < 0.2 else []
            new = model.entry(schema, priority, low, high)
            if schema in (*low, *high) or model.contradictions(new):
                continue
            history.append((which, op, schema.__name__, priority, [s.__name__ for s in low], [s.__name__ for s in high]))
            options = dict(priority=priority, lower_priority=low, higher_priority=high)
            seen = registry.register(schema, **options) if rng.random() < 0.6 else registry.register(**options)(schema)
            case.check(seen is schema, 'registering returns something else')
            model.add(new, False)
            case.check(
                list(registry) == list(model), 'the order is wrong', observed=list(registry), expected=list(model),
            )
            continue
        number = rng.randrange(6)
        value = [number] if rng.random() < 0.2 else number
        history.append((which, op, value))
        case.note(
            history=history, cached=cached, order=[s.__name__ for s in model],
            schemas={s.__name__: (sorted(s.matched), s.wraps) for s in schemas},
        )
        case.event('matches')
        seen = observe(registry.match, value)
        expected = []
        for schema in model:
            if number in schema.matched:
                expected.append(schema)
                if not schema.wraps:
                    break
        else:
            case.event('no match')
            case.check(
                isinstance(seen.error, Failure), 'no schema matches, but no error', observed=repr(seen),
            )
            continue
        case.check(
            seen.error is None and list(seen.value) == expected,
            'other schemas are matched', observed=repr(seen), expected=expected,
        )
        if len(expected) > 1:
            case.event('wrapped matches')
        built = seen.value.build(value)
        chain = [built]
        while isinstance(chain[-1], core.base.WrapperSchema):
            case.check(chain[-1].schema is chain[-1].schema, 'the wrapped schema is built twice')
            chain.append(chain[-1].schema)
        case.check(
            [type(schema) for schema in chain] == expected
            and all(schema.value is value for schema in chain)
            and (len(chain) == 1 or built.inner_schema is chain[-1]),
            'the schemas are not built in the order of the match', observed=chain,
        )
    case.distinct(repr(history))


@check.workload(quick=3000, thorough=60000)
def custom(case):
    """The schemas of users, while they are in use."""
    rng = case.rng
    types = [type(f'Custom{i}', (), {'__init__': lambda self, data: setattr(self, 'data', data)}) for i in range(3)]
    registries = {
        'unmarshal': marsh.schema.UnmarshalSchema.registry,
        'marshal': marsh.schema.MarshalSchema.registry,
    }
    before = {key: list(registry) for key, registry in registries.items()}
    registered = {'unmarshal': [], 'marshal': []}
    history = []
    serial = 0
    try:
        for _ in range(rng.choice((6, 15))):
            side = rng.choice(('unmarshal', 'unmarshal', 'marshal'))
            if rng.random() < 0.3 or not registered[side]:
                serial += 1
                matched = {t for t in types if rng.random() < 0.6} or {types[0]}
                wraps = rng.random() < 0.25
                schema = custom_schema(side, matched, wraps, f's{serial}')
                priority = rng.choice((20, 25, 30, 30))
                options = {}
                if registered[side] and rng.random() < 0.4:
                    other = rng.choice(registered[side])
                    key = rng.choice(('lower_priority', 'higher_priority'))
                    options[key] = [other] if rng.random() < 0.5 else other
                history.append((side, schema.__name__, sorted(t.__name__ for t in matched), wraps, priority, {
                    k: v[0].__name__ if isinstance(v, list) else v.__name__ for k, v in options.items()
                }))
                case.note(history=history)
                if rng.random() < 0.5:
                    seen = marsh.schema.register(schema, priority=priority, **options)
                else:
                    seen = marsh.schema.register(priority=priority, **options)(schema)
                case.check(seen is schema, 'registering returns something else')
                registered[side].append(schema)
                order = list(registries[side])
                for key, other in options.items():
                    other = other[0] if isinstance(other, list) else other
                    case.check(
                        (order.index(schema) < order.index(other)) == (key == 'lower_priority'),
                        'the relative priority is ignored', observed=order,
                    )
                case.check(
                    [s for s in order if s not in registered[side]] == before[side],
                    'other schemas are moved or lost',
                )
                if len(registered[side]) > 1:
                    case.event('other winner')
                continue
            use_custom(case, rng, side, registries, registered, types, history)
    finally:
        for key, registry in registries.items():
            for i in reversed(range(len(registry.priority))):
                if registry.priority[i] in registered[key]:
                    del registry.priority[i]
        marsh.schema.UnmarshalSchema.cache_clear()
    for key, registry in registries.items():
        case.check(list(registry) == before[key], 'removing schemas changes the order of others')
    case.distinct(repr(history))


def custom_schema(side, matched, wraps, name):
    if side == 'unmarshal':
        base = core.unmarshal.WrapperUnmarshalSchema if wraps else marsh.schema.UnmarshalSchema

        class Schema(base):

            @classmethod
            def match(cls, value):
                return value in matched

            def unmarshal(self, element):
                if wraps:
                    value = self.schema.unmarshal(element)
                    value.data = (name, value.data)
                    return value
                if marsh.utils.is_missing(element):
                    if self.has_default():
                        return self.get_default()
                    raise marsh.errors.MissingValueError
                if element == 'bad':
                    raise marsh.errors.UnmarshalError('bad', element=element, type=self.value)
                return self.value((name, element))
    else:
        base = core.marshal.WrapperMarshalSchema if wraps else marsh.schema.MarshalSchema

        class Schema(base):

            @classmethod
            def match(cls, value):
                return type(value) in matched

            def marshal(self):
                if wraps:
                    return [name, self.schema.marshal()]
                return [name, self.value.data]

    Schema.__name__ = name
    Schema.matched = matched
    Schema.wraps = wraps
    return Schema


def winners(registry, registered, type_):
    """The user-defined schemas that are responsible for a type."""
    chain = []
    for schema in registry:
        if schema in registered and type_ in schema.matched:
            chain.append(schema)
            if not schema.wraps:
                return chain
    return None


def use_custom(case, rng, side, registries, registered, types, history):
    type_ = rng.choice(types)
    chain = winners(registries[side], registered[side], type_)
    if chain is None:
        return
    case.event('custom types')
    names = [schema.__name__ for schema in chain]
    data = rng.choice((1, 'text'))
    where = rng.choice(('plain', 'list', 'dict', 'optional', 'field', 'tuple'))
    history.append((side, type_.__name__, where, data))
    case.note(history=history, expected=names)
    if side == 'marshal':
        value = type_(data)
        expected = data
        for name in reversed(names):
            expected = [name, expected]
        inner = marsh.marshal(value)
        case.check(inner == expected, 'marshaled by another schema', observed=inner)
        case.check(
            list(marsh.marshal([value])) == [expected]
            and marsh.marshal({'k': (value,)})['k'][0] == expected,
            'marshaled by another schema within other values', observed=marsh.marshal({'k': (value,)}),
        )
        return
    hint = {
        'plain': type_, 'list': typing.List[type_], 'dict': typing.Dict[str, type_],
        'optional': typing.Optional[type_], 'tuple': typing.Tuple[int, type_],
    }.get(where)
    default = type_('default')
    if where == 'field':
        hint = dataclasses.make_dataclass(
            'Holder', [('first', type_), ('second', type_, dataclasses.field(default=default))],
        )
    element, get = {
        'plain': (data, lambda v: v),
        'list': ([data], lambda v: v[0]),
        'dict': ({'k': data}, lambda v: v['k']),
        'optional': (data, lambda v: v),
        'tuple': ([1, data], lambda v: v[1]),
        'field': ({'first': data}, lambda v: v.first),
    }[where]
    value = marsh.unmarshal(hint, element)
    if where == 'field' and len(names) == 1:
        case.check(value.second is default, 'not the default')
    expected = data
    for name in reversed(names):
        expected = (name, expected)
    found = get(value)
    case.check(
        type(found) is type_ and found.data == expected, 'unmarshaled by another schema',
        observed=(type(found), getattr(found, 'data', None)), expected=expected,
    )
    bad = {'plain': 'bad', 'list': ['bad'], 'dict': {'k': 'bad'}, 'tuple': [1, 'bad'], 'field': {'first': 'bad'}}.get(where)
    if bad is not None:
        seen = observe(marsh.unmarshal, hint, bad)
        case.check(
            isinstance(seen.error, marsh.errors.UnmarshalError)
            and seen.error.path == {'plain': '', 'list': '0', 'dict': 'k', 'tuple': '1', 'field': 'first'}[where],
            'the error of a user-defined schema is lost', observed=repr(seen),
        )
    if where == 'field':
        seen = observe(marsh.unmarshal, hint, {})
        case.check(
            isinstance(seen.error, marsh.errors.MissingValueError) and seen.error.path == 'first',
            'a missing value is not an error', observed=repr(seen),
        )
