"""Schemas of the user that are built on the templates, with their models.

Every type that is drawn is a new class; what a schema needs to know about it
is looked up in `PLANS`."""
import contextlib
import inspect

import marsh

from . import recursive, refmarshal, specs

template = marsh.schema.template
PLANS = {}
CALLS = []


class Made:
    """What the schemas of the user construct."""

    def __init__(self, *args, **kwargs):
        CALLS.append(type(self))
        self._observed = PLANS[type(self)].normal(args, kwargs)


class Refused(Exception):
    pass


class Own(marsh.errors.UnmarshalError):
    pass


class OwnS(specs.Spec):
    hashable = False
    lossless = False
    serial = 0

    def start(self, rng, prefix):
        OwnS.serial += 1
        self.label = f'{prefix}{OwnS.serial % 1000}'
        self.t = type(self.label, (Made,), {'__doc__': None, '__module__': __name__})
        PLANS[self.t] = self
        self.limit = rng.choice((None, None, None, 2))
        # classes may refuse to be empty
        self.least = rng.choice((0, 0, 0, 0, 1))
        self.error = rng.choice((Refused, ValueError, TypeError, Own))

    def __repr__(self):
        return f'{self.label}({", ".join(map(repr, self.children()))})'

    def make(self, *args, **kwargs):
        return self.t(*args, **kwargs)

    def conforms(self, value):
        return type(value) is self.t

    def content(self, value):
        return value._observed

    def raw(self, rng):
        """Construct without limits."""
        value = self.t.__new__(self.t)
        value._observed = self.sample(rng)
        return value

    def value(self, rng):
        return self.raw(rng)


class OwnSeqS(OwnS):

    def __init__(self, rng, inner):
        self.inner = inner
        self.start(rng, 'OwnSeq')

    def children(self):
        return (self.inner,)

    def normal(self, args, kwargs):
        (items,) = args
        if kwargs or (self.limit is not None and len(items) > self.limit):
            raise self.error('too many')
        if len(items) < self.least:
            raise self.error('too few')
        return list(items)

    def absent(self):
        if self.least:
            raise specs.Err()
        return self.make([])

    def read(self, element):
        if not specs.is_seq(element):
            raise specs.Err()
        items = []
        for i, item in enumerate(element):
            with specs.at(i):
                items.append(self.inner.un(item))
        if self.limit is not None and len(items) > self.limit or len(items) < self.least:
            raise specs.Err()
        return self.make(items)

    def sample(self, rng):
        return [self.inner.value(rng) for _ in range(rng.choice((0, 1, 2)))]

    def element(self, rng):
        return rng.choice((list, tuple))(self.inner.element(rng) for _ in range(rng.choice((0, 1, 2, 2, 3))))


class OwnMapS(OwnS):

    def __init__(self, rng, key, inner):
        self.key = key
        self.inner = inner
        self.start(rng, 'OwnMap')

    def children(self):
        return (self.key, self.inner)

    def normal(self, args, kwargs):
        (data,) = args
        if kwargs or (self.limit is not None and len(data) > self.limit):
            raise self.error('too many')
        if len(data) < self.least:
            raise self.error('too few')
        return dict(data)

    def absent(self):
        if self.least:
            raise specs.Err()
        return self.make({})

    def read(self, element):
        if not specs.is_map(element):
            raise specs.Err()
        out = {}
        for key in element:
            with specs.at(key):
                k = self.key.un(key)
                out[k] = self.inner.un(element[key])
        if self.limit is not None and len(out) > self.limit or len(out) < self.least:
            raise specs.Err()
        return self.make(out)

    def sample(self, rng):
        return dict(specs.MapS(self.key, self.inner, 'dict').value(rng))

    def element(self, rng):
        return specs.MapS(self.key, self.inner, 'dict').element(rng)


class OwnStructS(recursive.Recursive, OwnS, specs.StructS):

    def __init__(self, rng, fields):
        self.fields = fields
        self.start(rng, 'OwnStruct')
        self.error = Own

    def __repr__(self):
        return self.describe()

    def normal(self, args, kwargs):
        names = [f.name for f in self.fields if f.kind in ('pos', 'pk')]
        only = [f.name for f in self.fields if f.kind == 'kw']
        place = {f.kind: f for f in self.fields}
        values = dict(zip(names, args))
        extra = list(args[len(names):])
        extra_kw = {}
        for name, value in kwargs.items():
            known = name in only or (name in names and name not in values)
            if known and next(f for f in self.fields if f.name == name).kind != 'pos':
                values[name] = value
            elif '**' in place:
                extra_kw[name] = value
            else:
                raise TypeError(f'unknown {name}')
        if extra and '*' not in place or set(values) != {*names, *only}:
            raise TypeError('arguments')
        if self.limit is not None and len(extra) + len(extra_kw) > self.limit - 2:
            raise self.error('too many')
        return [{name: values[name] for name in [*names, *only]}, extra, extra_kw]

    def construct(self, values, extra, extra_kw):
        if self.limit is not None and len(extra) + len(extra_kw) > self.limit - 2:
            raise specs.Err()
        value = self.t.__new__(self.t)
        names = [f.name for f in self.fields if f.kind in ('pos', 'pk')]
        only = [f.name for f in self.fields if f.kind == 'kw']
        value._observed = [{name: values[name] for name in [*names, *only]}, extra, extra_kw]
        return value

    def sample(self, rng):
        values = {f.name: f.spec.value(rng) for f in self.fields if f.kind not in ('*', '**')}
        names = [f.name for f in self.fields if f.kind in ('pos', 'pk')]
        only = [f.name for f in self.fields if f.kind == 'kw']
        return [{name: values[name] for name in [*names, *only]}, [], {}]


class OwnCallS(OwnStructS):
    """The schema has the parameters of a function, the value is made by the
    schema."""

    def __init__(self, rng, fields):
        super().__init__(rng, fields)
        kinds = {
            'pos': inspect.Parameter.POSITIONAL_ONLY,
            'pk': inspect.Parameter.POSITIONAL_OR_KEYWORD,
            'kw': inspect.Parameter.KEYWORD_ONLY,
            '*': inspect.Parameter.VAR_POSITIONAL,
            '**': inspect.Parameter.VAR_KEYWORD,
        }
        for field in fields:
            if field.factory is not None:
                field.default, field.factory = field.factory(), None
        parameters = [
            inspect.Parameter(
                f.name, kinds[f.kind], annotation=f.spec.t,
                default=inspect.Parameter.empty if f.default is specs.NO else f.default,
            )
            for f in fields
        ]
        self.t.__signature__ = inspect.Signature(parameters)


class OwnUnionS(OwnS):

    def __init__(self, rng, arms):
        self.arms = arms
        self.start(rng, 'OwnUnion')

    def children(self):
        return tuple(self.arms)

    def un(self, element, default=specs.NO):
        if specs.missing(element) and default is not specs.NO:
            return default()
        for arm in self.arms:
            try:
                return arm.un(element)
            except specs.Err:
                pass
        raise specs.Err(missing=specs.missing(element))

    def conforms(self, value):
        return any(arm.conforms(value) for arm in self.arms)

    def value(self, rng):
        return rng.choice(self.arms).value(rng)

    def element(self, rng):
        return rng.choice(self.arms).element(rng)


class OwnPlainS(OwnS):
    """A schema without template, that unmarshals into another type."""

    def __init__(self, rng, inner):
        self.inner = inner
        self.start(rng, 'OwnPlain')

    def children(self):
        return (self.inner,)

    def normal(self, args, kwargs):
        (value,) = args
        return [value]

    def read(self, element):
        return self.make(self.inner.un(element))

    def sample(self, rng):
        return [self.inner.value(rng)]

    def element(self, rng):
        return self.inner.element(rng)


# -- the schemas ---------------------------------------------------------------

def plan(value, kind):
    try:
        return type(PLANS.get(value)) is kind
    except TypeError:
        return False


def default_of(field):
    if field.factory is not None:
        return {'default_factory': field.factory}
    if field.default is not specs.NO:
        return {'default': field.default}
    return {}


@marsh.schema.register
class OwnSeqSchema(template.SequenceUnmarshalSchema):

    @classmethod
    def match(cls, value):
        return plan(value, OwnSeqS)

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.value_schema = marsh.schema.UnmarshalSchema(PLANS[self.value].inner.t)


@marsh.schema.register
class OwnMapSchema(template.MappingUnmarshalSchema):

    @classmethod
    def match(cls, value):
        return plan(value, OwnMapS)

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.key_schema = marsh.schema.UnmarshalSchema(PLANS[self.value].key.t)
        self.value_schema = marsh.schema.UnmarshalSchema(PLANS[self.value].inner.t)


@marsh.schema.register
class OwnStructSchema(template.StructuredUnmarshalSchema):

    @classmethod
    def match(cls, value):
        return plan(value, OwnStructS)

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        fields = PLANS[self.value].fields
        self.schemas = {
            (f.kind if f.kind in ('*', '**') else '') + f.name: marsh.schema.UnmarshalSchema(f.spec.t, **default_of(f))
            for f in fields
        }
        self.positional = [f.name for f in fields if f.kind == 'pos']
        self.keyword_only = [f.name for f in fields if f.kind == 'kw']


@marsh.schema.register(priority=30)
class OwnCallSchema(template.CallableUnmarshalSchema):

    @classmethod
    def match(cls, value):
        return plan(value, OwnCallS)

    def construct(self, /, *args, **kwargs):
        return self.value(*args, **kwargs)


@marsh.schema.register
class OwnUnionSchema(template.UnionUnmarshalSchema):

    @classmethod
    def match(cls, value):
        return plan(value, OwnUnionS)

    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.schemas = [marsh.schema.UnmarshalSchema(arm.t) for arm in PLANS[self.value].arms]


@marsh.schema.register
class OwnPlainSchema(marsh.schema.UnmarshalSchema):

    @classmethod
    def match(cls, value):
        return plan(value, OwnPlainS)

    def unmarshal(self, element):
        if marsh.utils.is_missing(element):
            if self.has_default():
                return self.get_default()
            raise marsh.errors.MissingValueError
        return self.value(marsh.unmarshal(PLANS[self.value].inner.t, element))


@marsh.schema.register
class OwnMarshalSchema(marsh.schema.MarshalSchema):

    @classmethod
    def match(cls, value):
        return isinstance(value, Made)

    def marshal(self):
        return {'own': marsh.marshal(self.value._observed)}


refmarshal.OWN.append((Made, lambda value: {'own': refmarshal.marshal(value._observed)}))


# -- drawing ---------------------------------------------------------------------

_gen_spec = specs.gen_spec


def own(rng, depth):
    roll = rng.randrange(9)

    def child():
        return specs.gen_spec(rng, depth - 1)

    if roll < 2:
        return OwnSeqS(rng, child())
    if roll < 4:
        return OwnMapS(rng, specs.gen_key(rng), child())
    if roll < 6:
        fields = specs.gen_params(rng, depth)
        if rng.random() < 0.3:
            fields = [specs.Field(f'f{i}', child()) for i in range(rng.choice((1, 2)))]
        return OwnStructS(rng, fields)
    if roll == 6:
        return OwnCallS(rng, specs.gen_params(rng, depth))
    if roll == 7:
        return OwnUnionS(rng, [child() for _ in range(rng.choice((1, 2, 3)))])
    return OwnPlainS(rng, child())


def _draw(rng, depth=2, union=True):
    if depth > 0 and rng.random() < 0.4:
        return own(rng, depth)
    return _gen_spec(rng, depth, union)


@contextlib.contextmanager
def everywhere():
    """Types of the user are drawn wherever types are drawn."""
    specs.gen_spec = _draw
    try:
        yield
    finally:
        specs.gen_spec = _gen_spec


def forget():
    PLANS.clear()




# wrappers of the user; whether they match is up to the case
WRAPPING = {}
LEAVES = {}
ORDER = ('w40', 'w35', 'w30', 'v30', 'never')


class Tagged:
    """What a wrapper of the user makes of a value."""

    def __init__(self, tag, value):
        self._observed = (tag, value)


def _wrapper(name, priority):

    class Wrapper(marsh.schema.core.unmarshal.WrapperUnmarshalSchema):

        @classmethod
        def match(cls, value):
            return any(value is t for t in WRAPPING.get(name, ()))

        def unmarshal(self, element):
            CALLS.append(name)
            return Tagged(name, super().unmarshal(element))

    class MarshalWrapper(marsh.schema.core.marshal.WrapperMarshalSchema):

        @classmethod
        def match(cls, value):
            return any(type(value) is t for t in WRAPPING.get('marshal ' + name, ()))

        def marshal(self):
            return [name, super().marshal()]

    Wrapper.__name__ = name
    marsh.schema.register(Wrapper, priority=priority)
    marsh.schema.register(MarshalWrapper, priority=priority)


# of equal priority, the last one comes first
for _name, _priority in (('never', -50), ('v30', 30), ('w30', 30), ('w40', 40), ('w35', 35)):
    _wrapper(_name, _priority)


@marsh.schema.register(priority=50)
class ByValue(marsh.schema.MarshalSchema):
    """Matches some of the values of a type."""

    @classmethod
    def match(cls, value):
        limit = LEAVES.get(type(value))
        return limit is not None and value >= limit

    def marshal(self):
        return f'large {self.value}'
