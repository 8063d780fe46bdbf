"""Generic containers of the user, with a model of what they contain.

The content of a class is kept as an expression over its own type
parameters; every derived class substitutes the parameters of its base."""
import collections
import collections.abc
import types
import typing
from typing import (
    DefaultDict, Deque, Dict, Generic, List, Mapping, MutableMapping,
    MutableSequence, Optional, OrderedDict, Sequence, Set, TypeVar,
)

from . import specs

_serial = iter(range(10 ** 9))


# -- expressions over type parameters -------------------------------------------

class Var:
    """A type parameter, that may have a bound or constraints."""

    def __init__(self, name, arms=None):
        self.spec = None
        if arms is None:
            self.t = TypeVar(name)
        else:
            self.spec = specs.TypeVarS(name, arms)
            self.t = self.spec.t

    def variables(self):
        return (self,)

    def put(self, env):
        return env[self]

    def hint(self):
        return self.t

    def __repr__(self):
        return self.t.__name__


class Fixed:
    """A type without type parameters."""

    def __init__(self, spec):
        self.spec = spec

    def variables(self):
        return ()

    def put(self, env):
        return self

    def hint(self):
        return self.spec.t

    def __repr__(self):
        return self.spec.label


class Of:
    """A container of other expressions."""

    FORMS = {
        'List': (lambda x: List[x], lambda s: specs.SeqS(s, 'List')),
        'list': (lambda x: list[x], lambda s: specs.SeqS(s, 'list')),
        'Sequence': (lambda x: Sequence[x], lambda s: specs.SeqS(s, 'Sequence')),
        'Deque': (lambda x: Deque[x], lambda s: specs.SeqS(s, 'Deque')),
        'Dict': (lambda x: Dict[str, x], lambda s: specs.MapS(specs.PrimS(str), s, 'Dict')),
        'Optional': (lambda x: Optional[x], lambda s: specs.OptS(s)),
        'Tuple': (lambda x: typing.Tuple[x, int], lambda s: specs.TupleS([s, specs.PrimS(int)])),
    }

    def __init__(self, form, inner):
        self.form = form
        self.inner = inner

    def variables(self):
        return self.inner.variables()

    def put(self, env):
        inner = self.inner.put(env)
        if isinstance(inner, Fixed):
            return Fixed(self.FORMS[self.form][1](inner.spec))
        return Of(self.form, inner)

    def hint(self):
        return self.FORMS[self.form][0](self.inner.hint())

    def __repr__(self):
        return f'{self.form}[{self.inner!r}]'


# -- roots: what is derived from ---------------------------------------------------

class Items:
    """What containers that inherit no implementation consist of."""

    def __init__(self, items=()):
        self._items = list(items)

    def __getitem__(self, index):
        return self._items[index]

    def __len__(self):
        return len(self._items)

    @property
    def _observed(self):
        return self._items

    def __repr__(self):
        return f'{type(self).__name__}({self._items!r})'


class Changeable(Items):

    def __setitem__(self, index, value):
        self._items[index] = value

    def __delitem__(self, index):
        del self._items[index]

    def insert(self, index, value):
        self._items.insert(index, value)


class Contains(Items):

    def __contains__(self, item):
        return item in self._items


class Data:

    def __init__(self, data=()):
        self._data = dict(data)

    def __getitem__(self, key):
        return self._data[key]

    def __len__(self):
        return len(self._data)

    def __iter__(self):
        return iter(self._data)

    @property
    def _observed(self):
        return self._data

    def __repr__(self):
        return f'{type(self).__name__}({self._data!r})'


class ChangeableData(Data):

    def __setitem__(self, key, value):
        self._data[key] = value

    def __delitem__(self, key):
        del self._data[key]


class LooksLikeMapping(Data):

    def __contains__(self, key):
        return key in self._data

    def get(self, key, default=None):
        return self._data.get(key, default)

    def items(self):
        return self._data.items()

    def keys(self):
        return self._data.keys()

    def values(self):
        return self._data.values()


class Root:
    """Something generic of python that containers are derived from."""

    def __init__(self, name, base, mixin=None, mapping=False, duck=False):
        self.name = name
        self.base = base
        self.mixin = mixin
        self.mapping = mapping
        self.duck = duck


ROOTS = [
    Root('List', List),
    Root('list', list),
    Root('Deque', Deque),
    Root('UserList', collections.UserList),
    Root('Set', Set),
    Root('set', set),
    Root('Sequence', Sequence, Items),
    Root('abc.Sequence', collections.abc.Sequence, Items),
    Root('MutableSequence', MutableSequence, Changeable),
    Root('like a sequence', Generic, Contains, duck=True),
    Root('Dict', Dict, mapping=True),
    Root('dict', dict, mapping=True),
    Root('OrderedDict', OrderedDict, mapping=True),
    Root('DefaultDict', DefaultDict, mapping=True),
    Root('UserDict', collections.UserDict, mapping=True),
    Root('Mapping', Mapping, Data, mapping=True),
    Root('abc.Mapping', collections.abc.Mapping, Data, mapping=True),
    Root('MutableMapping', MutableMapping, ChangeableData, mapping=True),
    Root('like a mapping', Generic, LooksLikeMapping, mapping=True, duck=True),
]


class Mixin:
    pass


class Doubled:
    """Unrelated methods."""

    def doubled(self):
        return [*self, *self]


class Made:
    """A class and what it contains, in terms of its own parameters."""

    def __init__(self, cls, parameters, content, root, text):
        self.cls = cls
        self.parameters = parameters
        self.content = content
        self.root = root
        self.text = text


def distinct(items):
    return list(dict.fromkeys(items))


def new_class(name, bases):
    return types.new_class(name, tuple(bases), {}, lambda ns: ns.update(__module__=__name__))


def gen_inner(rng, depth):
    while True:
        spec = specs.gen_spec(rng, rng.choice((0, 0, depth)))
        # would become a parameter of the class
        if not any(isinstance(s, specs.TypeVarS) for s in spec.walk()):
            return spec


def gen_expression(rng, depth, fresh, key=False):
    """`fresh` gives another type parameter or one that exists."""
    roll = rng.random()
    if roll < 0.5:
        return fresh()
    if key:
        return Fixed(specs.gen_key(rng))
    if roll < 0.75:
        return Of(rng.choice(list(Of.FORMS)), fresh())
    return Fixed(gen_inner(rng, depth))


def gen_bounds(rng, key):
    """What stands for a type parameter that is not given."""
    if key:
        return [specs.gen_key(rng)]
    arms = []
    for _ in range(rng.choice((1, 1, 2, 3))):
        arm = gen_inner(rng, 1)
        if not isinstance(arm, (specs.NoneS, specs.UnionS, specs.OptS)) and all(arm.t != a.t for a in arms):
            arms.append(arm)
    return arms or [specs.PrimS(int)]


def variables_of(rng, bounded=None):
    """`bounded` tells whether all have bounds, and whether these are keys."""
    made = []

    def fresh():
        if made and rng.random() < 0.25:
            return rng.choice(made)
        name = rng.choice('TKVSU') + str(len(made))
        if bounded is None:
            made.append(Var(name, gen_bounds(rng, rng.random() < 0.5) if rng.random() < 0.15 else None))
        else:
            made.append(Var(name, gen_bounds(rng, bounded == 'keys')))
        return made[-1]
    return fresh


def derive(rng, base, arguments, mixin, root, content, duck=False):
    """A class that is derived from base[arguments]."""
    name = f'{root.name.title().replace(" ", "").replace(".", "")}{next(_serial)}'
    used = distinct(v for a in arguments for v in a.variables())
    hints = tuple(a.hint() for a in arguments)
    if duck:
        # the parameters of the class are its content
        parameters = used
        bases = [Generic[hints]] if hints else []
        explicit = True
    else:
        bases = [base[hints if len(hints) > 1 else hints[0]] if hints else base]
        parameters = used
        explicit = False
        roll = rng.random()
        # without Generic[] the order is that of the first appearance
        if parameters and roll < 0.45:
            parameters = list(parameters)
            rng.shuffle(parameters)
            explicit = True
        if roll < 0.2:
            # more parameters than the container has
            parameters = [*parameters]
            parameters.insert(rng.randrange(len(parameters) + 1), Var('X'))
            explicit = True
        if explicit and parameters:
            generic = Generic[tuple(p.t for p in parameters)]
            bases.append(generic)
    if mixin is not None:
        bases.insert(0, mixin)
    elif rng.random() < 0.2:
        extra = rng.choice((Mixin, Doubled))
        if not any(issubclass(getattr(b, '__origin__', b), extra) for b in bases):
            bases.insert(0, extra)
    cls = new_class(name, bases)
    text = f'{name}({", ".join(str(b).replace("typing.", "") for b in bases)})'
    return Made(cls, list(parameters), content, root, text)


def derive_bare(rng, made):
    name = f'Bare{next(_serial)}'
    bases = [made.cls]
    if rng.random() < 0.3 and not issubclass(made.cls, Mixin):
        bases.insert(0, Mixin)
    return Made(new_class(name, bases), [], bounds_of(made), made.root, f'{name}({made.cls.__name__})')


def bounds_of(made):
    env = {
        p: Fixed(p.spec or specs.AnyS()) for p in distinct(v for c in made.content for v in c.variables())
    }
    return [c.put(env) for c in made.content]


def gen_made(rng, depth, levels, roots=ROOTS, bounded=False):
    root = rng.choice(roots)
    if bounded:
        bounded = 'keys' if root.mapping else 'items'
    else:
        bounded = None
    fresh = variables_of(rng, bounded)
    if root.duck:
        content = [fresh()]
        if root.mapping:
            other = fresh()
            while other in content:
                other = fresh()
            content.append(other)
    else:
        content = [gen_expression(rng, depth, fresh, key=root.mapping)]
        if root.mapping:
            content.append(gen_expression(rng, depth, fresh))
    made = derive(rng, root.base, content, root.mixin, root, content, duck=root.duck)
    texts = [made.text]
    for _ in range(levels):
        if bounded and rng.random() < 0.2:
            # derived without arguments
            made = derive_bare(rng, made)
            texts.append(made.text)
            continue
        fresh = variables_of(rng, bounded)
        arguments = [
            gen_expression(rng, depth, fresh, key=root.mapping and any(
                # this parameter is (part of) the key
                v is p for v in made.content[0].variables()
            ))
            for p in made.parameters
        ]
        env = dict(zip(made.parameters, arguments))
        content = [c.put(env) for c in made.content]
        made = derive(rng, made.cls, arguments, None, root, content)
        texts.append(made.text)
    made.text = '; '.join(texts)
    return made


def gen_container(rng, depth=1, levels=None, roots=ROOTS):
    """A spec of a container class of the user."""
    while True:
        made = gen_made(
            rng, depth, rng.choice((0, 1, 1, 2, 3)) if levels is None else levels, roots,
        )
        # classes that only look like containers are constructed with
        # arguments unless their content is given
        if made.parameters or not made.root.duck:
            break
    return bind(rng, made, depth)


BARE_ROOTS = [root for root in ROOTS if not root.duck]


def gen_bare(rng, depth=1):
    """A class that is used without its type parameters, all of which have a
    bound or constraints, and the same class with arguments."""
    made = gen_made(rng, depth, rng.choice((0, 0, 1, 2, 3)), BARE_ROOTS, bounded=True)
    kind = UserMapS if made.root.mapping else UserSeqS
    spec = kind(made, made.cls, [c.spec for c in bounds_of(made)], [])
    spec.label = f'bare {spec.label}'
    return spec, bind(rng, made, depth)


def bind(rng, made, depth):
    """The class with random arguments for its parameters."""
    keys = set(made.content[0].variables()) if made.root.mapping else ()
    arguments = [
        Fixed(specs.gen_key(rng) if p in keys else gen_inner(rng, depth))
        for p in made.parameters
    ]
    env = dict(zip(made.parameters, arguments))
    content = [c.put(env).spec for c in made.content]
    t = made.cls
    if arguments:
        t = t[tuple(a.hint() for a in arguments)]
    kind = UserMapS if made.root.mapping else UserSeqS
    return kind(made, t, content, [repr(a) for a in arguments])


class UserS:

    def describe(self, made, t, arguments):
        self.made = made
        self.t = t
        self.root = made.root
        self.label = f'{made.cls.__name__}[{", ".join(arguments)}] of {made.text}'
        self.kind = made.cls


class UserSeqS(UserS, specs.SeqS):

    def __init__(self, made, t, content, arguments):
        self.describe(made, t, arguments)
        self.inner, = content
        self.lossless = self.inner.lossless
        self.hashable = False
        self.form = made.root.name

    def value(self, rng):
        try:
            return super().value(rng)
        except TypeError:
            # a set of what has no hash
            raise specs.Unknown from None

    def conforms(self, value):
        return type(value) is self.kind and all(
            map(self.inner.conforms, getattr(value, '_observed', value)),
        )


class UserMapS(UserS, specs.MapS):

    def __init__(self, made, t, content, arguments):
        self.describe(made, t, arguments)
        self.key, self.inner = content
        self.lossless = self.key.lossless and self.inner.lossless
        self.form = made.root.name

    def make(self, data):
        if issubclass(self.kind, collections.defaultdict):
            return self.kind(None, data)
        return self.kind(data)

    def conforms(self, value):
        return type(value) is self.kind and all(
            self.key.conforms(k) and self.inner.conforms(value[k])
            for k in value
        )
