"""Types that refer to themselves and each other, written as source code."""
import itertools
import sys
import types

from . import specs

_number = itertools.count()


class RefS(specs.Spec):
    """A forward reference."""
    hashable = False

    def __init__(self, name):
        self.name = name
        self.t = specs.typing.ForwardRef(name)
        self.label = f"'{name}'"
        self.target = None

    def un(self, element, default=specs.NO):
        return self.target.un(element, default)

    def conforms(self, value):
        return self.target.conforms(value)


_ABSENT = []


class Recursive:
    """Nothing is made of nothing: a type is not constructed out of a
    missing element while just that is already being done."""

    def un(self, element, default=specs.NO):
        if not specs.missing(element) or default is not specs.NO:
            return super().un(element, default)
        if self in _ABSENT:
            raise specs.Err(missing=True)
        _ABSENT.append(self)
        try:
            return super().un({}, default)
        finally:
            _ABSENT.pop()


class ClassS(Recursive, specs.StructS):
    """A dataclass, named tuple or plain class of the module."""

    def construct(self, values, extra, extra_kw):
        return self.t(**values)

    def conforms(self, value):
        return type(value) is self.t and all(
            f.spec.conforms(getattr(value, f.name))
            or specs._is_default(f, getattr(value, f.name))
            for f in self.fields
        )


class DictS(Recursive, specs.TypedDictS):

    def __init__(self, fields):  # noqa: B042
        self.fields = tuple(fields)


PREAMBLE = '''\
import dataclasses, typing
from dataclasses import dataclass, field
from typing import *
from typing_extensions import TypedDict, NotRequired
'''

LEAVES = (
    ('int', lambda: specs.PrimS(int)),
    ('str', lambda: specs.PrimS(str)),
    ('float', lambda: specs.PrimS(float)),
    ('bool', lambda: specs.PrimS(bool)),
    ('List[int]', lambda: specs.SeqS(specs.PrimS(int), 'List')),
)

# text around a reference, model around a reference, are values of it finite?
FORMS = (
    ('Optional[{}]', lambda r: specs.OptS(r)),
    ('Optional[{}]', lambda r: specs.OptS(r)),
    ('List[{}]', lambda r: specs.SeqS(r, 'List')),
    ('List[{}]', lambda r: specs.SeqS(r, 'List')),
    ('Sequence[{}]', lambda r: specs.SeqS(r, 'Sequence')),
    ('Tuple[{}, ...]', lambda r: specs.SeqS(r, 'Tuple...')),
    ('Deque[{}]', lambda r: specs.SeqS(r, 'Deque')),
    ('Dict[str, {}]', lambda r: specs.MapS(specs.PrimS(str), r, 'Dict')),
    ('Dict[int, {}]', lambda r: specs.MapS(specs.PrimS(int), r, 'Dict')),
    ('Optional[List[{}]]', lambda r: specs.OptS(specs.SeqS(r, 'List'))),
    ('List[Optional[{}]]', lambda r: specs.SeqS(specs.OptS(r), 'List')),
    ('Dict[str, List[{}]]', lambda r: specs.MapS(specs.PrimS(str), specs.SeqS(r, 'List'), 'Dict')),
    ('Union[int, {}]', lambda r: specs.UnionS([specs.PrimS(int), r])),
    ('Union[{}, str]', lambda r: specs.UnionS([r, specs.PrimS(str)])),
    ('Union[List[{}], int]', lambda r: specs.UnionS([specs.SeqS(r, 'List'), specs.PrimS(int)])),
)

KINDS = ('dataclass', 'dataclass', 'class', 'namedtuple', 'typeddict')


class Module:
    """Between one and four classes that refer to each other."""

    def __init__(self, rng, local=False, other=None, kinds=KINDS):
        self.rng = rng
        self.local = local
        # forward references of local classes are only resolved if
        # they are not part of a larger string
        self.future = not local and rng.random() < 0.4
        self.name = f'mon_recursive_{next(_number)}'
        self.other = other
        self.lines = []
        self.refs = []
        self.specs = {}
        n = 1 if local else rng.choice((1, 2, 2, 3, 4))
        prefix = rng.choice(('Node', 'K', 'Item'))
        self.classes = [f'{prefix}{i}' for i in range(n)] if n > 1 else [prefix]
        for i, name in enumerate(self.classes):
            kind = rng.choice(kinds)
            if local:
                kind = rng.choice(('dataclass', 'dataclass', 'class'))
            self.declare(i, name, kind)
        for ref in self.refs:
            if ref.target is None:
                ref.target = self.specs[ref.name]

    def reference(self, i, direct):
        """Text of an annotation together with its model."""
        rng = self.rng
        if direct:
            name = rng.choice(self.classes[i + 1:])
            text, make = '{}', lambda r: r
        else:
            name = rng.choice(self.classes)
            text, make = rng.choice(FORMS)
        other = self.other is not None and rng.random() < 0.4
        if other:
            name = rng.choice(self.other.classes)
        ref = RefS(name)
        self.refs.append(ref)
        if other:
            ref.target = self.other.specs[name]
            name = f'{self.other.name}.{name}'
        specs.fresh()
        model = make(ref)
        model.recursive = True
        if self.future:
            return text.format(name), model
        if self.local or rng.random() < 0.6:
            if direct and self.local:
                return None
            return text.format(repr(name)), model
        return repr(text.format(name)), model

    def declare(self, i, name, kind):
        rng = self.rng
        members = []
        names = rng.sample(('v', 'w', 'left', 'right', 'next', 'kids', 'by_name'), rng.choice((1, 2, 3, 4)))
        for n, member in enumerate(names):
            if n and rng.random() < 0.4:
                text, make = rng.choice(LEAVES)
                members.append((member, text, make()))
            else:
                direct = (
                    i + 1 < len(self.classes) and rng.random() < 0.15
                )
                text, model = self.reference(i, direct)
                members.append((member, text, model))
        rng.shuffle(members)
        fields = [specs.Field(n, s) for n, _, s in members]
        seen = False
        texts = []
        for f, (member, text, model) in zip(fields, members):
            default = ''
            if kind == 'typeddict':
                if rng.random() < 0.4:
                    f.default = specs.ABSENT
                    text = f'NotRequired[{text}]'
                    if self.future or rng.random() < 0.5:
                        pass
            elif seen or rng.random() < 0.2:
                seen = True
                f.default = None
                default = ' = None'
            texts.append((member, text, default))
        pad = '    '
        if kind == 'dataclass':
            self.lines.append(f'@dataclass\nclass {name}:')
        elif kind == 'namedtuple':
            self.lines.append(f'class {name}(NamedTuple):')
        elif kind == 'typeddict':
            self.lines.append(f'class {name}(TypedDict):')
        else:
            self.lines.append(f'class {name}:')
        if kind == 'class':
            arguments = ', '.join(f'{m}: {t}{d}' for m, t, d in texts)
            self.lines.append(f'{pad}def __init__(self, {arguments}):')
            values = ', '.join(f'{m!r}: {m}' for m, _, _ in texts)
            self.lines.append(f'{pad * 2}self.__dict__.update({{{values}}})')
            self.lines.append(f'{pad * 2}self._observed = {{{values}}}')
        else:
            for m, t, d in texts:
                self.lines.append(f'{pad}{m}: {t}{d}')
        spec = DictS(fields) if kind == 'typeddict' else ClassS()
        spec.fields = tuple(fields)
        spec.label = name
        spec.kind = kind
        self.specs[name] = spec

    @property
    def text(self):
        text = PREAMBLE
        if self.other is not None:
            text += f'import {self.other.name}\n'
        if self.future:
            text = 'from __future__ import annotations\n' + text
        body = '\n'.join(self.lines)
        if self.local:
            body = 'def make():\n' + '\n'.join(
                f'    {line}' for line in body.split('\n')
            ) + f'\n    return {self.classes[0]}'
        return text + body + '\n'

    def build(self):
        module = types.ModuleType(self.name)
        sys.modules[self.name] = module
        exec(compile(self.text, f'<{self.name}>', 'exec'), module.__dict__)
        self.module = module
        for name, spec in self.specs.items():
            spec.t = module.make() if self.local else getattr(module, name)
        return self

    def forget(self):
        sys.modules.pop(self.name, None)


def element(rng, spec, depth):
    """An accepted element of limited depth."""
    if isinstance(spec, RefS):
        return element(rng, spec.target, depth)
    if isinstance(spec, specs.TupleS):
        return [element(rng, f.spec, depth) for f in spec.fields]
    if isinstance(spec, specs.StructS):
        fields = [f for f in spec.fields]
        if spec.kind != 'typeddict' and rng.random() < 0.15:
            items = []
            for f in fields:
                if f.has_default() and rng.random() < 0.5:
                    break
                items.append(element(rng, f.spec, depth - 1))
            return items
        out = {}
        for f in fields:
            if f.has_default() and (depth <= 0 or rng.random() < 0.3):
                continue
            out[f.name] = element(rng, f.spec, depth - 1)
        return out
    if isinstance(spec, specs.OptS):
        if depth <= 0 or rng.random() < 0.25:
            return None
        return element(rng, spec.inner, depth)
    if isinstance(spec, specs.SeqS):
        if not getattr(spec, 'recursive', False) and isinstance(spec.inner, specs.PrimS):
            return spec.element(rng)
        n = 0 if depth <= 0 else rng.choice((0, 1, 1, 2))
        return [element(rng, spec.inner, depth - 1) for _ in range(n)]
    if isinstance(spec, specs.MapS):
        n = 0 if depth <= 0 else rng.choice((0, 1, 2))
        keys = rng.sample(('1', '2', '30'), n)
        return {k: element(rng, spec.inner, depth - 1) for k in keys}
    if isinstance(spec, specs.UnionS):
        arms = spec.arms
        if depth <= 0:
            arms = [a for a in arms if not isinstance(a, RefS)]
        return element(rng, rng.choice(list(arms)), depth)
    return spec.element(rng)
