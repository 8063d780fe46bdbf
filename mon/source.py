"""Python source of structured types, and what python itself says of them.

The types are declared the way users declare them: in source code.  Their
parameters are taken from `inspect.signature`, python is the reference."""
import dataclasses
import inspect
import itertools
import sys
import types
import typing

from . import specs

_number = itertools.count()

# text of an annotation -> reference model
def _plain():
    S = specs
    return {
        'int': S.PrimS(int),
        'str': S.PrimS(str),
        'float': S.PrimS(float),
        'bool': S.PrimS(bool),
        'List[int]': S.SeqS(S.PrimS(int), 'List'),
        'list[str]': S.SeqS(S.PrimS(str), 'list'),
        'Optional[int]': S.OptS(S.PrimS(int)),
        'Optional[str]': S.OptS(S.PrimS(str)),
        'Dict[str, int]': S.MapS(S.PrimS(str), S.PrimS(int), 'Dict'),
        'Tuple[int, str]': S.TupleS([S.PrimS(int), S.PrimS(str)]),
        'Tuple[int, ...]': S.SeqS(S.PrimS(int), 'Tuple...'),
        'Any': S.AnyS(),
        "Literal['a', 'b', 1]": S.LitS(['a', 'b', 1]),
        'Plain': S.EnumS(S.Plain),
    }


PREAMBLE = '''\
import dataclasses, functools, typing
from dataclasses import dataclass, field, InitVar, KW_ONLY
from typing import *
from typing_extensions import TypedDict, Required, NotRequired
from mon.specs import Plain
SEEN = []
'''

NAMES = (
    'a', 'b', 'c', 'd', 'x', 'y', 'value', 'schema', 'element', 'path',
    'default', 'name', 'type', 'key', 'args_', 'data', 'fields', 'items',
    'positional', 'size',
)


class Source:
    """A module that is being written."""

    def __init__(self, rng, future=None):
        self.rng = rng
        self.known = _plain()
        self.lines = []
        self.future = rng.random() < 0.4 if future is None else future
        self.module = None
        self.kinds = {}  # type name -> {field name: spec}

    @property
    def text(self):
        first = 'from __future__ import annotations\n' if self.future else ''
        return first + PREAMBLE + '\n'.join(self.lines) + '\n'

    def add(self, *lines):
        self.lines.extend(lines)

    def annotation(self):
        text = self.rng.choice(list(self.known))
        return text, self.known[text]

    def quote(self, text):
        """Sometimes annotate with a string."""
        if self.future or self.rng.random() < 0.8:
            return text
        return repr(text)

    def default(self, spec):
        for _ in range(10):
            value = specs.gen_default(self.rng, spec)
            try:
                if eval(repr(value), {'Plain': specs.Plain}) == value:
                    return repr(value)
            except Exception:  # noqa: BLE001
                pass
        return None

    def build(self):
        name = f'mon_source_{next(_number)}'
        module = types.ModuleType(name)
        sys.modules[name] = module
        exec(compile(self.text, f'<{name}>', 'exec'), module.__dict__)
        self.module = module
        return module

    def forget(self):
        if self.module is not None:
            sys.modules.pop(self.module.__name__, None)

    # -- declarations -------------------------------------------------

    def default_text(self, spec):
        rng = self.rng
        if isinstance(spec, specs.SeqS) and spec.kind is list:
            return f'field(default_factory=lambda: {spec.value(rng)!r})'
        if isinstance(spec, specs.MapS):
            return f'field(default_factory=lambda: {dict(spec.value(rng))!r})'
        text = self.default(spec)
        if text is None or text.startswith('<'):
            return None
        if text.startswith(('[', '{')):
            return f'field(default_factory=lambda: {text})'
        return rng.choice((text, f'field(default={text})'))

    def dataclass(self, name, base=None):
        rng = self.rng
        options = {}
        if rng.random() < 0.2 and not base:
            options['frozen'] = True
        if rng.random() < 0.2:
            options['slots'] = True
        if rng.random() < 0.2:
            options['kw_only'] = True
        if rng.random() < 0.2:
            options['order'] = True
        if rng.random() < 0.2:
            options['repr'] = False
        if base and base in getattr(self, 'frozen', set()):
            options['frozen'] = True
        if options.get('frozen'):
            self.frozen = getattr(self, 'frozen', set()) | {name}
        declared = dict(self.kinds.get(base, {}))
        lines = []
        init_only = list(getattr(self, 'init_only', {}).get(base, []))
        defaults = bool(base and self.has_default(base))
        kw = options.get('kw_only', False)
        names = rng.sample(NAMES, rng.randrange(0, 6))
        if base and declared and rng.random() < 0.5:
            names.append(rng.choice(list(declared)))
        for field_name in dict.fromkeys(names):
            roll = rng.random()
            annotation, spec = self.annotation()
            if roll < 0.08 and not kw:
                lines.append(f'    _{field_name}_: KW_ONLY')
                kw = True
            if field_name in declared or field_name in init_only:
                # overriding keeps the place of the field
                if field_name in init_only:
                    continue
                text = self.default_text(spec)
                if text is None:
                    continue
                lines.append(f'    {field_name}: {self.quote(annotation)} = {text}')
                declared[field_name] = spec
                continue
            if roll > 0.92:
                lines.append(f'    {field_name}: ClassVar[int] = 3')
                continue
            if roll > 0.84:
                lines.append(
                    f'    {field_name}: {annotation} = field(init=False, default=7)',
                )
                self.computed = True
                continue
            if 0.74 < roll <= 0.84:
                annotation = f'InitVar[{annotation}]'
                if not base:
                    init_only.append(field_name)
                else:
                    continue
            if kw is False and (defaults or rng.random() < 0.4) or (
                kw and rng.random() < 0.5
            ):
                text = self.default_text(spec)
                if annotation.startswith('InitVar') and text and 'factory' in text:
                    text = None
                if text is None:
                    if field_name in init_only:
                        init_only.remove(field_name)
                    continue
                if not kw:
                    defaults = True
                    if rng.random() < 0.1 and text.startswith('field('):
                        text = text[:-1] + ', kw_only=True)'
                lines.append(f'    {field_name}: {self.quote(annotation)} = {text}')
            else:
                if rng.random() < 0.1:
                    lines.append(f'    {field_name}: {self.quote(annotation)} = field(kw_only=True)')
                else:
                    lines.append(f'    {field_name}: {self.quote(annotation)}')
            declared[field_name] = spec
        if not hasattr(self, 'init_only'):
            self.init_only = {}
        self.init_only[name] = init_only
        # every class records what its constructor passed on
        arguments = ''.join(f', {n}' for n in init_only)
        lines.append(f'    def __post_init__(self{arguments}):')
        lines.append(
            f'        SEEN.append(({", ".join(init_only)}{"," if init_only else ""}))',
        )
        settings = ', '.join(f'{k}={v}' for k, v in options.items())
        head = f'@dataclass({settings})' if settings or rng.random() < 0.5 else '@dataclass'
        self.add(
            head,
            f'class {name}{f"({base})" if base else ""}:',
            *lines,
            '',
        )
        self.kinds[name] = declared

    def has_default(self, name):
        return getattr(self, 'defaults', {}).get(name, True)

    def parameters(self, stars=True):
        """A random list of parameters, source text and models."""
        rng = self.rng
        declared = {}
        text = []
        defaults = False
        names = rng.sample(NAMES, 9)
        for kind, count in (
            ('pos', rng.choice((0, 0, 0, 1, 2))),
            ('pk', rng.randrange(4)),
        ):
            for _ in range(count):
                name = names.pop()
                annotation, spec = self.annotation()
                declared[name] = spec
                part = f'{name}: {self.quote(annotation)}'
                if rng.random() < 0.05:
                    part, declared[name] = name, specs.AnyS()
                if defaults or rng.random() < 0.3:
                    default = self.default(declared[name]) or 'None'
                    part += f' = {default}'
                    defaults = True
                text.append(part)
            if kind == 'pos' and count:
                text.append('/')
        star = stars and rng.random() < 0.3
        if star:
            annotation, spec = self.annotation()
            declared['rest'] = spec
            text.append(f'*rest: {self.quote(annotation)}')
        count = rng.choice((0, 0, 1, 2))
        if count and not star:
            text.append('*')
        for _ in range(count):
            name = names.pop()
            annotation, spec = self.annotation()
            declared[name] = spec
            part = f'{name}: {self.quote(annotation)}'
            if rng.random() < 0.5:
                default = self.default(spec) or 'None'
                part += f' = {default}'
            text.append(part)
        if stars and rng.random() < 0.25:
            annotation, spec = self.annotation()
            declared['more'] = spec
            text.append(f'**more: {self.quote(annotation)}')
        return ', '.join(text), declared

    def callable(self, name, kind):
        text, declared = self.parameters()
        if kind == 'function':
            self.add(
                f'def {name}({text}):',
                '    return dict(locals())',
                '',
            )
        elif kind == 'class':
            self.add(
                f'class {name}:',
                f'    def __init__(self{", " if text else ""}{text}):',
                '        self._observed = {k: v for k, v in locals().items() if k != "self"}',
                '',
            )
        elif kind == 'classmethod':
            self.add(
                f'class {name}_:',
                '    @classmethod',
                f'    def make(cls{", " if text else ""}{text}):',
                '        return {k: v for k, v in locals().items() if k != "cls"}',
                f'{name} = {name}_.make',
                '',
            )
        elif kind == 'staticmethod':
            self.add(
                f'class {name}_:',
                '    @staticmethod',
                f'    def make({text}):',
                '        return dict(locals())',
                f'{name} = {name}_.make',
                '',
            )
        elif kind == 'method':
            self.add(
                f'class {name}_:',
                f'    def make(self{", " if text else ""}{text}):',
                '        return {k: v for k, v in locals().items() if k != "self"}',
                f'{name} = {name}_().make',
                '',
            )
        elif kind == 'constructor':
            # without `__init__`
            self.add(
                f'class {name}:',
                f'    def __new__(cls{", " if text else ""}{text}):',
                '        seen = {k: v for k, v in locals().items() if k != "cls"}',
                '        self = object.__new__(cls)',
                '        self._observed = seen',
                '        return self',
                '',
            )
        elif kind == 'metaclass':
            self.add(
                f'class {name}_(type):',
                f'    def __call__(cls{", " if text else ""}{text}):',
                '        seen = {k: v for k, v in locals().items() if k != "cls"}',
                '        self = cls.__new__(cls)',
                '        self._observed = seen',
                '        return self',
                f'class {name}(metaclass={name}_):',
                '    pass',
                '',
            )
        elif kind == 'inherited':
            self.add(
                f'class {name}_:',
                f'    def __init__(self{", " if text else ""}{text}):',
                '        self._observed = {k: v for k, v in locals().items() if k != "self"}',
                f'class {name}({name}_):',
                '    a: "of no interest" = 1',
                '',
            )
        elif kind == 'object':
            self.add(
                f'class {name}_:',
                f'    a: {"None" if self.rng.random() < 0.5 else "str"} = 3',
                f'    def __call__(self{", " if text else ""}{text}):',
                '        return {k: v for k, v in locals().items() if k != "self"}',
                f'{name} = {name}_()',
                '',
            )
        elif kind == 'wrapped':
            self.add(
                f'def {name}_({text}):',
                '    return dict(locals())',
                f'@functools.wraps({name}_)',
                f'def {name}(*args, **kwargs):',
                f'    return {name}_(*args, **kwargs)',
                '',
            )
        elif kind == 'partial':
            self.add(
                f'def {name}_({text}):',
                '    return dict(locals())',
                '',
            )
            given = []
            parts = [part.split(':')[0].split('=')[0].strip() for part in _parameters(text)]
            if parts and parts[0][0] not in '*/' and self.rng.random() < 0.5:
                given.append(repr(self.rng.choice(('given', 1, None))))
                parts = [] if '/' in parts[1:] else parts[1:]
            elif '/' in parts:
                parts = parts[parts.index('/') + 1:]
            named = [part for part in parts if part[0] not in '*/']
            if named and self.rng.random() < 0.6:
                given.append(f'{self.rng.choice(named)}={self.rng.choice(("None", "2", chr(34) * 2))}')
            self.add(f'{name} = functools.partial({", ".join([name + "_", *given])})', '')
        self.kinds[name] = declared

    def namedtuple(self, name):
        rng = self.rng
        declared, lines, defaults = {}, [], False
        for field_name in rng.sample(NAMES, rng.randrange(1, 5)):
            annotation, spec = self.annotation()
            line = f'    {field_name}: {self.quote(annotation)}'
            if defaults or rng.random() < 0.3:
                default = self.default(spec)
                if default is None:
                    continue
                defaults = True
                line += f' = {default}'
            declared[field_name] = spec
            lines.append(line)
        self.add(f'class {name}(NamedTuple):', *(lines or ['    a: int']), '')
        self.kinds[name] = declared or {'a': self.known['int']}


def _parameters(text):
    """Splits at the commas between parameters."""
    parts, depth, quote, current = [], 0, '', ''
    escaped = False
    for char in text:
        if escaped:
            escaped = False
        elif quote and char == '\\':
            escaped = True
        elif quote:
            quote = '' if char == quote else quote
        elif char in '\'"':
            quote = char
        elif char in '([{':
            depth += 1
        elif char in ')]}':
            depth -= 1
        elif char == ',' and not depth:
            parts.append(current.strip())
            current = ''
            continue
        current += char
    return [part for part in (*parts, current.strip()) if part]


def fields_of(t, declared):
    """The parameters of a callable in the order of its signature."""
    P = inspect.Parameter
    kinds = {
        P.POSITIONAL_ONLY: 'pos',
        P.POSITIONAL_OR_KEYWORD: 'pk',
        P.VAR_POSITIONAL: '*',
        P.KEYWORD_ONLY: 'kw',
        P.VAR_KEYWORD: '**',
    }
    factories = {}
    if dataclasses.is_dataclass(t):
        factories = {
            f.name: f.default_factory
            for f in dataclasses.fields(t)
            if f.default_factory is not dataclasses.MISSING
        }
    fields = []
    for name, param in inspect.signature(t).parameters.items():
        factory = factories.get(name)
        default = specs.NO
        if factory is None and param.default is not P.empty:
            default = param.default
        fields.append(
            specs.Field(
                name,
                declared[name],
                kinds[param.kind],
                default=default,
                factory=factory,
            ),
        )
    return fields


def snapshot(value, module):
    """Everything that can be observed of a constructed value."""
    if dataclasses.is_dataclass(value) and not isinstance(value, type):
        state = {
            f.name: getattr(value, f.name)
            for f in dataclasses.fields(value)
            if hasattr(value, f.name)
        }
        seen = list(module.SEEN)
        module.SEEN.clear()
        return type(value), state, seen
    if hasattr(value, '_observed'):
        return type(value), value._observed, []
    return type(value), value, []


typing  # used by the preamble
