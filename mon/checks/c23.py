"""C23: documentation and selection follow the structure of the type"""
import dataclasses
import linecache
import os
import re
import shutil
import sys
import types
import typing

import marsh

from .. import files, gen, programs, specs, texts
from ..core import Check
from ..oracles import observe

check = Check(
    'C23',
    scale=3,
    rule=(
        'Random modules of source code with dataclasses, named tuples, typed '
        'dicts, classes and functions that refer to each other, with '
        'docstrings in four styles and documented attributes. Documentation '
        'objects, selected schemas and rendered help are compared with what '
        'was written into the module; tables are read back. Non-trivial: '
        'distinct modules.'
    ),
)
check.between = gen.clear_caches
check.require(**{
    'modelled texts': 1500,
    'wrapped': 100,
    'close suggestions': 500,
    'documents': 3000,
    'fields': 6500,
    'nested fields': 270,
    'descriptions': 2900,
    'inherited descriptions': 80,
    'defaults': 1200,
    'selected': 3800,
    'refused': 3000,
    'rendered': 1000,
    'rendered fields': 2700,
    'aligned descriptions': 500,
    'tables': 150,
    'closest': 300,
    'components': 800,
    'components of nested fields': 150,
    'help of components': 150,
})

PREAMBLE = '''\
import dataclasses
from dataclasses import dataclass, field
from types import SimpleNamespace
from typing import *
from typing_extensions import TypedDict, Annotated

class Lines(int):

    def __repr__(self):
        return 'Lines(\\n  x: 3\\n)'

'''

WORDS = 'alpha beta gamma delta words of a description that may be long (or not)'.split()

# annotation -> how it is displayed as a field
PLAIN = {
    'int': '<int>',
    'str': '<str>',
    'float': '<float>',
    'bool': '<bool>',
    'Any': '<Any>',
    'List[int]': '[<int>, ...]',
    'Dict[str, float]': '{<str>: <float>, ...}',
    'Optional[int]': '<int> | <None>',
    'Tuple[int, str]': '[<int>, <str>]',
    'Union[int, str]': '<int> | <str>',
    'Annotated[int, "note"]': '<int>',
}
WRAPPERS = {
    '{}': '{}',
    'List[{}]': '[{}, ...]',
    'Dict[str, {}]': '{{<str>: {}, ...}}',
    'Optional[{}]': '{} | <None>',
    'Annotated[{}, 1]': '{}',
    'Union[{}, str]': '{} | <str>',
}
DEFAULTS = {
    'int': ['3', '0', '-1'], 'str': ["'text'", "'x y'"], 'float': ['1.5'],
    'bool': ['True', 'False'], 'Any': ['None', '3', 'Lines(4)'], 'Optional[int]': ['None', '7'],
    'Union[int, str]': ["'u'"], 'Annotated[int, "note"]': ['4'], 'Tuple[int, str]': ["(1, 'x')"],
}
NAMES = ['é', 'x', 'y', 'size', 'data', 'name_of_it', 'value', 'path', 'first', 'second', 'n', 'schema', 'doc']


def sentence(rng):
    """Unique words."""
    words = rng.sample(WORDS, rng.randrange(1, len(WORDS)))
    return f'd{rng.randrange(10 ** 6)} ' + ' '.join(words) + '.'


class Field:

    def __init__(self, name, hint, shown, target=None):
        self.name = name
        self.hint = hint
        self.shown = shown
        self.target = target
        self.default = None
        self.written = None
        self.attribute_doc = None
        self.prefix = ''


class Declared:

    def __init__(self, name, kind):
        self.name = name
        self.kind = kind
        self.base = None
        self.own = []
        self.short = None
        self.long = None
        self.params = {}

    @property
    def fields(self):
        inherited = list(self.base.fields) if self.base else []
        names = [f.name for f in inherited]
        for field in self.own:
            if field.name in names:
                inherited[names.index(field.name)] = field
            else:
                inherited.append(field)
        return inherited

    def described(self, name):
        """By the nearest class that does."""
        declared = self
        first = True
        while declared is not None:
            found = declared.params.get(name)
            if found is None:
                found = next((f.attribute_doc for f in declared.own if f.name == name), None)
            if found is not None:
                return found, not first
            declared = declared.base
            first = False
        return None, False


def docstring(rng, declared, indent):
    style = rng.choice(('google', 'rest', 'numpy', 'epydoc'))
    if style == 'epydoc' and not ''.join(declared.params).isascii():
        # is not understood by the parser of docstrings
        style = 'google'
    lines = []
    if declared.short:
        lines += [declared.short, '']
        if declared.long:
            lines += [declared.long, '']
    if declared.params:
        if style == 'google':
            lines.append(rng.choice(('Args:', 'Arguments:')))
            for name, text in declared.params.items():
                lines.append(f'    {name}{rng.choice(("", " (int)"))}: {text}')
        elif style == 'rest':
            for name, text in declared.params.items():
                lines.append(f':param {rng.choice(("", "int "))}{name}: {text}')
        elif style == 'epydoc':
            for name, text in declared.params.items():
                lines.append(f'@param {name}: {text}')
        else:
            lines += ['Parameters', '----------']
            for name, text in declared.params.items():
                lines += [f'{name}{rng.choice(("", " : int"))}', f'    {text}']
        lines.append('')
    if not lines:
        return []
    text = [lines[0]] + [indent + line if line else '' for line in lines[1:]]
    return [f'{indent}"""' + '\n'.join(text).rstrip() + ('\n' + indent if len(lines) > 2 else '') + '"""']


def write(rng):
    """The source of a module and what was declared in it."""
    lines = []
    declared = []
    outer = rng.random() < 0.25
    base_indent = '    ' if outer else ''
    if outer:
        lines += ['def outer():', '']
    for i in range(rng.choice((2, 3, 4))):
        kind = rng.choice(('dataclass', 'dataclass', 'NamedTuple', 'TypedDict', 'class', 'function'))
        t = Declared(f'Type{i}' if kind != 'function' else f'function{i}', kind)
        usable = [d for d in declared if d.kind != 'function']
        if kind in ('dataclass', 'TypedDict') and rng.random() < 0.4:
            same = [d for d in declared if d.kind == kind]
            if same:
                t.base = rng.choice(same)
        must_default = kind == 'dataclass' and t.base is not None and any(f.written for f in t.base.fields)
        for name in rng.sample(NAMES, rng.randrange(1, 5)):
            if t.base and name in [f.name for f in t.base.fields]:
                continue
            if usable and rng.random() < 0.5:
                target = rng.choice(usable)
                wrap = rng.choice(list(WRAPPERS))
                hint = wrap.format(target.name)
                f = Field(name, hint, WRAPPERS[wrap].format(f'{target.name}(...)'), (wrap, target))
            else:
                hint = rng.choice(list(PLAIN))
                f = Field(name, hint, PLAIN[hint])
            if kind != 'TypedDict' and (must_default or rng.random() < 0.35):
                if hint in DEFAULTS:
                    f.written = rng.choice(DEFAULTS[hint])
                    f.default = str(marsh.marshal(eval(f.written, {'Lines': int})))  # noqa: S307
                elif kind == 'dataclass' and hint.startswith(('List', 'Dict')):
                    f.written = f'field(default_factory={hint[:4].lower()})'
                    f.default = '...'
                elif must_default or hint.startswith('Optional'):
                    f.written = 'None'
                    f.default = 'None'
                if f.written:
                    must_default = True
            elif must_default:
                continue
            if must_default and not f.written and kind != 'TypedDict':
                continue
            t.own.append(f)
        if kind in ('class', 'function') and rng.random() < 0.4:
            f = Field('more', 'int', '<int>')
            f.prefix = '*'
            t.own.append(f)
        if kind in ('class', 'function') and rng.random() < 0.4:
            f = Field('others', 'str', '<str>')
            f.prefix = '**'
            t.own.append(f)
        if rng.random() < 0.6:
            t.short = sentence(rng)
            if rng.random() < 0.4:
                t.long = sentence(rng)
            for f in t.fields:
                if rng.random() < 0.5:
                    t.params[f.name] = sentence(rng)
        emit(rng, lines, t, base_indent)
        declared.append(t)
    if outer:
        lines += ['    return SimpleNamespace(**locals())', '', 'Outer = outer()']
    return '\n'.join(lines) + '\n', declared, outer


def emit(rng, lines, t, indent):
    inner = indent + '    '
    if t.kind in ('class', 'function'):
        params = ', '.join(
            f'{f.prefix}{f.name}: {f.hint}' + (f' = {f.written}' if f.written else '')
            for f in t.own
        )
        if t.kind == 'function':
            lines.append(f'{indent}def {t.name}({params}):')
            lines.extend(docstring(rng, t, inner))
            lines += [f'{inner}return dict(locals())', '']
        else:
            lines.append(f'{indent}class {t.name}:')
            lines.extend(docstring(rng, t, inner))
            lines += [
                '', f'{inner}def __init__(self, {params}):',
                f'{inner}    self.seen = dict(locals())', '',
            ]
        return
    if t.kind == 'dataclass':
        lines.append(f'{indent}@dataclass')
    base = t.base.name if t.base else {'dataclass': '', 'NamedTuple': 'NamedTuple', 'TypedDict': 'TypedDict'}[t.kind]
    lines.append(f'{indent}class {t.name}({base}):' if base else f'{indent}class {t.name}:')
    body = docstring(rng, t, inner)
    for f in t.own:
        body.append(f'{inner}{f.name}: {f.hint}' + (f' = {f.written}' if f.written else ''))
        if rng.random() < 0.3:
            f.attribute_doc = sentence(rng)
            body.append(f'{inner}"""{f.attribute_doc}"""')
        if rng.random() < 0.3:
            body.append('')
    lines.extend(body or [f'{inner}pass'])
    lines.append('')


class module:
    """Executes the source such that python finds it again."""

    count = 0

    def __init__(self, source):
        module.count += 1
        self.name = f'documented_module_{os.getpid()}_{module.count}'
        self.file = f'/nonexistent/{self.name}.py'
        self.source = source

    def __enter__(self):
        mod = types.ModuleType(self.name)
        mod.__file__ = self.file
        sys.modules[self.name] = mod
        linecache.cache[self.file] = (
            len(self.source), None, self.source.splitlines(True), self.file,
        )
        exec(compile(self.source, self.file, 'exec', dont_inherit=True), vars(mod))  # noqa: S102
        return mod

    def __exit__(self, *args):
        del sys.modules[self.name]
        del linecache.cache[self.file]
        marsh.schema.UnmarshalSchema.cache_clear()


def squeeze(text):
    return ''.join((text or '').split())


def judge_doc(case, doc, t, depth, source):
    case.event('documents')
    if t.kind != 'function':
        case.check(doc.type == t.name, 'the type is not named', observed=doc.type, expected=t.name)
    if t.short:
        parts = [squeeze(t.short), squeeze(t.long)]
        case.check(
            squeeze(doc.description).startswith(''.join(parts)),
            'the description is lost', observed=doc.description, expected=(t.short, t.long),
        )
        if t.kind in ('class', 'function', 'TypedDict'):
            case.check(
                squeeze(doc.description) == ''.join(parts),
                'not only the description', observed=doc.description, expected=(t.short, t.long),
            )
    elif not t.params and t.kind != 'NamedTuple':
        case.check(not doc.description, 'a description from nowhere', observed=doc.description)
    if depth <= 0:
        case.check(not doc.fields, 'deeper than asked for', observed=doc.fields)
        return
    expected = [f.prefix + f.name for f in t.fields]
    case.check(
        list(doc.fields or ()) == expected, 'the fields or their order are wrong',
        observed=list(doc.fields or ()), expected=expected,
    )
    for f in t.fields:
        field = doc.fields[f.prefix + f.name]
        case.note(field=f'{t.name}.{f.name}')
        case.event('fields')
        case.check(
            field.type == f.shown, 'the type of a field is wrong', observed=field.type, expected=f.shown,
        )
        case.check(
            field.doc.default == f.default, 'the default of a field is wrong',
            observed=field.doc.default, expected=f.default,
        )
        if f.default is not None:
            case.event('defaults')
        text, inherited = t.described(f.name)
        # python forgets the bases of a typed dict
        if not (inherited and t.kind == 'TypedDict' and field.description is None):
            case.check(
                squeeze(field.description) == squeeze(text), 'the description of a field is wrong',
                observed=field.description, expected=text,
            )
        if text:
            case.event('descriptions')
            if inherited:
                case.event('inherited descriptions')
        if f.target and f.target[0] in ('{}', 'Annotated[{}, 1]'):
            if depth > 1:
                case.event('nested fields')
            inner = marsh.schema.UnmarshalSchema.Doc(**{**vars(field.doc), 'default': None})
            judge_doc(case, inner, f.target[1], depth - 1, source)
        elif f.target:
            case.check(not field.doc.fields, 'fields of something else')


def routes(t, depth=0):
    """All paths, with the declared field at its end."""
    for f in t.fields:
        yield [f.name], f
        if f.target and f.target[0] != 'Union[{}, str]' and depth < 3:
            for path, found in routes(f.target[1], depth + 1):
                yield [f.name, *path], found


STRIPPED = {
    'List[int]': int, 'Dict[str, float]': float, 'Optional[int]': int,
    'Annotated[int, "note"]': int, 'int': int, 'str': str, 'float': float,
    'bool': bool, 'Any': typing.Any, 'Tuple[int, str]': typing.Tuple[int, str],
    'Union[int, str]': typing.Union[int, str],
}


def judge_select(case, rng, schema, t, space):
    found = list(routes(t))
    rng.shuffle(found)
    for path, f in found[:6]:
        text = marsh.path.join_fields(path)
        if rng.random() < 0.2:
            text = f'.{text}.'
        case.event('selected')
        case.note(path=text)
        seen = observe(schema.select, text)
        case.check(seen.error is None, 'a field is not found', observed=repr(seen))
        if f.target is None:
            expected = STRIPPED[f.hint]
        elif f.target[0] == 'Union[{}, str]':
            expected = typing.Union[getattr(space, f.target[1].name), str]
        else:
            expected = getattr(space, f.target[1].name)
        case.check(
            seen.value.value == expected, 'another schema is selected',
            observed=seen.value.value, expected=expected,
        )
        # what can not be found
        wrong = rng.choice(('no_such_field', 'xx', '0x'))
        case.event('refused')
        seen = observe(schema.select, marsh.path.join_fields([*path, wrong]))
        if f.hint == 'Tuple[int, str]' or f.hint == 'Any':
            continue
        case.check(
            isinstance(seen.error, marsh.errors.PathError),
            'a field that does not exist is found', observed=repr(seen), wrong=wrong,
        )
        case.check(
            tuple(marsh.path.split(seen.error.path)) == tuple(path),
            'the error of a selection has another path', observed=seen.error.path, expected=path,
        )
    case.check(schema.select('') is schema, 'the empty path selects something else')


@check.workload(quick=700, thorough=14000)
def documents(case):
    rng = case.rng
    source, declared, outer = write(rng)
    source = PREAMBLE + source
    case.note(source=source)
    marsh.schema.UnmarshalSchema.cache_clear()
    with module(source) as mod:
        space = mod.Outer if outer else mod
        for t in declared:
            value = getattr(space, t.name)
            schema = marsh.schema.UnmarshalSchema(value)
            for depth in {0, 1, rng.choice((2, 3))}:
                case.note(type=t.name, depth=depth)
                judge_doc(case, schema.doc(depth), t, depth, source)
            judge_select(case, rng, schema, t, space)
            render(case, rng, value, schema)
    case.distinct(source)
    case.sample(source)


def render(case, rng, value, schema):
    width = rng.choice((11, 20, 40, 60, 80, 100, 200))
    depth = rng.choice((0, 1, 2, 3))
    options = {}
    prefix = ''
    if rng.random() < 0.3:
        prefix = options['prefix_path'] = rng.choice(('pre', 'a.b'))
    for key, choices in (
        ('field_indent', (0, 2, 4)), ('depth_indent_factor', (0, 2, 3)),
        ('description_indent', (10, 24, 30)), ('description_margin', (1, 4)),
        ('omit_type', (False, True)), ('omit_description', (False, True)),
    ):
        if rng.random() < 0.3:
            options[key] = rng.choice(choices)
    doc = schema.doc(depth)
    columns = None
    if rng.random() < 0.3:
        # of the terminal
        columns = os.environ.get('COLUMNS')
        os.environ['COLUMNS'] = str(width)
        try:
            text = marsh.doc.terminal.format_unmarshal_help(value, depth=depth, **options)
        finally:
            if columns is None:
                del os.environ['COLUMNS']
            else:
                os.environ['COLUMNS'] = columns
        width = max(11, width - 2)
    else:
        text = marsh.doc.terminal.format_unmarshal_help(
            rng.choice((value, schema, doc)), depth=depth, width=width, **options,
        )
    case.event('rendered')
    case.note(text=text, options=options, width=width, depth=depth)
    expected = []
    head = 0
    if not options.get('omit_type') and doc.type:
        expected.append(doc.type)
    if not options.get('omit_description') and doc.description:
        expected.append(doc.description)
    head = sum(len(part.splitlines()) for part in expected)
    rows = []

    def walk(doc, path, level):
        if level >= depth:
            return
        for name, field in (doc.fields or {}).items():
            here = f'{path}.{name}' if path else name
            row = here
            if field.type:
                row += f': {field.type}'
            if field.doc.default:
                row += f' = {field.doc.default}'
            rows.append((level, row, field.description))
            walk(field.doc, here, level + 1)

    walk(doc, prefix, 0)
    case.event('rendered fields', len(rows))
    whole = squeeze(''.join(expected) + ''.join(row + (description or '') for _, row, description in rows))
    case.check(squeeze(text) == whole, 'the text is incomplete or out of order', expected=whole)
    fields = marsh.doc.terminal.format_unmarshal_fields(
        value, depth=depth, width=width,
        **{('indent' if k == 'field_indent' else k): v for k, v in options.items() if not k.startswith('omit')},
    )
    case.check(text.endswith(fields), 'the help differs from the fields')
    lines = fields.split('\n')
    case.check(
        all(len(line) <= width for line in lines), 'a line is too long',
        observed=max(lines, key=len),
    )
    case.check(
        [len(p) for p in fields.split('\n\n')].count(0) == (0 if rows else 1)
        and len(fields.split('\n\n')) == max(1, len(rows)),
        'fields are not apart', observed=fields,
    )
    if not rows:
        return
    margin = options.get('description_margin', 4)
    column = min(options.get('description_indent', 24), width - 1)
    for part, (level, row, description) in zip(fields.split('\n\n'), rows):
        indent = options.get('field_indent', 2) + level * options.get('depth_indent_factor', 2)
        part = part.split('\n')
        if indent + len(row) > width:
            continue
        case.check(
            part[0].startswith(' ' * indent + row), 'a field is not indented by its depth',
            observed=part, expected=(indent, row),
        )
        if description and width - column > 12:
            case.event('aligned descriptions')
            same_line = column - (indent + len(row)) >= margin
            first = part[0] if same_line else part[1]
            case.check(
                first[column:].split()[0] == description.split()[0] and first[column] != ' '
                and all(line[:column].isspace() for line in part[1:])
                and (same_line or part[0] == ' ' * indent + row),
                'a description is not aligned', observed=part,
            )


@check.workload(quick=300, thorough=6000)
def tables(case):
    """Tables and sections are read back."""
    rng = case.rng
    rst = marsh.doc.restructuredtext
    columns = rng.choice((1, 2, 3))
    cells = ('a', 'some words', 'two\nlines', '`x`', '- dash', '* star', '1', ':class:`y`')
    rows = [[rng.choice(cells) for _ in range(columns)] for _ in range(rng.randrange(4))]
    headers = [rng.choice(cells) for _ in range(columns)]
    options = {}
    if rng.random() < 0.5:
        options['title'] = 'The title'
    if rng.random() < 0.5:
        options['widths'] = [rng.randrange(1, 99) for _ in range(columns)]
    text = rst.format_table(headers, iter(rows) if rng.random() < 0.5 else rows, **options)
    case.event('tables')
    case.note(text=text, rows=rows, headers=headers)
    lines = text.split('\n')
    case.check(
        lines[0] == '.. list-table::' + (' The title' if 'title' in options else '')
        and '    :header-rows: 1' in lines
        and ('widths' not in options or f'    :widths: {", ".join(map(str, options["widths"]))}' in lines)
        and text.endswith('\n'),
        'the head of a table is wrong', observed=lines[:4],
    )
    read = []
    for line in lines[lines.index('') + 1:]:
        if line.startswith('    * - '):
            read.append([line[8:]])
        elif line.startswith('      - '):
            read[-1].append(line[8:])
        else:
            case.check(not line, 'a line that belongs to nothing', observed=line)
    case.check(
        read == [[cell.replace('\n', ' ') for cell in row] for row in (headers, *rows)],
        'a table does not hold its cells', observed=read,
    )
    schemas = [
        type(f'S{i}', (marsh.schema.core.base.Schema,), {
            'doc_static_type': staticmethod(lambda t=rng.choice((None, f'type {i}', f't{i}')): t),
            'doc_static_description': staticmethod(lambda d=rng.choice((None, '', 'described')): d),
        })
        for i in range(rng.randrange(4))
    ]
    registry = marsh.schema.core.SchemaRegistry()
    for schema in schemas:
        registry.register(schema)
    source, order = rng.choice((
        (schemas, schemas), (iter(schemas), schemas), (registry, schemas[::-1]),
        (marsh.schema.UnmarshalSchema, list(marsh.schema.UnmarshalSchema.registry)),
        (marsh.schema.MarshalSchema, list(marsh.schema.MarshalSchema.registry)),
    ))
    shown = [
        (s.doc_static_type(), s.doc_static_description() or '')
        for s in order if s.doc_static_type()
    ]
    kind = rng.randrange(3)
    case.note(shown=shown, kind=kind)
    if kind == 0:
        size = rng.choice((1, 3))
        text = marsh.doc.markdown.format_types(source, **({'heading': size} if size != 3 else {}))
        expected = '\n\n'.join(f'{"#" * size} {t}\n{d}' for t, d in shown)
    elif kind == 1:
        char = rng.choice('#*=-^"')
        text = rst.format_types(source, section=char)
        expected = '\n\n'.join(
            (char * len(t) + '\n' if char in '#*' else '') + f'{t}\n{char * len(t)}\n\n{d}' for t, d in shown
        )
    else:
        text = rst.format_types_table(source)
        expected = rst.format_table(('Type', 'Description'), shown, widths=(30, 50))
    case.check(text == expected, 'the types are not listed', observed=text, expected=expected)


@check.workload(quick=600, thorough=12000)
def closest(case):
    """Suggestions name a candidate, and the one that is meant."""
    rng = case.rng
    candidates = rng.sample(['alpha', 'beta', 'gamma', 'delta', 'layers', 'clusters', 'size_of_it', 'n'], rng.choice((0, 1, 4)))
    unrelated = ['zzzzz', '0', '', 'QQ']
    if candidates and rng.random() < 0.6:
        meant = rng.choice(candidates)
        typo = meant + 'x' if rng.random() < 0.5 and len(meant) > 3 else meant
        expected = meant
    else:
        typo, expected = rng.choice(unrelated), None
    case.event('closest')
    case.note(candidates=candidates, typo=typo)
    case.check(
        marsh.utils.get_closest(typo, candidates) == expected, 'another suggestion', expected=expected,
    )
    seen = marsh.utils.get_closest_error_message(typo, candidates, key='thing')
    text = f'unknown thing "{typo}"' + (f', did you mean "{expected}"?' if expected else '')
    case.check(seen == text, 'another message', observed=seen, expected=text)
    for width in (0, -1, rng.randrange(-50, 0)):
        seen = observe(marsh.doc.terminal.format_terminal_value, 'value', width, 'text')
        case.check(isinstance(seen.error, ValueError), 'a width that is none is accepted', observed=repr(seen))
    case.check(marsh.utils.get_terminal_width() == max(11, shutil.get_terminal_size().columns - 2), 'another width')


@check.workload(quick=2500, thorough=50000)
def type_texts(case):
    """Types are displayed as what they are made of."""
    # equal types share their schema, either order may be displayed
    spec = gen.draw(case, accept=lambda s: not any(
        isinstance(x, specs.OptS) and typing.get_args(x.t)[:1] == (type(None),) for x in s.walk()
    ))
    case.note(type=repr(spec))
    schema = marsh.schema.UnmarshalSchema(spec.t)
    seen = observe(lambda: (str(schema), repr(schema), schema.doc_field_type(), schema.doc(0)))
    case.event('type texts')
    case.check(
        seen.error is None
        and all(type(text) is str for text in seen.value[:3])
        and isinstance(seen.value[3], marsh.schema.UnmarshalSchema.Doc),
        'a type can not be displayed', observed=repr(seen),
    )
    written, _, field, doc = seen.value
    case.check(not doc.fields, 'deeper than asked for', observed=doc.fields)
    try:
        expected = texts.text(spec), texts.field(spec)
    except texts.Unmodelled:
        case.event('model undecided')
        return
    case.event('modelled texts')
    case.distinct(expected)
    case.check(written == expected[0], 'the type is displayed as another', observed=written, expected=expected[0])
    case.check(field == expected[1], 'the type of a field is displayed as another', observed=field, expected=expected[1])


def written(doc):
    """All that a documentation says."""
    if doc is None:
        return None
    return (
        doc.type, doc.default, doc.description,
        {
            name: (field.type, field.description, written(field.doc))
            for name, field in (doc.fields or {}).items()
        },
        [(field.value, field.description) for field in doc.special_fields or ()],
    )


@check.workload(quick=80, thorough=3000)
def wrapped(case):
    """A wrapper that only wraps is displayed as what it wraps."""
    rng = case.rng
    spec = gen.draw(case, accept=lambda s: not any(
        isinstance(x, (specs.OptS, specs.UnionS, specs.LitS)) for x in s.walk()
    ))
    places = ['']
    if getattr(spec, 'fields', ()):
        places += [marsh.path.escape_field(f.name) for f in spec.fields if f.kind not in ('*', '**')]
    places += ['0', 'zzzzz']

    def look(schema):
        depth = 2
        seen = [
            observe(fn) for fn in (
                lambda: str(schema), lambda: repr(schema), lambda: written(schema.doc(depth)),
                lambda: written(schema.doc()), schema.doc_type, schema.doc_field_type,
                schema.doc_default, schema.doc_description,
                lambda: sorted(schema.doc_fields(depth) or ()),
                lambda: schema.doc_special_fields() or (),
            )
        ]
        for place in places[1:]:
            seen.append(observe(lambda: str(schema.select(place))))
        # numbers of objects are no part of the text
        return [re.sub(r' at 0x[0-9a-f]+', '', repr(outcome)) for outcome in seen]

    class Wrapper(marsh.schema.core.unmarshal.WrapperUnmarshalSchema):

        @classmethod
        def match(cls, value):
            return value is spec.t

        def unmarshal(self, element):
            return self.schema.unmarshal(element)

    default = {}
    if rng.random() < 0.4:
        default['default'] = rng.choice((None, 3, 'text', (1,)))
    expected = look(marsh.schema.UnmarshalSchema(spec.t, **default))
    case.note(type=repr(spec), default=default)
    registry = marsh.schema.UnmarshalSchema.registry
    marsh.schema.register(Wrapper, priority=30)
    try:
        marsh.schema.caches.cache_clear()
        schema = marsh.schema.UnmarshalSchema(spec.t, **default)
        case.check(type(schema) is Wrapper, 'the wrapper is not used')
        observed = look(schema)
    finally:
        for i in reversed(range(len(registry.priority))):
            if registry.priority[i] is Wrapper:
                del registry.priority[i]
        marsh.schema.UnmarshalSchema.cache_clear()
    case.event('wrapped')
    case.distinct(repr(expected))
    for seen, wanted in zip(observed, expected):
        case.check(seen == wanted, 'a wrapper is displayed as something else', observed=seen, expected=wanted)


def typo(rng, name):
    """Close to the name, and to no other."""
    i = rng.randrange(1, len(name))
    return rng.choice((
        name + rng.choice('xq'), name[:i] + 'q' + name[i:], name[:i] + name[i + 1:],
        name.swapcase()[:1] + name[1:],
    ))


TAGS = ['alphabet', 'momentum', 'directory', 'zigzagging', 'pineapple', 'checkpoint']


@check.workload(quick=600, thorough=12000)
def suggestions(case):
    """Errors about names that do not exist suggest the one that is meant."""
    rng = case.rng
    names = rng.sample(TAGS, rng.choice((1, 2, 4)))
    meant = rng.choice(names)
    close = rng.random() < 0.7
    wrong = typo(rng, meant) if close else rng.choice(('0', 'KKKK', 'u-u', '777777'))
    if wrong in names:
        return
    kind = rng.choice(('literal', 'dataclass', 'typeddict', 'callable', 'namespace', 'config', 'select', 'base', 'spaces'))
    case.note(kind=kind, names=names, wrong=wrong)
    case.event('suggestions')
    case.distinct((kind, tuple(names), wrong))
    attributes = {'__annotations__': dict.fromkeys(names, int), '__module__': __name__}
    if kind == 'literal':
        names += ['_'] if len(names) == 1 else []
        seen = observe(marsh.unmarshal, typing.Literal[tuple(names)], wrong)
    elif kind in ('dataclass', 'select'):
        hint = dataclasses.dataclass(type('Record', (), attributes))
        if kind == 'select':
            seen = observe(marsh.schema.UnmarshalSchema(hint).select, wrong)
        else:
            seen = observe(marsh.unmarshal, hint, {**dict.fromkeys(names, 1), wrong: 1})
    elif kind == 'typeddict':
        hint = typing.TypedDict('Record', dict.fromkeys(names, int))
        seen = observe(marsh.unmarshal, hint, {**dict.fromkeys(names, 1), wrong: 1})
    elif kind == 'callable':
        scope = {}
        exec(f'def function({", ".join(f"{n}: int" for n in names)}): return 1', scope)  # noqa: S102
        seen = observe(marsh.unmarshal, scope['function'], {**dict.fromkeys(names, 1), wrong: 1})
    elif kind in ('namespace', 'base'):
        base = type('Base', (), {})
        namespace = marsh.namespaces.new('suggested', base)
        try:
            for name in names:
                namespace.register(type(name, (base,), {}), name=name)
            if kind == 'base':
                seen = observe(marsh.unmarshal, base, {'name': wrong})
            else:
                seen = observe(rng.choice((
                    lambda: namespace[wrong], lambda: marsh.schema.UnmarshalSchema(base).select(wrong),
                    lambda: namespace.build({}, name=wrong),
                )))
        finally:
            del marsh.namespaces['suggested']
    elif kind == 'spaces':
        try:
            for name in names:
                marsh.namespaces.new(name, type(name, (), {}))
            seen = observe(lambda: marsh.namespaces[wrong])
        finally:
            for name in names:
                del marsh.namespaces[name]
    else:
        with files.scratch() as folder:
            for name in names:
                with open(os.path.join(folder, name + '.yaml'), 'w') as file:
                    file.write('x: 1')
            seen = observe(marsh.config.load, os.path.join(folder, wrong))
    case.note(observed=repr(seen))
    case.check(isinstance(seen.error, Exception), 'a name that does not exist is accepted')
    text = str(seen.error)
    if close:
        case.event('close suggestions')
        case.check(re.search(rf'did you mean "([^"]*/)?{meant}"', text), 'the name that is meant is not suggested')
    else:
        case.check('did you mean' not in text, 'an unrelated name is suggested')


@check.workload(quick=150, thorough=3000)
def components(case):
    """The components of a namespace are documented and selected."""
    rng = case.rng
    names = rng.sample([*TAGS, 'a b', 'x.y', 'é'], rng.choice((1, 2, 3)))

    def make(name, bases, n):
        fields = [(f, rng.choice((int, str, typing.List[int]))) for f in rng.sample(['size', 'rate', 'mode'], n)]
        made = dataclasses.make_dataclass(name, fields, bases=bases, module='nowhere')
        made.__doc__ = ' '.join(rng.choice(WORDS) for _ in range(rng.choice((1, 3, 12)))).replace('(', '').replace(')', '')
        return made

    base = make('Part', (), 0)
    middle = type('Middle', (base,), {'__module__': 'nowhere'})
    spaces = {'first': {}}
    if rng.random() < 0.3:
        # the same base in another one
        spaces['second'] = {}
    try:
        classes = {}
        for space in spaces:
            marsh.namespaces.new(space, base)
        for i, name in enumerate(names):
            cls = make(f'Component{i}', (rng.choice((base, base, middle)),), rng.choice((0, 1, 3)))
            space = rng.choice(list(spaces))
            marsh.namespaces[space].register(cls, name=name)
            classes[name] = spaces[space][name] = cls
        case.note(names=names, spaces={k: list(v) for k, v in spaces.items()})
        case.distinct((tuple(names), tuple(len(c.__doc__) for c in classes.values())))
        schema = marsh.schema.UnmarshalSchema(base)
        text = str(schema)
        case.check(
            text == f'Part(name={" | ".join(f'"{n}"' for n in sorted(names))})',
            'the text does not name the components', text=text,
        )

        def judge(specials):
            case.check(len(specials) == len(names), 'another number of components', observed=specials)
            for name in names:
                found = [s for s in specials if s.value == f'name = "{name}" -> {classes[name].__name__}(...)']
                case.event('components')
                case.check(len(found) == 1, 'a component is not documented', observed=specials, name=name)
                case.check(
                    found[0].description == classes[name].__doc__,
                    'another description of a component', observed=found[0],
                )

        judge(schema.doc_special_fields())
        judge(schema.doc(rng.choice((0, 1, 2))).special_fields)
        holder = dataclasses.make_dataclass('Holder', [('n', int), ('part', base), ('more', typing.List[base])], module='nowhere')
        outer = marsh.schema.UnmarshalSchema(holder)
        doc = outer.doc(2)
        case.event('components of nested fields')
        judge(doc.fields['part'].doc.special_fields)
        for depth in (1, 2, 3):
            width = rng.choice((24, 60, 100))
            help_ = squeeze(marsh.doc.terminal.format_unmarshal_help(
                rng.choice((holder, outer, outer.doc(depth))), depth=depth, width=width,
            ))
            for name in names:
                row = squeeze(f'name = "{name}" -> {classes[name].__name__}(...)' + classes[name].__doc__)
                case.check(
                    help_.count(row) == (depth > 1), 'the components are not part of the help',
                    text=help_, name=name, depth=depth,
                )
            rendered = marsh.doc.terminal.format_unmarshal_fields(base, depth=1, width=width)
            case.check(
                all(len(line) <= width for line in rendered.split('\n')), 'a line is too long', text=rendered,
            )
        for name in names:
            path = marsh.path.escape_field(name)
            fields = dataclasses.fields(classes[name])
            for prefix, start in (('', schema), ('part.', outer), ('more.', outer)):
                seen = start.select(prefix + path)
                case.check(
                    seen.doc_type() == classes[name].__name__
                    and list(seen.doc_fields(1) or ()) == [f.name for f in fields],
                    'another component is selected', path=prefix + path, observed=str(seen),
                )
                for field in fields:
                    seen = start.select(f'{prefix}{path}.{field.name}')
                    wanted = marsh.schema.UnmarshalSchema(field.type).select('')
                    case.check(str(seen) == str(wanted), 'another field of a component is selected', observed=str(seen))
                wrong = observe(start.select, f'{prefix}{path}.nothing')
                case.check(isinstance(wrong.error, marsh.errors.PathError), 'an unknown field is selected')
                wrong = observe(start.select, f'{prefix}nothing')
                case.check(isinstance(wrong.error, marsh.errors.PathError), 'an unknown component is selected')
        if rng.random() < 0.5:
            # the same on the command line
            def program(part: base, n: int):
                raise AssertionError('called')

            name = rng.choice(names)
            call = marsh.main(program)
            with files.scratch() as folder:
                for argv, rows in (
                    (['--help', 'part'], [f'name = "{n}" -> {classes[n].__name__}(...)' for n in names]),
                    (
                        ['--help', f'part.{marsh.path.escape_field(name)}'],
                        [f'{f.name}: ' for f in dataclasses.fields(classes[name])] + [classes[name].__doc__],
                    ),
                ):
                    ran = programs.run(call, argv, folder)
                    case.event('help of components')
                    case.check(
                        ran.code == 0 and all(squeeze(row) in squeeze(ran.out) for row in rows),
                        'the help of a component is incomplete', argv=argv, ran=repr(ran), expected=rows,
                    )
    finally:
        for space in spaces:
            if space in marsh.namespaces:
                del marsh.namespaces[space]
