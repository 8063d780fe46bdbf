"""C20: overrides do what they say, one after the other"""
import os

import marsh

from .. import elements, files, parsing, specs
from ..core import Check
from ..oracles import observe
from ..values import freeze, same_element

check = Check(
    'C20',
    scale=8,
    rule=(
        'Overrides (=, +=, @, +@, ~) are written in random notations, and '
        'have to be read as the operation, path and value they were written '
        'from; damaged and random text is compared with a reference parser. '
        'Histories of overrides are applied to random elements and compared '
        'with a fold of the reference model, with config files in a scratch '
        'directory. Non-trivial: distinct texts and distinct results.'
    ),
    assumptions=['Deleting the root (an empty path) is out of scope.'],
)
check.require(**{
    'written': 4000,
    'parsed': 3000,
    'rejected': 3000,
    'applied': 5000,
    'path errors': 500,
    'configs': 500,
    'deleted': 500,
    'behind the last': 150,
})

P = marsh.parse
KINDS = {
    'value': P.SetValue,
    'config': P.SetConfig,
    'delete': P.DeleteValue,
}


def parts(override):
    """(kind, path, value, combine) of an observed override."""
    if type(override) is P.SetValue:
        return 'value', override.path, override.value, override.combine
    if type(override) is P.SetConfig:
        return 'config', override.path, tuple(override.names), override.combine
    if type(override) is P.DeleteValue:
        return 'delete', override.path, None, False
    return (type(override),)


def same_parts(a, b):
    return (
        a[:2] == b[:2]
        and (a[0] == 'config' and a[2] == b[2] or same_element(a[2], b[2]))
        and bool(a[3]) == bool(b[3])
    )


def write_path(rng, path):
    text = parsing.write_string(rng, path, '+=@', bare=bool(path))
    if text.startswith('~'):
        text = '\\' + text
    return text


def write_names(rng, names):
    brackets = rng.random() < 0.3
    a, b = rng.choice(('[]', '()')) if brackets else ('', '')
    out = []
    for name in names:
        text = parsing.write_string(rng, name, ',' + b)
        if text[0] in '[(' and not brackets:
            text = '\\' + text
        out.append(parsing.space(rng) + text)
    return a + ','.join(out) + b


def write(rng, kind, path, value, combine):
    text = parsing.space(rng)
    if kind == 'delete':
        return text + '~' + write_path(rng, path)
    text += write_path(rng, path) + '+' * combine
    if kind == 'config':
        return text + '@' + write_names(rng, value)
    return text + '=' + parsing.space(rng) + parsing.write_element(rng, value)


def judge(case, text, expected):
    outcome = observe(P.override, text)
    case.note(text=text, observed=repr(outcome), expected=expected)
    case.distinct(text)
    if expected is None:
        case.event('rejected')
        case.check(
            isinstance(outcome.error, P.ParseError),
            'text that is no override has to be a ParseError',
        )
        case.check(bool(str(outcome.error).strip()), 'the error has no message')
        return
    case.event('parsed')
    case.check(outcome.error is None, 'the override was rejected')
    case.check(
        same_parts(parts(outcome.value), expected),
        'the text was read as another override',
    )


def rand_path(rng):
    fields = [elements.rand_key(rng) for _ in range(rng.choice((0, 1, 1, 2, 3)))]
    return elements.write(rng, fields)


@check.workload(quick=10000, thorough=250000)
def written(case):
    rng = case.rng
    kind = rng.choice(('value', 'value', 'config', 'delete'))
    path = rand_path(rng)
    combine = kind != 'delete' and rng.random() < 0.4
    value = None
    if kind == 'value':
        value = elements.rand_tree(rng, rng.choice((0, 1, 2)), mixed=False)
    elif kind == 'config':
        value = tuple(
            rng.choice(('a', 'b.yaml', 'd/c', 'x y', 'x,y', '1', "it's", 'a=b', 'a+b', 'é'))
            for _ in range(rng.choice((1, 1, 2, 3)))
        )
    text = write(rng, kind, path, value, combine)
    case.sample(text)
    case.event('written')
    judge(
        case, text,
        (kind, path, parsing.written(value) if kind == 'value' else value, combine),
    )


@check.workload(quick=20000, thorough=500000)
def any_text(case):
    rng = case.rng
    if rng.random() < 0.5:
        kind = rng.choice(('value', 'value', 'config', 'delete'))
        value = {
            'value': lambda: elements.rand_tree(rng, 1, mixed=False),
            'config': lambda: ('a', 'b')[:rng.choice((1, 2))],
            'delete': lambda: None,
        }[kind]()
        text = parsing.damage(rng, write(rng, kind, rand_path(rng), value, rng.random() < 0.4 and kind != 'delete'))
    else:
        text = parsing.noise(rng)
    try:
        expected = parsing.override(text)
    except parsing.Bad:
        expected = None
    judge(case, text, expected)


def pick_path(rng, element):
    """Fields of mostly existing places."""
    places = list(elements.places(element)) if elements.is_container(element) else [()]
    fields = [str(f) for f in rng.choice(places)]
    roll = rng.random()
    if roll < 0.3:
        fields.append(elements.rand_key(rng))
    elif roll < 0.4 and specs.is_seq(element) is False:
        fields += [rng.choice('abc'), rng.choice('012ab')]
    if '' in fields:
        fields = [f for f in fields if f]
    return fields


def load(contents, concatenate=True, keep_meta=False):
    out = contents[0]
    for other in contents[1:]:
        out = elements.merge(out, other, concatenate)
    if not keep_meta and specs.is_map(out):
        out = {key: out[key] for key in out if key != '_meta_'}
    return out


def behind(rng, element, fields=()):
    """The place behind the last one of some sequence, if there is any."""
    places = []

    def visit(value, at):
        if specs.is_seq(value):
            places.append([*at, str(len(value))])
            for i, item in enumerate(value):
                visit(item, [*at, str(i)])
        elif specs.is_map(value):
            for key in value:
                if isinstance(key, str) and key:
                    visit(value[key], [*at, key])
    visit(element, [])
    return rng.choice(places) if places else None


@check.workload(quick=2500, thorough=60000)
def histories(case):
    rng = case.rng
    with files.scratch() as folder:
        stored = {}

        def config():
            name = f'c{len(stored)}{rng.choice(files.EXTENSIONS)}'
            sub = rng.choice(('', '', 'sub/'))
            content = files.jsonable(rng, 2)
            if rng.random() < 0.2:
                content = {'_meta_': 1, 'a': content}
            files.save(os.path.join(folder, sub + name), content, rng)
            key = sub + (name if rng.random() < 0.5 else os.path.splitext(name)[0])
            stored[key] = content
            return key

        element = marsh.MISSING if rng.random() < 0.5 else elements.rand_tree(rng, 2)
        if specs.is_seq(element) and rng.random() < 0.5:
            element = marsh.MISSING
        model = element
        trace = []
        keep = rng.random() < 0.5
        for _ in range(rng.choice((1, 2, 4, 8))):
            fields = pick_path(rng, model)
            if rng.random() < 0.15 and elements.is_container(model):
                fields = behind(rng, model) or fields
                case.event('behind the last', specs.is_seq(model))
            path = elements.write(rng, fields)
            fields = list(elements.fields_of(path))
            kind = rng.choice(('value', 'value', 'value', 'config', 'delete'))
            combine = kind != 'delete' and rng.random() < 0.4
            if kind == 'delete' and not fields:
                continue
            value = wanted = None
            if kind == 'value':
                value = elements.rand_tree(rng, rng.choice((0, 0, 1, 2)), mixed=False)
                wanted = parsing.written(value)
            elif kind == 'config':
                value = tuple(
                    rng.choice(list(stored)) if stored and rng.random() < 0.4 else config()
                    for _ in range(rng.choice((1, 1, 2)))
                )
                wanted = load([stored[n] for n in value], keep_meta=keep)
                case.event('configs')
            text = write(rng, kind, path, value, combine)
            trace.append(text)
            case.note(trace=trace, fields=fields, before=model)
            override = observe(P.override, text)
            case.check(override.error is None, 'the override was rejected', observed=repr(override))
            try:
                if kind == 'delete':
                    case.event('deleted')
                    if not elements.is_container(model):
                        raise elements.PathErr
                    result, failed = elements.remove(model, fields), False
                else:
                    result, failed = elements.override(model, wanted, fields, combine), False
            except elements.PathErr:
                result, failed = None, True
            image = elements.image(element) if element is not marsh.MISSING else None
            outcome = observe(override.value.apply, element, root=folder, keep_meta=keep)
            case.note(observed=repr(outcome), expected=result)
            if image is not None:
                case.check(
                    elements.image(element) == image,
                    'an override changed its input',
                )
            if failed:
                case.event('path errors')
                case.check(
                    isinstance(outcome.error, marsh.errors.PathError),
                    'a place that can not exist has to be a PathError',
                )
                continue
            case.event('applied')
            case.check(outcome.error is None, 'the override could not be applied')
            case.check(
                same_element(outcome.value, result),
                'the override has an unexpected result',
            )
            case.distinct(freeze(outcome.value))
            element, model = outcome.value, result
