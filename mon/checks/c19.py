"""C19: what is written for the parser is what it reads"""
import json

import marsh

from .. import elements, parsing, specs
from ..core import Check
from ..oracles import observe
from ..values import freeze, is_element, same_element

check = Check(
    'C19',
    scale=6,
    rule=(
        'Random elements are written in random notations (quotes, escapes, '
        'brackets, whitespace, as JSON) and have to be read again as the same '
        'element; well-formed, damaged and random texts are compared with '
        'an independent reference parser; whatever is read is a plain '
        'element. Non-trivial: distinct texts.'
    ),
    assumptions=['The nesting of the text fits the stack.'],
)
check.require(**{
    'written': 4000,
    'json': 1000,
    'parsed': 5000,
    'rejected': 3000,
    'strings': 2000,
    'names': 1000,
})

P = marsh.parse


def judge(case, text, outcome, expected):
    """`expected` is None if the text has to be rejected."""
    case.note(text=text, observed=repr(outcome), expected='rejected' if expected is None else repr(expected[0]))
    case.distinct(text)
    if expected is None:
        case.event('rejected')
        case.check(
            isinstance(outcome.error, P.ParseError),
            'malformed text has to be a ParseError',
        )
        message = observe(str, outcome.error)
        case.check(
            message.error is None and message.value.strip(),
            'the error has no message',
        )
    else:
        case.event('parsed')
        case.check(outcome.error is None, 'well-formed text was rejected')
        case.check(
            same_element(outcome.value, expected[0]),
            'the text was read as something else',
        )


def attempt(fn, *args):
    try:
        return (fn(*args),)
    except parsing.Bad:
        return None


def key(rng):
    return elements.rand_key(rng) if rng.random() < 0.7 else specs.text(rng)


def value(rng):
    element = elements.rand_tree(rng, rng.choice((0, 1, 2, 3)), keys=key, mixed=False)
    return element


@check.workload(quick=20000, thorough=500000)
def written(case):
    rng = case.rng
    element = value(rng)
    text = parsing.write_element(rng, element)
    text = parsing.space(rng) + text
    case.sample(text)
    expected = parsing.written(element)
    case.note(element=element, text=text, expected=expected)
    outcome = observe(P.element, text)
    case.event('written')
    case.distinct(text)
    case.check(outcome.error is None, 'written text was rejected', observed=repr(outcome))
    case.check(
        same_element(outcome.value, expected),
        'the element is not restored from its text',
        observed=repr(outcome),
    )
    case.check(
        is_element(outcome.value), 'not a plain element', observed=repr(outcome),
    )
    # also as the value of an override
    outcome = observe(P.override, f'key={text}')
    case.check(
        outcome.error is None and same_element(outcome.value.value, expected)
        and outcome.value.path == 'key',
        'the element is not restored from the value of an override',
        observed=repr(outcome),
    )


@check.workload(quick=6000, thorough=150000)
def json_text(case):
    rng = case.rng
    element = value(rng)

    def plain(item):
        if specs.is_map(item):
            return {k: plain(item[k]) for k in item}
        if specs.is_seq(item):
            return [plain(i) for i in item]
        return item

    element = plain(element)
    text = json.dumps(element, ensure_ascii=False, separators=rng.choice((None, (',', ':'), (',  ', ':\n'))))
    # the parser only knows escaped characters, no escape sequences
    if any(ord(c) < 32 and c not in '\n\t' for c in text) or any(
        f'\\{c}' in text.replace('\\\\', '') for c in 'nrtbfu'
    ):
        return
    case.note(text=text)
    expected = parsing.written(element)
    outcome = observe(P.element, text)
    case.event('json')
    case.distinct(text)
    case.check(
        outcome.error is None and same_element(outcome.value, expected),
        'the element is not restored from JSON',
        observed=repr(outcome), expected=expected,
    )


@check.workload(quick=30000, thorough=800000)
def any_text(case):
    rng = case.rng
    if rng.random() < 0.5:
        text = parsing.damage(rng, parsing.write_element(rng, value(rng)))
    else:
        text = parsing.noise(rng)
    expected = attempt(parsing.element, text)
    outcome = observe(P.element, text)
    judge(case, text, outcome, expected)
    if outcome.error is None:
        case.check(is_element(outcome.value), 'not a plain element')
        again = observe(P.element, text)
        case.check(
            again.error is None and freeze(again.value) == freeze(outcome.value),
            'the same text was read differently',
        )


@check.workload(quick=12000, thorough=300000)
def strings(case):
    """A string that is written with quotes or escapes is restored."""
    rng = case.rng
    wanted = specs.text(rng) if rng.random() < 0.5 else parsing.noise(rng)
    stops = rng.choice(('', ',', ':', ',]', '+=@', '}'))
    text = parsing.write_string(rng, wanted, stops)
    tail = rng.choice(stops) + parsing.noise(rng) if stops and rng.random() < 0.5 else ''
    case.note(string=wanted, text=text, stops=stops, tail=tail)
    case.event('strings')
    case.distinct(text)
    source = list(text + tail)
    outcome = observe(P.string, source, terminal_chars=stops)
    case.check(
        outcome.error is None and outcome.value == wanted,
        'the string is not restored',
        observed=repr(outcome),
    )
    case.check(
        ''.join(source) == tail,
        'more or less than the string was consumed',
        remaining=''.join(source),
    )


@check.workload(quick=12000, thorough=300000)
def names(case):
    rng = case.rng
    if rng.random() < 0.6:
        wanted = [
            rng.choice(('a', 'b.yaml', 'dir/c', 'd e', "it's", 'x,y', '[z]', '\\', 'é', '1', 'true'))
            for _ in range(rng.choice((1, 1, 2, 3)))
        ]
        stops = ','
        brackets = rng.random() < 0.4
        if brackets:
            a, b = rng.choice(('[]', '()'))
            stops += b
        parts = []
        for name in wanted:
            part = parsing.write_string(rng, name, stops)
            if part[0] in '[(' and not brackets:
                part = '\\' + part
            parts.append(parsing.space(rng) + part)
        text = ','.join(parts)
        if brackets:
            text = a + text + b
        expected = (tuple(wanted),)
        if rng.random() < 0.3:
            text = parsing.damage(rng, text)
            expected = attempt(parsing.names, text)
    else:
        text = parsing.noise(rng)
        expected = attempt(parsing.names, text)
    case.event('names')
    outcome = observe(P.config_names, text)
    if outcome.error is None:
        outcome.value = tuple(outcome.value)
    judge(case, text, outcome, expected)
