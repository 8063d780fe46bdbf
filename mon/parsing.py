"""Reference models of the parsers, and writers of parseable text."""
from . import specs

BARE_STOP = ',:[](){}\'"\\=+@~ '


class Bad(Exception):
    """The text can not be parsed."""


class Reader:
    """A parser that works with an index into the text."""

    def __init__(self, text):
        self.text = text
        self.i = 0

    @property
    def rest(self):
        return self.text[self.i:]

    def peek(self):
        return self.text[self.i] if self.i < len(self.text) else None

    def space(self):
        while self.peek() is not None and self.peek().isspace():
            self.i += 1

    def end(self, stops):
        """What follows has to be the end or one of the stops."""
        save = self.i
        self.space()
        c = self.peek()
        self.i = save
        if c is not None and c not in stops:
            raise Bad

    def string(self, stops):
        self.space()
        quote = None
        out = []
        if self.peek() in ('"', "'"):
            quote = self.peek()
            self.i += 1
        while True:
            c = self.peek()
            if c is None:
                if quote:
                    raise Bad
                break
            if c == '\\':
                if self.i + 1 >= len(self.text):
                    raise Bad
                out.append(self.text[self.i + 1])
                self.i += 2
                continue
            if quote and c == quote:
                self.i += 1
                break
            if not quote and c in stops:
                break
            out.append(c)
            self.i += 1
        self.end(stops)
        return ''.join(out)

    def terminal(self, stops):
        self.space()
        quoted = self.peek() in ('"', "'")
        text = self.string(stops)
        if quoted or not text:
            return text
        return scalar(text)

    def element(self, stops):
        self.space()
        c = self.peek()
        if c == '{':
            out = self.mapping()
        elif c in ('(', '['):
            out = self.sequence(self.element)
        else:
            return self.terminal(stops)
        self.end(stops)
        return out

    def sequence(self, item):
        close = {'[': ']', '(': ')'}[self.peek()]
        self.i += 1
        out = []
        self.space()
        while self.peek() != close:
            if out:
                if self.peek() != ',':
                    raise Bad
                self.i += 1
            out.append(item(',' + close))
            self.space()
            if self.peek() is None:
                raise Bad
        self.i += 1
        return tuple(out)

    def mapping(self):
        self.i += 1
        out = {}
        self.space()
        while self.peek() != '}':
            if out:
                if self.peek() != ',':
                    raise Bad
                self.i += 1
            key = self.string(':')
            self.space()
            if self.peek() != ':':
                raise Bad
            self.i += 1
            self.space()
            out[key] = self.element(',}')
            self.space()
            if self.peek() is None:
                raise Bad
        self.i += 1
        return out


def scalar(text):
    try:
        return int(text)
    except ValueError:
        pass
    try:
        number = float(text)
    except ValueError:
        pass
    else:
        return int(number) if number.is_integer() else number
    return {'true': True, 'false': False, 'null': None}.get(text.lower(), text)


def element(text):
    reader = Reader(text)
    reader.space()
    if reader.peek() is None:
        return ''
    return reader.element('')


def names(text):
    reader = Reader(text)
    reader.space()
    c = reader.peek()
    if c in ('[', '('):
        out = reader.sequence(reader.string)
        reader.end('')
        return tuple(out)
    out = []
    if c is None:
        raise Bad
    while reader.peek() is not None:
        if out:
            if reader.peek() != ',':
                raise Bad
            reader.i += 1
        out.append(reader.string(','))
        reader.space()
    return tuple(out)


def override(text):
    """(kind, path, value, combine)"""
    reader = Reader(text)
    reader.space()
    delete = reader.peek() == '~'
    if delete:
        reader.i += 1
    path = reader.string('+=@')
    reader.space() if delete else None
    if delete:
        if reader.peek() is not None:
            raise Bad
        return 'delete', path, None, False
    combine = reader.peek() == '+'
    if combine:
        reader.i += 1
    c = reader.peek()
    if c not in ('=', '@'):
        raise Bad
    if c == '@':
        return 'config', path, names(reader.text[reader.i + 1:]), combine
    return 'value', path, element(reader.text[reader.i + 1:]), combine


# -- writers -----------------------------------------------------------------


def write_string(rng, text, stops, bare=True):
    """Text that is read as that string (as a string parser does)."""
    roll = rng.random()
    if bare and roll < 0.5 and text and text[0] not in '"\'' and not text[0].isspace():
        return ''.join(
            '\\' + c if c == '\\' or c in stops or rng.random() < 0.03 else c
            for c in text
        )
    quote = rng.choice('"\'')
    return quote + ''.join(
        '\\' + c if c in (quote, '\\') or rng.random() < 0.03 else c
        for c in text
    ) + quote


def space(rng):
    return rng.choice(('', '', '', ' ', '  ', '\n', '\t'))


def write_element(rng, value, stops=''):
    """Text that is read as that element, in a random notation."""
    if specs.is_map(value):
        items = []
        for key in value:
            text = write_string(rng, key, ':}', bare=bool(key))
            # whitespace after a bare key would be part of it
            after = space(rng) if text[:1] in '"\'' else ''
            items.append(
                space(rng) + text + after + ':' + space(rng)
                + write_element(rng, value[key], ',}'),
            )
        return '{' + ','.join(items) + space(rng) * (not items) + '}' + space(rng)
    if specs.is_seq(value):
        a, b = rng.choice(('[]', '()'))
        items = [
            space(rng) + write_element(rng, item, ',' + b)
            for item in value
        ]
        return a + ','.join(items) + b + space(rng)
    if isinstance(value, str):
        bare = scalar(value) is value if value else False
        if bare and value[:1] in '{[(':
            bare = False
        text = write_string(rng, value, stops, bare)
        return text + (space(rng) if text[:1] in '"\'' else '')
    if value is None or isinstance(value, bool):
        text = {None: 'null', True: 'true', False: 'false'}[value]
        return rng.choice((text, text.upper(), text.capitalize()))
    text = repr(value)
    if isinstance(value, int) and rng.random() < 0.3:
        text = rng.choice((f'+{text}' if value >= 0 else text, f'{value:_}', f'{value}.0' if abs(value) < 2 ** 50 else text, f'{text} '))
    return text


def written(value):
    """What the written element is read as: tuples, integral numbers as int."""
    if specs.is_map(value):
        return {key: written(value[key]) for key in value}
    if specs.is_seq(value):
        return tuple(map(written, value))
    if isinstance(value, float) and not isinstance(value, bool) and value.is_integer():
        return int(value)
    return value


ALPHABET = 'aab01.,,:[](){}"\'\\ =+@~-e_tn\n'
PIECES = (
    'true', 'null', 'False', 'nan', '-inf', '1e3', '1.5', '0x1', '[', ']', '{', '}',
    '(', ')', ',', ':', '"', "'", '\\', ' ', 'a: 1', '{a: 1}', '[1, 2]', '"a b"',
    "'x'", '\\,', '=', '+=', '@', '+@', '~', 'a.b', '1_0', '', '\u00e9', '\u0663', '${a}',
)


def noise(rng):
    n = rng.choice((0, 1, 2, 3, 4, 6, 9, 14))
    if rng.random() < 0.5:
        return ''.join(rng.choice(ALPHABET) for _ in range(n))
    return ''.join(rng.choice(PIECES) for _ in range(n))


def damage(rng, text):
    """A small change of a well-formed text."""
    for _ in range(rng.choice((1, 1, 2, 3))):
        i = rng.randrange(len(text) + 1)
        roll = rng.random()
        if roll < 0.4 and text:
            text = text[:i] + text[i + 1:]
        elif roll < 0.8:
            text = text[:i] + rng.choice(ALPHABET) + text[i:]
        elif text:
            j = rng.randrange(len(text) + 1)
            text = text[:min(i, j)] + text[max(i, j):]
    return text
