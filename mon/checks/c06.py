"""C06: conversions between scalars are total, exact and strict"""
import base64
import fractions
import itertools

import marsh

from .. import gen, specs
from ..core import Check
from ..oracles import UnmarshalError, expect, judge_unmarshal, observe
from ..values import freeze, same

check = Check(
    'C06',
    scale=10,
    rule=(
        'All pairs of scalar types and a table of notable elements '
        '(exhaustive), random text out of the alphabets of numbers, '
        'booleans and slices, and numbers of any size. Judged by the '
        'reference model and by laws (exactness, inverse functions). '
        'Non-trivial: distinct pairs of type and value that were read.'
    ),
)
check.between = gen.clear_caches
check.require(**{
    'pairs': 3000,
    'model accepts': 1500,
    'model rejects': 1500,
    'numbers': 1000,
    'slices': 400,
})

KINDS = [
    specs.PrimS(int), specs.PrimS(float), specs.PrimS(bool), specs.PrimS(str),
    specs.PrimS(specs.IntSub), specs.PrimS(specs.StrSub),
    specs.PrimS(specs.FloatSub), specs.PrimS(specs.Level),
    specs.PrimS(specs.Tone), specs.NoneS(), specs.NoneS(type(None)),
    specs.BytesS(), specs.ComplexS(), specs.SliceS(),
    specs.EnumS(specs.Plain),
]

TABLE = [
    *specs.WORDS, *specs.INTS, *specs.FLOATS, True, False, None,
    *(w for word in sorted(specs.TRUE | specs.FALSE)
      for w in (word, word.upper(), word.title(), ' ' + word, word + ' ')),
    'NONE', 'none', 'Null', 'NULL', '~', 'nil', 'nan ', '+1', '+', '-', '--1',
    '0x10', '0b1', '1,000', '1 000', '1__0', '_1', '1_', '1e400', '-1e400',
    '1e', 'e1', '.5', '5.', '1.0000000000000001', '1e-5', '1E3', '3.0e0',
    '9007199254740993.0', '123456789012345678901234567890', '-0', '-0.0',
    'Infinity', '-INFINITY', 'NaN', '١٢', '²', '½', '1\n', '\t1',
    2.5, -2.5, 1e308, 9007199254740994.0, 1.0000000000000002,
    specs.IntSub(7), specs.StrSub('8'), specs.FloatSub(9.0),
    specs.LoudStr('5'), specs.LoudStr('yes'), specs.Level.MID, specs.Tone.DARK,
    [], (), {}, [1], ['1'], {'a': 1}, {'real': 1}, [1, 2], [1, 2, 3],
    {'start': 1}, '1:2', ':', '::', '1:2:3', ':::', 'a:b', b'1', specs.Opaque(),
    1 + 2j, specs.MISSING,
]

PAIRS = list(itertools.product(KINDS, TABLE))


@check.workload(quick=len(PAIRS), thorough=len(PAIRS), fixed=True)
def table(case):
    """Exhaustive."""
    spec, element = PAIRS[case.index]
    case.event('pairs')
    outcome = observe(marsh.unmarshal, spec.t, element)
    judge_unmarshal(case, spec, element, outcome, expect(spec.un, element))
    if outcome.error is None:
        case.distinct((spec.label, freeze(outcome.value)))
        case.check(
            spec.conforms(outcome.value),
            'the value is not an instance of the type',
        )
    if isinstance(spec, specs.PrimS) and specs.is_prim(element) and not specs.missing(element):
        other = observe(marsh.utils.cast_primitive, spec.t, element)
        case.note(cast_primitive=repr(other))
        if outcome.error is None:
            case.check(
                other.error is None and same(other.value, outcome.value),
                'cast_primitive differs from unmarshal',
            )
        else:
            case.check(
                isinstance(other.error, (ValueError, OverflowError)),
                'cast_primitive accepts what unmarshal rejects',
            )


ALPHABETS = (
    '0123456789', '0123456789+-._eE', '01+-. eE_', 'infatyINFATY+-',
    'truefalsyTRUEFALSYonNO01 ', '0123456789:- ', 'noneNONE ',
    'abcXYZ019-_=+/',
)


@check.workload(quick=15000, thorough=400000)
def random_text(case):
    rng = case.rng
    spec = rng.choice(KINDS)
    alphabet = rng.choice(ALPHABETS)
    element = ''.join(
        rng.choice(alphabet) for _ in range(rng.choice((1, 1, 2, 3, 4, 6, 9)))
    )
    case.sample((spec, element))
    outcome = observe(marsh.unmarshal, spec.t, element)
    judge_unmarshal(case, spec, element, outcome, expect(spec.un, element))
    if outcome.error is None:
        case.distinct((spec.label, freeze(outcome.value)))


@check.workload(quick=4000, thorough=80000)
def numbers(case):
    """Exactness: no number is read as another one."""
    rng = case.rng
    n = rng.choice((
        rng.randrange(-10, 10),
        rng.getrandbits(rng.choice((30, 53, 54, 63, 64, 65, 200, 1000))),
        2 ** rng.randrange(200) + rng.randrange(-2, 3),
        10 ** rng.randrange(300),
    )) * rng.choice((1, -1))
    case.event('numbers')
    case.distinct(n)
    for form in (n, str(n), f' {n}', f'{n:_}', f'{n}\n'):
        case.note(element=form)
        read = marsh.unmarshal(int, form)
        case.check(
            type(read) is int and read == n,
            'an integer is not read exactly',
            observed=read,
        )
        read = marsh.unmarshal(specs.IntSub, form)
        case.check(
            type(read) is specs.IntSub and read == n,
            'an integer is not read exactly into a subclass',
            observed=read,
        )
    x = rng.choice((
        rng.uniform(-1, 1), rng.uniform(-1e6, 1e6), rng.uniform(-1e18, 1e18),
        float(rng.getrandbits(53)), rng.random() * 10.0 ** rng.randrange(-300, 300),
        float(rng.randrange(1000)), rng.randrange(4000) / 4,
    ))
    for form in (x, repr(x), f'  {x!r} '):
        case.note(element=form)
        read = marsh.unmarshal(float, form)
        case.check(same(read, x), 'a float is not read exactly', observed=read)
        outcome = observe(marsh.unmarshal, int, form)
        exact = fractions.Fraction(x)
        if exact.denominator == 1:
            case.check(
                outcome.error is None
                and type(outcome.value) is int
                and outcome.value == exact.numerator,
                'an integral float is not read as that integer',
                observed=repr(outcome),
            )
        else:
            case.check(
                isinstance(outcome.error, UnmarshalError),
                'a fraction was read as an integer',
                observed=repr(outcome),
            )
    text = marsh.unmarshal(str, n)
    case.check(
        type(text) is str and text == str(n),
        'an integer is not read as its decimal text',
        observed=text,
    )
    case.check(
        marsh.unmarshal(str, x) == str(x),
        'a float is not read as its text',
    )


@check.workload(quick=2000, thorough=30000)
def slices(case):
    """The text of a slice means what it means in python."""
    rng = case.rng
    parts = [rng.choice(('', '', '0', '1', '-1', '5', '-7', '12')) for _ in range(rng.choice((2, 3)))]
    if len(parts) == 3 and parts[2] == '0':
        parts[2] = ''
    text = ':'.join(f' {p} ' if rng.random() < 0.2 else p for p in parts)
    data = list(range(20))
    expected = eval(f'data[{text}]', {'data': data})
    case.event('slices')
    case.note(element=text)
    value = marsh.unmarshal(slice, text)
    case.check(
        type(value) is slice and data[value] == expected,
        'the slice selects something else',
        observed=value,
    )
    case.distinct(text)
    numbers = [int(p) if p.strip() else None for p in parts]
    value = marsh.unmarshal(slice, numbers)
    case.check(
        data[value] == expected,
        'the slice that is read from a sequence selects something else',
        observed=value,
    )
    back = marsh.unmarshal(slice, marsh.marshal(value))
    case.check(same(back, value), 'a slice is not restored', observed=back)


@check.workload(quick=300, thorough=10000)
def binary(case):
    """Bytes are the base64 encoding of themselves, with any content."""
    rng = case.rng
    value = bytes(rng.getrandbits(8) for _ in range(rng.randrange(40)))
    case.note(value=value)
    element = marsh.marshal(value)
    case.check(
        type(element) is str
        and element.rstrip('=') == base64.urlsafe_b64encode(value).decode().rstrip('='),
        'bytes are not marshaled to their url-safe base64 encoding',
        element=element,
    )
    for form in (
        element,
        element.rstrip('='),
        base64.urlsafe_b64encode(value).decode(),
        base64.b64encode(value).decode(),
        base64.b64encode(value).decode().rstrip('='),
    ):
        read = marsh.unmarshal(bytes, form)
        case.check(
            type(read) is bytes and read == value,
            'bytes are not read exactly',
            element=form,
            observed=read,
        )
    case.distinct(value)
