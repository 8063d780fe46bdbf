"""Reference model of how types are displayed"""
from . import specs


class Unmodelled(Exception):
    pass


def literal(value):
    return f'"{value}"' if isinstance(value, str) else str(value)


def parameters(spec):
    for f in getattr(spec, 'declared', spec.fields):
        yield {'*': '*', '**': '**'}.get(f.kind, '') + f.name, f.spec


def text(spec):
    """The type, with all that it is made of."""
    if isinstance(spec, specs.NoneS):
        return 'None'
    if isinstance(spec, specs.OptS):
        return f'{text(spec.inner)} | None'
    if isinstance(spec, specs.UnionS):
        return ' | '.join(map(text, spec.arms))
    if isinstance(spec, specs.LitS):
        return ' | '.join(map(literal, spec.values))
    if isinstance(spec, specs.EnumS):
        return ' | '.join(member.name for member in spec.t)
    if isinstance(spec, (specs.AnnotatedS, specs.TypeVarS)):
        return text(spec.inner)
    if type(spec) is specs.SeqS:
        return f'[{text(spec.inner)}, ...]'
    if type(spec) is specs.MapS:
        return f'{{{text(spec.key)}: {text(spec.inner)}, ...}}'
    if isinstance(spec, specs.TupleS):
        name = repr(spec.t).replace('typing.', '')
        return name + '(' + ', '.join(f'{i}: {text(s)}' for i, s in enumerate(spec.specs)) + ')'
    if isinstance(spec, specs.StructS):
        return spec.t.__name__ + '(' + ', '.join(
            f'{name}: {text(inner)}' for name, inner in parameters(spec)
        ) + ')'
    return plain(spec)


def field(spec):
    """The type, as it is displayed for a field that has it."""
    if isinstance(spec, specs.NoneS):
        return '<None>'
    if isinstance(spec, specs.OptS):
        return f'{field(spec.inner)} | <None>'
    if isinstance(spec, specs.UnionS):
        return ' | '.join(map(field, spec.arms))
    if isinstance(spec, specs.LitS):
        return ' | '.join(map(literal, spec.values))
    if isinstance(spec, specs.EnumS):
        return ' | '.join(f'"{member.name}"' for member in spec.t)
    if isinstance(spec, (specs.AnnotatedS, specs.TypeVarS)):
        return field(spec.inner)
    if type(spec) is specs.SeqS:
        return f'[{field(spec.inner)}, ...]'
    if type(spec) is specs.MapS:
        return f'{{{field(spec.key)}: {field(spec.inner)}, ...}}'
    if isinstance(spec, specs.TupleS):
        return '[' + ', '.join(map(field, spec.specs)) + ']'
    if isinstance(spec, (specs.StructS, specs.LoggerS)):
        return f'{spec.t.__name__}(...)'
    return plain(spec)


def plain(spec):
    if isinstance(spec, specs.AnyS):
        return '<Any>'
    if isinstance(spec, specs.DateTimeS):
        return '<datetime>'
    if isinstance(spec, (
        specs.PrimS, specs.BytesS, specs.ComplexS, specs.SliceS, specs.LoggerS,
    )):
        return f'<{spec.t.__name__}>'
    raise Unmodelled(spec)
