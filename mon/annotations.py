"""Annotations of the workloads together with their models."""
import marsh

from . import specs


class Add(marsh.annotation.Annotation):
    """A transform that shows the order in which annotations are applied."""

    def __init__(self, n=1):
        self.n = n

    def __call__(self, value):
        return value * 3 + self.n


class Below(marsh.annotation.Annotation):

    def __init__(self, n):
        self.n = n

    def __call__(self, value):
        if not value < self.n:
            raise ValueError('too large')
        return value


class FromWord(marsh.annotation.PreAnnotation):
    WORDS = {'zero': 0, 'one': 1, 'two': 2}

    def __call__(self, element):
        if isinstance(element, str):
            return self.WORDS.get(element, element)
        return element


class Prefix(marsh.annotation.PreAnnotation):

    def __init__(self, prefix):
        self.prefix = prefix

    def __call__(self, element):
        if isinstance(element, str) and not specs.missing(element):
            return self.prefix + element
        return element


def _unless(condition):
    def post(value):
        if not condition(value):
            raise specs.Err()
        return value
    return post


def _from_word(element):
    if isinstance(element, str):
        return FromWord.WORDS.get(element, element)
    return element


def _prefix(prefix):
    def pre(element):
        if isinstance(element, str) and not specs.missing(element):
            return prefix + element
        return element
    return pre


def gen_extra(rng, number):
    """extra, pre model, post model, label"""
    roll = rng.randrange(9)
    if roll == 0:
        return marsh.annotation.Positive, None, _unless(lambda v: v > 0), 'Positive'
    if roll == 1:
        return marsh.annotation.Negative(), None, _unless(lambda v: v < 0), 'Negative'
    if roll == 2:
        return marsh.annotation.Unsigned, None, _unless(lambda v: v >= 0), 'Unsigned'
    if roll == 3:
        n = rng.randrange(5)
        return Add(n), None, (lambda v: v * 3 + n), f'Add({n})'
    if roll == 4:
        n = rng.randrange(1, 50)
        return Below(n), None, _unless(lambda v: v < n), f'Below({n})'
    if roll == 5:
        return FromWord, _from_word, None, 'FromWord'
    if roll == 6:
        return FromWord(), _from_word, None, 'FromWord()'
    if roll == 7:
        p = rng.choice(('1', '-', '2'))
        return Prefix(p), _prefix(p), None, f'Prefix({p})'
    return rng.choice(('doc', 5, int, None)), None, None, 'ignored'


def gen(rng, depth, arity=None):
    """An annotated type: annotations on a number, or on a collection."""
    extras, pre, post, labels = [], [], [], []
    if rng.random() < 0.7:
        inner = rng.choice((specs.PrimS(int), specs.PrimS(int), specs.PrimS(float)))
        for _ in range(arity or rng.choice((1, 1, 2, 3, 4))):
            extra, before, after, label = gen_extra(rng, inner)
            extras.append(extra)
            labels.append(label)
            if before:
                pre.append(before)
            if after:
                post.append(after)
    else:
        inner = specs.SeqS(
            specs.gen_spec(rng, 0),
            rng.choice(('List', 'Sequence', 'Tuple...')),
        )
        extras.append(
            rng.choice(
                (marsh.annotation.Populated, marsh.annotation.Populated()),
            ),
        )
        labels.append('Populated')
        post.append(_unless(lambda v: len(v) > 0))
    return specs.AnnotatedS(inner, extras, pre, post, ', '.join(labels))
