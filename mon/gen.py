"""Helpers to draw cases."""
import contextlib
import gc

import marsh

from . import specs


def clear_caches():
    marsh.schema.caches.cache_clear()


def typed_value(case, spec, attempts=5):
    for _ in range(attempts):
        try:
            return spec.value(case.rng)
        except (specs.Err, specs.Unknown):
            continue
    return None


@contextlib.contextmanager
def eager_collector(rng):
    """The garbage collector runs as often as it can."""
    old = gc.get_threshold()
    gc.set_threshold(rng.choice((1, 2, 7)), rng.choice((1, 3)), rng.choice((1, 2)))
    try:
        yield
    finally:
        gc.set_threshold(*old)


def no_value(spec, kinds):
    return any(isinstance(s, kinds) for s in spec.walk())


def draw(case, depth=(1, 2, 2, 3), accept=None, make=None):
    """A random spec that is accepted by a predicate."""
    make = make or specs.gen_spec
    for _ in range(50):
        spec = make(case.rng, case.rng.choice(depth))
        if accept is None or accept(spec):
            return spec
    return specs.PrimS(int)


def draw_element(case, spec, hostility):
    """0: valid, 1..: that many mutations."""
    for _ in range(10):
        try:
            element = spec.element(case.rng)
            break
        except (specs.Err, specs.Unknown):
            continue
    else:
        element = {}
    for _ in range(hostility):
        element = specs.mutate(case.rng, element)
    if case.rng.random() < 0.2:
        element = specs.disguise(case.rng, element)
    return element


def observe_kinds(case, spec):
    for kind in specs.kinds_of(spec):
        case.event(f'type {kind}')


def elements(case, spec, n=6, hostile=(0, 0, 1, 1, 2, 3)):
    """Pairs of (element, number of mutations)."""
    for i in range(n):
        hostility = hostile[i % len(hostile)]
        element = draw_element(case, spec, hostility)
        yield element, hostility
