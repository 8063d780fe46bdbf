"""C25: cached functions return what the function returns"""
import functools
import gc
import itertools
import weakref

import marsh

from ..core import Check
from ..oracles import observe

check = Check(
    'C25',
    scale=8,
    rule=(
        'Random histories of calls (hashable, unhashable, equal arguments of '
        'different types, keyword arguments, failing functions) of functions '
        'and methods that are decorated with every option of utils.cache, '
        'next to functools.lru_cache driven by the same history; hash keys '
        'of random arguments are compared pairwise. Non-trivial: distinct '
        'histories.'
    ),
)
check.require(**{
    'calls': 40000,
    'hits': 5000,
    'unhashable': 1500,
    'failed': 1000,
    'disabled': 1000,
    'methods': 5000,
    'collected': 300,
    'key pairs': 20000,
})

U = marsh.utils


class Boom(Exception):
    pass


def draw_value(rng, unhashable=True):
    n = rng.randrange(3)
    return rng.choice((
        n, n, float(n), bool(n % 2), str(n), None, (n,), (), int, str,
        *(([n], {n: n}) if unhashable else ()),
    ))


def draw_call(rng, unhashable=0.2):
    args = [
        draw_value(rng, rng.random() < unhashable) for _ in range(rng.choice((0, 1, 1, 1, 2)))
    ]
    names = rng.sample(('a', 'b', 'c'), rng.choice((0, 0, 0, 1, 2)))
    return args, {name: draw_value(rng, rng.random() < unhashable) for name in names}


def respelled(rng, args, kwargs):
    """What is close to it: keywords, names and types as arguments."""
    args, kwargs = list(args), dict(kwargs)
    if not kwargs:
        kwargs = {rng.choice("abc"): draw_value(rng, False)}
    names, values = list(kwargs), list(kwargs.values())
    types = [type(v) for v in values]
    kind = rng.randrange(6)
    if kind == 0:
        return args + [v for item in kwargs.items() for v in item], {}
    if kind == 1:
        return args + names + values + types, {}
    if kind == 2:
        return args + [tuple(kwargs.items())], {}
    if kind == 3:
        name = names.pop()
        return args + [name, kwargs.pop(name)], kwargs
    if kind == 4:
        return args + [type(v) for v in args], kwargs
    return args + names, dict(zip('xyz', values))


def typed_state(value):
    return type(value).__name__, repr(value)


class Recorder:

    def __init__(self, rng):
        self.calls = []
        self.fails = {typed_state(draw_value(rng)): rng.choice((Boom, KeyError, ValueError)) for _ in range(rng.choice((0, 1)))}

    def __call__(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        for value in (*args, *kwargs.values()):
            error = self.fails.get(typed_state(value))
            if error:
                raise error
        return (len(self.calls), args, kwargs)


@check.workload(quick=2500, thorough=50000)
def functions(case):
    rng = case.rng
    maxsize = rng.choice((None, None, 0, 1, 2, 3))
    typed = rng.random() < 0.5
    safe = rng.random() < 0.7
    recorder = Recorder(rng)
    reference_recorder = Recorder(rng)
    reference_recorder.fails = recorder.fails

    def function(*args, **kwargs):
        """Its documentation."""
        return recorder(*args, **kwargs)

    options = dict(maxsize=maxsize, typed=typed, safe=safe)
    cached = U.cache(function, **options) if rng.random() < 0.5 else U.cache(**options)(function)
    case.check(
        cached.__wrapped__ is function and cached.__name__ == 'function'
        and cached.__doc__ == 'Its documentation.',
        'the attributes of the function are lost',
    )
    reference = functools.lru_cache(maxsize=maxsize, typed=typed)(reference_recorder)
    history = []
    calls = [draw_call(rng) for _ in range(6)]
    on = True
    for _ in range(rng.choice((5, 20, 40))):
        op = rng.choice(('call',) * 8 + ('clear', 'disable', 'enable', 'enable'))
        if op != 'call':
            history.append(op)
            getattr(cached, f'cache_{op}')()
            if op == 'clear':
                reference.cache_clear()
            else:
                on = op == 'enable'
        else:
            args, kwargs = rng.choice(calls) if rng.random() < 0.8 else draw_call(rng)
            history.append((args, kwargs))
            case.note(options=options, history=history)
            case.event('calls')
            seen = observe(cached, *args, **kwargs)
            if not on:
                case.event('disabled')
                expected = observe(reference_recorder, *args, **kwargs)
            else:
                before = reference.cache_info()
                expected = observe(reference, *args, **kwargs)
                if reference.cache_info().hits > before.hits:
                    case.event('hits')
                if isinstance(expected.error, TypeError):
                    case.event('unhashable')
                    if safe:
                        expected = observe(reference_recorder, *args, **kwargs)
            if expected.error is not None:
                case.event('failed')
            case.check(
                type(seen.error) is type(expected.error) and seen.value == expected.value,
                'another outcome than that of the function or the stored one',
                observed=repr(seen), expected=repr(expected),
            )
            case.check(
                len(recorder.calls) == len(reference_recorder.calls),
                'the function was called too often or not at all',
            )
        info = cached.cache_info()
        expected = reference.cache_info()
        case.check(
            (info.hits, info.misses, info.maxsize, info.currsize) == tuple(expected),
            'the statistics are wrong',
            observed=info, expected=expected, history=history,
        )
        case.check(U.CacheInfo.from_info(info) == tuple(expected), 'CacheInfo.from_info differs')
    case.distinct(repr((options, history)))
    case.sample((options, history[:5]))


@check.workload(quick=2000, thorough=40000)
def methods(case):
    """Bound to objects: their own results, or those of all."""
    rng = case.rng
    binding = rng.choice(('weak', 'weak', 'ignore'))
    options = dict(maxsize=rng.choice((None, None, 1, 3)), typed=rng.random() < 0.5, binding=binding)
    calls = []
    equal = rng.random() < 0.2

    class Thing:

        def __init__(self, n):
            self.n = n

        if equal:
            def __eq__(self, other):
                return isinstance(other, Thing) and self.n % 2 == other.n % 2

            def __hash__(self):
                return self.n % 2

        @U.cache(**options)
        def method(self, *args, **kwargs):
            calls.append((self.n, args, kwargs))
            return (len(calls), self.n % 2 if equal else self.n, args, kwargs)

    reference = functools.lru_cache(maxsize=options['maxsize'], typed=options['typed'])
    results = {}
    current = [None]

    @reference
    def lookup(*args, **kwargs):
        current[0] = 'miss'
        return object()

    things = {}
    history = []
    on = True
    for step in range(rng.choice((5, 20, 40))):
        op = rng.choice(('new', 'drop') + ('call',) * 8 + ('clear', 'disable', 'enable', 'enable'))
        if op in ('disable', 'clear') and rng.random() < 0.5:
            op = 'call'
        history.append(op)
        if op in ('clear', 'disable', 'enable'):
            getattr(Thing.method, f'cache_{op}')()
            if op == 'clear':
                lookup.cache_clear()
                results.clear()
            else:
                on = op == 'enable'
            continue
        if op == 'new' or not things:
            things[step] = Thing(step)
            continue
        n = rng.choice(sorted(things))
        if op == 'drop':
            if equal and binding == 'weak':
                # references to equal objects differ once they are dead
                continue
            ref = weakref.ref(things.pop(n))
            gc.collect(0)
            if ref() is not None:
                gc.collect()
            if binding == 'weak':
                case.event('collected')
                case.check(ref() is None, 'an object is kept alive by the cache')
            continue
        thing = things[n]
        args, kwargs = draw_call(rng)
        history[-1] = (n, args, kwargs)
        case.note(options=options, equal=equal, history=history)
        case.event('calls')
        case.event('methods')
        before = len(calls)
        bound = thing.method
        seen = observe(bound, *args, **kwargs)
        called = len(calls) - before
        case.check(
            called <= 1 and (not called or calls[-1] == (n, tuple(args), kwargs)),
            'the function was called with something else',
            calls=calls[before:],
        )
        fresh = True
        if on:
            current[0] = None
            # stands for the object without keeping it alive
            key = (('key', n % 2 if equal else n),) if binding == 'weak' else ()
            found = observe(lookup, *key, *args, **kwargs)
            if found.error is None:
                fresh = current[0] == 'miss'
                if fresh:
                    results[found.value] = seen.value
                else:
                    case.event('hits')
                    case.check(
                        seen.value == results[found.value],
                        'not the stored result',
                        observed=repr(seen), expected=results[found.value],
                    )
            else:
                case.event('unhashable')
        else:
            case.event('disabled')
        case.check(seen.error is None, 'the call failed', observed=repr(seen))
        case.check(called == fresh, 'the function was called too often or not at all', fresh=fresh)
        if fresh:
            case.check(
                seen.value == (len(calls), n % 2 if equal else n, tuple(args), kwargs),
                'not the result of the function',
                observed=repr(seen),
            )
        info = Thing.method.cache_info()
        expected = lookup.cache_info()
        case.check(
            (info.hits, info.misses, info.currsize)
            == (expected.hits, expected.misses, expected.currsize),
            'the statistics are wrong',
            observed=info, expected=expected,
        )
        thing = bound = None
    case.distinct(repr((options, equal, history)))


@check.workload(quick=400, thorough=8000)
def keys(case):
    """Keys are equal if and only if the arguments are."""
    rng = case.rng
    calls = [draw_call(rng, 0) for _ in range(7)]
    for _ in range(4):
        calls.append(respelled(rng, *rng.choice(calls)))
    for typed, make in ((False, U.make_hash_key), (True, U.make_typed_hash_key)):
        made = [make(*args, **kwargs) for args, kwargs in calls]
        again = [make(*args, **kwargs) for args, kwargs in calls]
        table = {}
        for i, key in enumerate(made):
            table.setdefault(key, []).append(i)
            case.check(key == again[i] and hash(key) == hash(again[i]), 'a key differs from itself')
        for i, j in itertools.combinations(range(len(calls)), 2):
            (args, kwargs), (other, other_kwargs) = calls[i], calls[j]
            same = list(args) == list(other) and list(kwargs.items()) == list(other_kwargs.items())
            if typed and same:
                same = [type(v) for v in (*args, *kwargs.values())] == [
                    type(v) for v in (*other, *other_kwargs.values())
                ]
            case.event('key pairs')
            case.note(typed=typed, calls=(calls[i], calls[j]), keys=(made[i], made[j]))
            case.check((made[i] == made[j]) == same, 'keys are equal although the arguments are not, or the reverse')
            case.check(not (made[i] == made[j]) == (made[i] != made[j]), 'keys are equal and not equal')
            if same:
                case.check(hash(made[i]) == hash(made[j]), 'equal keys have different hashes')
            case.check(
                any(i in found and j in found for found in table.values()) == same,
                'keys do not work in a dict',
            )
    bad = rng.choice(([1], {}, ([],)))
    for make in (U.make_hash_key, U.make_typed_hash_key):
        for call in (lambda: make(bad), lambda: make(1, a=bad)):
            case.check(
                isinstance(observe(call).error, TypeError), 'a key of something that can not be hashed',
            )


@check.workload(quick=100, thorough=1000)
def type_errors(case):
    """Documented: a TypeError of the function itself makes a second attempt."""
    rng = case.rng
    calls = []
    safe = rng.random() < 0.5

    @U.cache(safe=safe)
    def function(x):
        calls.append(x)
        raise TypeError(f'call {len(calls)}')

    for _ in range(3):
        del calls[:]
        seen = observe(function, rng.randrange(3))
        case.check(
            isinstance(seen.error, TypeError) and len(calls) == (2 if safe else 1)
            and str(seen.error) == f'call {len(calls)}',
            'not the error of the function', observed=repr(seen), calls=calls,
        )
    case.check(
        isinstance(observe(U.cache, function, binding='nothing').error, ValueError),
        'an unknown binding is accepted',
    )
