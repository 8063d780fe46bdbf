"""C24: the containers keep what plain ones would keep"""
import collections
import gc
import typing
import weakref

import marsh

from .. import gen
from ..core import Check
from ..oracles import observe

check = Check(
    'C24',
    scale=6,
    rule=(
        'Random histories of operations on the containers of marsh.utils '
        '(SafeDict, ValueCache, WeakTypeCache, IterableFromIterator, '
        'SingletonMeta, CachePool) with hashable and unhashable keys that '
        'are equal to each other in many ways, next to a plain model; the '
        'complete state is compared after each operation. Non-trivial: '
        'distinct histories.'
    ),
    assumptions=['Keys are equal to themselves and do not change.'],
)
check.require(**{
    'operations': 30000,
    'unhashable keys': 5000,
    'deleted': 2000,
    'cache hits': 3000,
    'collected types': 500,
    'iterations': 2000,
})

U = marsh.utils


class Items(list):
    pass


class Key:
    """Equal by content, with collisions of the hash."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Key) and self.n == other.n

    def __hash__(self):
        return self.n % 2

    def __repr__(self):
        return f'Key({self.n})'


def draw_key(rng):
    roll = rng.randrange(10)
    n = rng.randrange(4)
    if roll < 4:
        return rng.choice((n, float(n), bool(n % 2), str(n), None, int, str, Key(n), (n,), frozenset({n})))
    if roll < 5:
        return (n, ())
    return rng.choice((
        lambda: [n], lambda: [float(n)], lambda: {n}, lambda: {'a': n},
        lambda: bytearray([n]), lambda: ([n],), lambda: [], lambda: [[n]],
        # equal to others, but of another type
        lambda: Items([n]), lambda: collections.OrderedDict(a=n),
        lambda: collections.deque([n]), lambda: collections.Counter(a=n),
    ))()


def hashable(key):
    try:
        hash(key)
        return True
    except TypeError:
        return False


class Model:
    """A list of pairs, equal keys are the same if both can be hashed or
    both can not."""

    def __init__(self, typed=False):
        self.items = []
        self.typed = typed

    def find(self, key):
        for i, (k, _) in enumerate(self.items):
            if (
                hashable(k) == hashable(key) and k == key
                and (not self.typed or type(k) is type(key))
            ):
                return i
        return None

    def set(self, key, value):
        i = self.find(key)
        if i is None:
            self.items.append((key, value))
        else:
            self.items[i] = (self.items[i][0], value)


@check.workload(quick=2500, thorough=50000)
def safe_dict(case):
    rng = case.rng
    d, model = U.SafeDict(), Model()
    history = []
    for step in range(rng.choice((3, 8, 20, 40))):
        key = rng.choice(model.items)[0] if model.items and rng.random() < 0.4 else draw_key(rng)
        op = rng.choice(('set', 'set', 'set', 'get', 'del', 'pop', 'default', 'popitem', 'clear', 'update'))
        if op == 'clear' and rng.random() < 0.7:
            op = 'set'
        history.append((op, key))
        case.note(history=history)
        case.event('operations')
        if not hashable(key):
            case.event('unhashable keys')
        i = model.find(key)
        if op == 'set':
            d[key] = step
            model.set(key, step)
        elif op == 'get':
            seen = observe(lambda: d[key])
            judge_key(case, seen, i, lambda: model.items[i][1])
            case.check(
                d.get(key, 'none') == (model.items[i][1] if i is not None else 'none'),
                'get returned something else',
            )
        elif op == 'del':
            def delete():
                del d[key]
            judge_key(case, observe(delete), i, lambda: None)
            if i is not None:
                case.event('deleted')
                del model.items[i]
        elif op == 'pop':
            judge_key(case, observe(d.pop, key), i, lambda: model.items[i][1])
            if i is not None:
                case.event('deleted')
                del model.items[i]
        elif op == 'default':
            seen = d.setdefault(key, step)
            if i is None:
                model.set(key, step)
            case.check(seen == model.items[model.find(key)][1], 'setdefault returned something else')
        elif op == 'popitem':
            seen = observe(d.popitem)
            if not model.items:
                case.check(isinstance(seen.error, KeyError), 'popitem of an empty container')
            else:
                case.check(
                    seen.error is None and seen.value in model.items,
                    'popitem returned something else',
                    observed=repr(seen),
                )
                del model.items[model.find(seen.value[0])]
        elif op == 'update':
            d.update([(key, step), (step, 'u')])
            model.set(key, step)
            model.set(step, 'u')
        else:
            d.clear()
            model.items.clear()
        keys = [k for k, _ in model.items]
        case.check(len(d) == len(keys), 'the size is wrong', observed=len(d), expected=keys)
        case.check(list(d) == keys, 'the keys or their order are wrong', observed=list(d), expected=keys)
        case.check(
            list(reversed(d)) == keys[::-1], 'the reversed order is wrong',
            observed=list(reversed(d)), expected=keys,
        )
        case.check(list(d.items()) == model.items, 'the items are wrong', expected=model.items)
        other = draw_key(rng)
        case.check((other in d) == (model.find(other) is not None), 'membership is wrong', key=other)
    case.distinct(repr(history))
    case.sample(history[:8])


def judge_key(case, seen, i, value):
    if i is None:
        case.check(
            isinstance(seen.error, KeyError), 'an absent key has to be a KeyError',
            observed=repr(seen),
        )
    else:
        case.check(
            seen.error is None and seen.value == value(),
            'a key that is present is not found',
            observed=repr(seen),
        )


@check.workload(quick=2000, thorough=40000)
def value_cache(case):
    rng = case.rng
    typed = rng.random() < 0.5
    pool = U.CachePool()
    if typed:
        cache = U.ValueCache(typed=True)
        pool.add('the cache', cache)
    else:
        cache = pool.new_value_cache('the cache')
    case.check(pool['the cache'] is cache and list(pool) == ['the cache'] and len(pool) == 1, 'not in the pool')
    model = Model(typed)
    hits = misses = 0
    disabled = False
    history = []
    for step in range(rng.choice((5, 15, 40))):
        key = rng.choice(model.items)[0] if model.items and rng.random() < 0.4 else draw_key(rng)
        op = rng.choice(('set', 'set', 'get', 'get', 'del', 'clear', 'disable', 'enable', 'enable'))
        if op in ('clear', 'disable') and rng.random() < 0.7:
            op = 'get'
        history.append((op, key))
        case.note(typed=typed, history=history)
        case.event('operations')
        if not hashable(key):
            case.event('unhashable keys')
        i = model.find(key)
        if op == 'set':
            cache[key] = step
            if not disabled:
                model.set(key, step)
        elif op == 'get':
            seen = observe(lambda: cache[key])
            if disabled:
                case.check(isinstance(seen.error, KeyError), 'a disabled cache returned a value')
            else:
                judge_key(case, seen, i, lambda: model.items[i][1])
                if i is None:
                    misses += 1
                else:
                    hits += 1
                    case.event('cache hits')
        elif op == 'del':
            def delete():
                del cache[key]
            judge_key(case, observe(delete), i, lambda: None)
            if i is not None:
                case.event('deleted')
                del model.items[i]
        elif op == 'clear':
            rng.choice((cache, pool)).cache_clear()
            model.items.clear()
            hits = misses = 0
        elif op == 'disable':
            rng.choice((cache, pool)).cache_disable()
            disabled = True
        else:
            rng.choice((cache, pool)).cache_enable()
            disabled = False
        case.check(len(cache) == len(model.items), 'the size is wrong', observed=len(cache))
        info = cache.cache_info()
        case.check(
            (info.hits, info.misses, info.currsize) == (hits, misses, len(model.items))
            and pool.cache_info() == {'the cache': info},
            'the statistics are wrong',
            observed=info, expected=(hits, misses, len(model.items)),
        )
    case.distinct(repr(history))


@check.workload(quick=800, thorough=16000)
def weak_types(case):
    rng = case.rng
    skip = [int, type('Skipped', (), {})]
    cache = U.WeakTypeCache(skip_types=rng.choice((skip, tuple(skip), set(skip), iter(skip))))
    alive, order, dead = {}, [], []
    history = []
    for step in range(rng.choice((5, 15, 40))):
        op = rng.choice(('new', 'new', 'again', 'drop', 'other', 'clear'))
        if op == 'clear' and rng.random() < 0.7:
            op = 'new'
        history.append(op)
        case.note(history=history)
        case.event('operations')
        if op == 'new':
            name = f'T{step}'
            alive[name] = type(rng.choice((name, 'Same')), (), {'n': name})
            cache.add(alive[name])
            order.append(name)
        elif op == 'again' and alive:
            name = rng.choice(sorted(alive))
            cache.add(alive[name])
            if name in order:
                order.remove(name)
            order.append(name)
        elif op == 'drop' and alive:
            name = rng.choice(sorted(alive))
            dead.append(weakref.ref(alive.pop(name)))
            if name in order:
                order.remove(name)
            gc.collect(0)
            gc.collect(1)
            if dead[-1]() is not None:
                gc.collect()
            case.event('collected types')
            case.check(dead[-1]() is None, 'a type is kept alive by the cache')
        elif op == 'other':
            cache.add(rng.choice((*skip, typing.List[int], typing.Optional[int], list[int])))
        elif op == 'clear':
            cache.clear()
            order.clear()
        seen = [t.n for t in cache]
        case.check(seen == order[::-1], 'the types or their order are wrong', observed=seen, expected=order[::-1])
        case.check(len(cache) == len(order), 'the size is wrong')
        case.check(
            all((t in cache) == (name in order) for name, t in alive.items())
            and not any(t in cache for t in skip),
            'membership is wrong',
        )
        # types may be added and removed while iterating
        if order and rng.random() < 0.2:
            seen = []
            for t in cache:
                seen.append(t.n)
                cache.add(t)
            case.check(seen == order[::-1], 'adding types while iterating changes the iteration')
            order.reverse()
        t = None
    case.distinct(tuple(history))


@check.workload(quick=100, thorough=2000)
def collected_types(case):
    """Types vanish at any time."""
    rng = case.rng
    cache = U.WeakTypeCache()
    kept = []
    with gen.eager_collector(rng):
        for step in range(40):
            cls = type('T', (), {'n': step})
            cache.add(cls)
            if rng.random() < 0.4:
                kept.append(cls)
            if rng.random() < 0.1 and kept:
                again = rng.choice(kept)
                kept.remove(again)
                kept.append(again)
                # which is the most recent one now
                cache.add(again)
            del cls
            seen = observe(lambda: [t.n for t in cache])
            case.event('iterations')
            case.check(seen.error is None, 'the iteration failed', observed=repr(seen))
            mine = {t.n for t in kept}
            case.check(
                [n for n in seen.value if n in mine] == [t.n for t in reversed(kept)],
                'the types that are kept are not those that were added',
                observed=seen.value,
            )
    case.distinct(tuple(seen.value))


@check.workload(quick=1000, thorough=20000)
def iterators(case):
    """Interleaved iterations in one thread."""
    rng = case.rng
    n = rng.choice((0, 1, 2, 5, 9))
    infinite = rng.random() < 0.2
    produced = []

    def source():
        i = 0
        while infinite or i < n:
            produced.append(i)
            yield i
            i += 1

    shared = U.IterableFromIterator(source())
    case.check(not produced, 'items are produced before they are needed')
    running, seen = [], []
    history = []
    for _ in range(rng.choice((5, 20, 40))):
        op = rng.choice(('new', 'next', 'next', 'next', 'bool', 'list'))
        if op == 'list' and (infinite or rng.random() < 0.7):
            op = 'next'
        history.append(op)
        case.note(n=n, infinite=infinite, history=history)
        case.event('operations')
        if op == 'new':
            running.append(iter(shared))
            seen.append(0)
        elif op == 'next' and running:
            i = rng.randrange(len(running))
            item = next(running[i], None)
            case.event('iterations')
            if not infinite and seen[i] >= n:
                case.check(item is None, 'an iteration does not end')
            else:
                case.check(item == seen[i], 'an iteration misses or repeats items', observed=item)
                seen[i] += 1
        elif op == 'bool':
            case.check(bool(shared) == (infinite or n > 0), 'the truth value is wrong')
            if produced == [] and (infinite or n):
                case.fail('the truth value was guessed')
        elif op == 'list':
            case.check(list(shared) == list(range(n)), 'an iteration misses or repeats items')
        case.check(
            produced == list(range(len(produced)))
            and len(produced) <= max([1, *seen]) or not infinite and len(produced) <= n,
            'items are produced more than once or too early',
            produced=produced,
        )
    case.distinct((n, infinite, tuple(history)))


@check.workload(quick=300, thorough=6000)
def singletons(case):
    rng = case.rng
    calls = []

    class One(metaclass=U.SingletonMeta):
        def __init__(self, *args):
            calls.append((type(self).__name__, args))

    class Two(One):
        pass

    class Other(metaclass=U.SingletonMeta):
        pass

    classes = [One, Two, Other]
    held = {}
    for _ in range(rng.choice((3, 10, 20))):
        cls = rng.choice(classes)
        case.event('operations')
        if rng.random() < 0.3:
            held.pop(cls, None)
            gc.collect(0)
            continue
        instance = cls() if cls is Other else cls(len(calls))
        case.check(type(instance) is cls, 'an instance of another class')
        if cls in held:
            case.check(instance is held[cls], 'a second instance while the first one is in use')
        held[cls] = instance
        instance = None
    case.check(len({id(v) for v in held.values()}) == len(held), 'classes share an instance')


@check.workload(quick=600, thorough=12000)
def pools(case):
    """A pool manages its caches, and nothing else."""
    rng = case.rng
    pools_ = [U.CachePool(), U.CachePool()]
    caches = [{}, {}]
    history = []
    calls = []
    for step in range(rng.choice((5, 15, 30))):
        i = rng.randrange(2)
        pool = pools_[i]
        op = rng.choice(('add', 'use', 'use', 'use', 'clear', 'disable', 'enable', 'one'))
        history.append((i, op))
        case.note(history=history)
        case.event('operations')
        if op == 'add':
            name = rng.choice(('a', 'b', 'c', 'd'))

            def fn(x):
                calls.append(x)
                return object()

            if rng.random() < 0.5:
                wrapped = pool.new_callable_cache(fn, name=name)
            else:
                wrapped = pool.new_callable_cache(name=name, maxsize=None)(fn)
            caches[i][name] = {'fn': wrapped, 'stored': {}, 'on': True, 'hits': 0, 'misses': 0}
            case.check(pool[name].cache_info() == U.CacheInfo(0, 0, None, 0), 'a new cache is not empty')
        elif op == 'use' and caches[i]:
            cache = caches[i][rng.choice(sorted(caches[i]))]
            x = rng.randrange(3)
            before = len(calls)
            value = cache['fn'](x)
            called = len(calls) - before
            if not cache['on']:
                case.check(called == 1, 'a disabled cache is used')
            elif x in cache['stored']:
                case.event('cache hits')
                cache['hits'] += 1
                case.check(value is cache['stored'][x] and not called, 'a stored value is not returned')
            else:
                cache['misses'] += 1
                case.check(called == 1, 'a value that is not stored is not computed once')
                cache['stored'][x] = value
        elif op == 'one' and caches[i]:
            name = rng.choice(sorted(caches[i]))
            pool[name].cache_clear()
            caches[i][name].update(stored={}, hits=0, misses=0)
        elif op in ('clear', 'disable', 'enable'):
            getattr(pool, f'cache_{op}')()
            for cache in caches[i].values():
                if op == 'clear':
                    cache.update(stored={}, hits=0, misses=0)
                else:
                    cache['on'] = op == 'enable'
        for pool, known in zip(pools_, caches):
            case.check(
                sorted(pool) == sorted(known) and len(pool) == len(known),
                'the pool misses a cache',
            )
            info = pool.cache_info()
            for name, cache in known.items():
                case.check(
                    (info[name].hits, info[name].misses, info[name].currsize)
                    == (cache['hits'], cache['misses'], len(cache['stored'])),
                    'the statistics are wrong',
                    observed=info, name=name,
                )
    case.distinct(tuple(history))
