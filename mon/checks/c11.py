"""C11: threads do not influence each other"""
import gc
import sys
import threading
import typing

import marsh

from .. import gen, recursive, refmarshal, specs
from ..core import Check
from ..oracles import expect, judge_unmarshal, observe
from ..schedule import Deadlock, Schedule
from ..values import same, same_element

check = Check(
    'C11',
    rule=(
        'Two to four threads use the same, new types (first uses, held '
        'schemas, recursive types, documentation, marshaling, cleared '
        'caches). A scheduler lets one thread run at a time and switches '
        'at lines or bytecode instructions of marsh that a seeded generator picks, so that '
        'an interleaving can be replayed; further runs leave it to the '
        'interpreter with a tiny switch interval. Every outcome is compared '
        'with the reference model. Non-trivial: distinct interleavings '
        '(sequences of switches).'
    ),
    assumptions=[
        'Registering schemas or components happens before, or concerns '
        'types that no other thread is using at that time.',
    ],
)
check.between = gen.clear_caches
check.require(**{
    'outcomes': 1500,
    'switches': 5000,
    'first uses': 200,
    'held schemas': 200,
    'iterations': 500,
    'documents': 100,
    'absent keys': 400,
    'registrations': 100,
})


class Op:
    """One call of a thread and what is expected of it."""

    def __init__(self, name, call, judge):
        self.name = name
        self.call = call
        self.judge = judge


def op_unmarshal(case, spec, element, held=None):
    expected = expect(spec.un, element)
    if held is None:
        def call():
            return observe(marsh.unmarshal, spec.t, element)
    else:
        def call():
            return observe(held.unmarshal, element)

    def judge(outcome):
        judge_unmarshal(case, spec, element, outcome, expected)
    name = 'unmarshal' if held is None else 'held'
    return Op(f'{name} {spec.label} {element!r:.200}', call, judge)


def op_marshal(case, value):
    try:
        expected = refmarshal.marshal(value)
    except refmarshal.NotSupported:
        return None

    def judge(outcome):
        case.check(
            outcome.error is None and same_element(outcome.value, expected),
            'marshaled to an unexpected element',
            observed=repr(outcome),
            expected=expected,
        )
    return Op('marshal', lambda: observe(marsh.marshal, value), judge)


def op_doc(case, spec, alone=True):
    def document():
        schema = marsh.schema.UnmarshalSchema(spec.t)
        return str(schema), schema.doc(3), repr(schema)

    def call():
        return observe(document)

    def judge(outcome):
        case.check(outcome.error is None, 'no documentation', observed=repr(outcome))
        if alone:
            # mutually recursive types depend on the order of use
            marsh.schema.caches.cache_clear()
            marsh.schema.UnmarshalSchema.cache_clear()
            case.event('documents')
            case.check(
                outcome.value[:2] == document()[:2],
                'a thread got another documentation than it gets alone',
                observed=repr(outcome), alone=repr(document()),
            )
    return Op(f'doc {spec.label}', call, judge)


def op_caches(case):
    rng = case.rng
    call = rng.choice((
        marsh.schema.caches.cache_clear,
        marsh.schema.UnmarshalSchema.cache_clear,
        marsh.schema.caches.cache_info,
        marsh.schema.UnmarshalSchema.cache_info,
        lambda: gc.collect(0),
    ))

    def judge(outcome):
        case.check(outcome.error is None, 'the caches can not be managed', observed=repr(outcome))
    return Op('caches', lambda: observe(call), judge)


def types_of(case):
    """Types no thread has used before."""
    rng = case.rng
    if rng.random() < 0.4:
        module = recursive.Module(rng).build()
        types_ = [module.specs[n] for n in module.classes]
        return module, types_, lambda s: recursive.element(rng, s, rng.choice((1, 2, 3)))
    types_ = [gen.draw(case, depth=(1, 2)) for _ in range(rng.choice((1, 2)))]
    return None, types_, lambda s: gen.draw_element(case, s, 0)


def plan(case):
    rng = case.rng
    module, types_, draw = types_of(case)
    held = {}
    jobs = []
    for _ in range(rng.choice((2, 2, 3, 4))):
        ops = []
        for _ in range(rng.choice((1, 2, 3))):
            spec = rng.choice(types_)
            roll = rng.random()
            if roll < 0.62:
                element = draw(spec)
                if rng.random() < 0.3:
                    element = specs.mutate(rng, element)
                schema = None
                if rng.random() < 0.35:
                    i = types_.index(spec)
                    if i not in held:
                        held[i] = marsh.schema.UnmarshalSchema(spec.t)
                    schema = held[i]
                    case.event('held schemas')
                else:
                    case.event('first uses')
                ops.append(op_unmarshal(case, spec, element, schema))
            elif roll < 0.74 and module is None:
                value = gen.typed_value(case, spec)
                op = op_marshal(case, value)
                if op is not None:
                    ops.append(op)
            elif roll < 0.86:
                ops.append(op_doc(case, spec, module is None))
            else:
                ops.append(op_caches(case))
        jobs.append(ops)
    return module, types_, jobs


def settle(case, jobs, results):
    for ops, (kind, value) in zip(jobs, results):
        case.check(kind == 'value', 'a thread failed', error=repr(value))
        for op, outcome in zip(ops, value):
            case.event('outcomes')
            case.note(call=op.name)
            op.judge(outcome)


def run_ops(ops):
    return lambda: [op.call() for op in ops]


@check.workload(quick=350, thorough=7000)
def schedules(case):
    rng = case.rng
    module, types_, jobs = plan(case)
    try:
        if rng.random() < 0.6:
            marsh.schema.caches.cache_clear()
            marsh.schema.UnmarshalSchema.cache_clear()
        case.note(
            types=types_,
            jobs=[[op.name for op in ops] for ops in jobs],
            source=module.text if module else None,
        )
        schedule = Schedule(
            rng,
            p=rng.choice((0.003, 0.02, 0.1, 0.4)),
            opcodes=rng.random() < 0.3,
        )
        try:
            results = schedule.run([run_ops(ops) for ops in jobs])
        except Deadlock as err:
            case.fail(str(err), switches=schedule.switches[-20:])
        case.note(switches=schedule.switches[-30:])
        case.event('switches', len(schedule.switches))
        case.event('steps', schedule.steps)
        case.distinct(tuple(schedule.switches))
        settle(case, jobs, results)
    finally:
        if module:
            module.forget()


@check.workload(quick=60, thorough=1500)
def stress(case):
    """Threads that are switched by the interpreter."""
    rng = case.rng
    module, types_, jobs = plan(case)
    repeated = [ops * rng.choice((3, 8)) for ops in jobs] * 2
    results = [None] * len(repeated)
    barrier = threading.Barrier(len(repeated))
    case.note(types=types_, jobs=[[op.name for op in ops] for ops in jobs])

    def body(i):
        barrier.wait()
        try:
            results[i] = ('value', run_ops(repeated[i])())
        except BaseException as err:  # noqa: BLE001
            results[i] = ('error', err)

    marsh.schema.caches.cache_clear()
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [
            threading.Thread(target=body, args=(i,), daemon=True)
            for i in range(len(repeated))
        ]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(40)
        case.check(
            not any(thread.is_alive() for thread in threads),
            'a thread does not end',
        )
    finally:
        sys.setswitchinterval(interval)
        if module:
            module.forget()
    settle(case, repeated, results)


@check.workload(quick=200, thorough=4000)
def absent_keys(case):
    """Each thread has a value of its own, and looks for what is not in it."""
    rng = case.rng
    spec = gen.draw(case, depth=(0, 0, 1), accept=lambda s: s.t is not None and not isinstance(s, specs.AnyS))
    for start in ('???', 0, '', None):
        expected = expect(spec.un, start)
        if expected is None or expected.error is None:
            break
    if expected is None:
        return
    target = typing.DefaultDict[str, spec.t]
    marsh.schema.caches.cache_clear()
    made = [observe(marsh.unmarshal, target, {}) for _ in range(rng.choice((2, 3)))]
    case.note(type=repr(spec), expected=expected)
    case.check(all(m.error is None for m in made), 'an empty mapping was rejected', observed=made)
    jobs = [
        lambda value=m.value: [observe(lambda: value[key]) for key in ('a', 'b')] for m in made
    ]
    schedule = Schedule(rng, p=rng.choice((0.02, 0.1, 0.4)), opcodes=rng.random() < 0.3)
    try:
        results = schedule.run(jobs)
    except Deadlock as err:
        case.fail(str(err))
    case.note(switches=schedule.switches[-30:], results=results)
    case.event('switches', len(schedule.switches))
    case.distinct(tuple(schedule.switches))
    for kind, value in results:
        case.check(kind == 'value', 'a thread failed', error=repr(value))
        for seen in value:
            case.event('absent keys')
            case.check(
                (seen.error is None) == (expected.error is None)
                and (seen.error is None or isinstance(seen.error, marsh.errors.MarshError)),
                'an absent key is not made as expected', observed=seen,
            )
            if seen.error is None:
                case.check(same(seen.value, expected.value), 'an absent key differs', observed=seen)


@check.workload(quick=200, thorough=4000)
def shared_iterators(case):
    """All iterations see all items, that are only produced once."""
    rng = case.rng
    n = rng.choice((0, 1, 3, 8))
    produced = []
    running = []

    def source():
        for i in range(n):
            running.append(i)
            produced.append(i)
            yield i

    shared = marsh.utils.IterableFromIterator(source())
    takes = [rng.choice((None, None, 1, 2, 5, 'bool')) for _ in range(rng.choice((2, 3, 4)))]

    def consume(take):
        if take == 'bool':
            return [bool(shared), list(shared)]
        out = []
        for item in shared:
            out.append(item)
            if take is not None and len(out) >= take:
                break
        return out

    schedule = Schedule(
        rng, p=rng.choice((0.1, 0.4, 0.8)), opcodes=rng.random() < 0.5,
    )
    try:
        results = schedule.run([lambda t=t: consume(t) for t in takes])
    except Deadlock as err:
        case.fail(str(err))
    case.note(n=n, takes=takes, results=results, produced=produced)
    case.event('switches', len(schedule.switches))
    case.distinct(tuple(schedule.switches))
    for take, (kind, value) in zip(takes, results):
        case.event('iterations')
        case.check(kind == 'value', 'an iteration failed', error=repr(value))
        items = list(range(n))
        expected = (
            [n > 0, items] if take == 'bool'
            else items if take is None else items[:take]
        )
        case.check(value == expected, 'an iteration misses or repeats items')
    case.check(
        produced == list(range(len(produced))),
        'the items were not produced once each, in order',
    )


@check.workload(quick=120, thorough=2500)
def registrations(case):
    """Components are registered while other types are used, none is lost,
    and each can be used by its thread right away."""
    rng = case.rng
    suffix = f'{case.run.seed}_{case.index}_{rng.randrange(10**9)}'
    base = type('Base', (), {'__module__': __name__})
    namespace = marsh.namespaces.new(f'mon_{suffix}', base)
    other = gen.draw(case, depth=(1, 2))
    try:
        n = rng.choice((2, 3, 4))
        classes = []
        for i in range(n):
            def init(self, x: int):
                self.x = x
            cls = type(f'Component{i}', (base,), {'__init__': init, '__module__': __name__})
            classes.append(cls)

        def register(i):
            namespace.register(classes[i], name=f'c{i}')
            value = observe(namespace.build, {'x': str(i)}, name=f'c{i}')
            return value, sorted(namespace.find_subclasses(classes[i]))

        elements = [gen.draw_element(case, other, 0) for _ in range(2)]

        def use():
            return [observe(marsh.unmarshal, other.t, e) for e in elements]

        schedule = Schedule(
            rng, p=rng.choice((0.02, 0.1, 0.4)), opcodes=rng.random() < 0.3,
        )
        jobs = [lambda i=i: register(i) for i in range(n)] + [use]
        try:
            results = schedule.run(jobs)
        except Deadlock as err:
            case.fail(str(err))
        case.note(results=results)
        case.event('switches', len(schedule.switches))
        case.distinct(tuple(schedule.switches))
        for i, (kind, value) in enumerate(results):
            case.check(kind == 'value', 'a thread failed', error=repr(value))
        for i in range(n):
            case.event('registrations')
            outcome, names = results[i][1]
            case.check(
                outcome.error is None and type(outcome.value) is classes[i]
                and outcome.value.x == i,
                'a component can not be built right after it was registered',
                observed=repr(outcome),
            )
            case.check(
                names == [f'c{i}'],
                'a component is not found right after it was registered',
            )
        for element, outcome in zip(elements, results[n][1]):
            case.event('outcomes')
            judge_unmarshal(case, other, element, outcome, expect(other.un, element))
        case.check(
            sorted(namespace) == [f'c{i}' for i in range(n)],
            'a registration was lost',
        )
        # once everything is registered
        for i in range(n):
            element = {'name': f'c{i}', 'x': i}
            outcome = observe(marsh.unmarshal, base, element)
            case.check(
                outcome.error is None and type(outcome.value) is classes[i],
                'a component is not found by its name',
                element=element,
                observed=repr(outcome),
            )
    finally:
        del marsh.namespaces[f'mon_{suffix}']
