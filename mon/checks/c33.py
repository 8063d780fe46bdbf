"""C33: the same work has the same outcome in every process"""
import json
import os
import subprocess
import sys

from .. import files
from ..core import MARSH_DIR, Check, Inconclusive

check = Check(
    'C33',
    rule=(
        'Random work (types, containers, elements, texts, config files, '
        'programs, namespaces, recursive types) is done in processes of their '
        'own which differ in hash seed, optimization, imports, order of the '
        'work, threads, tracing, collector, memory, locale and warnings. The '
        'text of all outcomes has to be the same. '
        'Non-trivial: distinct pieces of work compared.'
    ),
    assumptions=[
        'Sets are left out, their order is that of python, as are protocols.',
    ],
)
check.require(**{
    'processes': 90,
    'compared pieces': 2400,
    'compared lines': 24000,
    'values': 2500,
    'errors': 2300,
    'modules imported first': 25,
    'differences seen': 2,
})

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def modules():
    """All modules of marsh."""
    out = []
    for folder, _, names in os.walk(MARSH_DIR):
        for name in names:
            if name.endswith('.py'):
                path = os.path.relpath(os.path.join(folder, name), os.path.dirname(os.path.dirname(MARSH_DIR)))
                path = path[:-3].replace(os.sep, '.')
                out.append(path[:-9] if path.endswith('.__init__') else path)
    return sorted(out)


def run(setup, flags=(), env=(), cwd=HERE):
    environ = dict(os.environ)
    environ.update(env)
    done = subprocess.run(
        [sys.executable, *flags, '-m', 'mon.outcomes', json.dumps(setup)],
        env=environ, cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, timeout=300,
    )
    text = done.stderr.decode(errors='replace')
    try:
        out = json.loads(done.stdout)
    except ValueError:
        out = None
    return done.returncode, out, text


# name: (flags, environment, setup)
VARIANTS = {
    'hash seed 1': ((), {'PYTHONHASHSEED': '1'}, {}),
    'hash seed 2': ((), {'PYTHONHASHSEED': '2'}, {}),
    'random hash seed': ((), {'PYTHONHASHSEED': 'random'}, {}),
    '-O': (('-O',), {}, {}),
    '-OO': (('-OO',), {}, {'docs': False}),
    'development mode': (('-X', 'dev'), {}, {}),
    'debug memory': ((), {'PYTHONMALLOC': 'debug'}, {}),
    'malloc': ((), {'PYTHONMALLOC': 'malloc'}, {}),
    'time zone': ((), {'TZ': 'Asia/Kathmandu'}, {}),
    'locale': ((), {'LC_ALL': 'C', 'PYTHONUTF8': '1', 'LANG': 'de_DE'}, {}),
    # files are read the same, whatever the encoding of the locale is
    'ascii': ((), {
        'LC_ALL': 'C', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0', 'PYTHONIOENCODING': 'utf-8', 'LANG': '',
    }, {}),
    'narrow': ((), {'COLUMNS': '40'}, {'docs': False}),
    'home': ((), {'HOME': '/nonexistent', 'USER': ''}, {}),
    'isolated from site': (('-s', '-P'), {}, {}),
    'unbuffered': (('-u', '-B', '-q'), {}, {}),
    'reversed': ((), {}, {'order': 'reversed'}),
    'shuffled': ((), {}, {'order': 'shuffled'}),
    'cleared': ((), {}, {'clear': True}),
    'profiled': ((), {}, {'trace': 'profile'}),
    'traced': ((), {}, {'trace': 'trace'}),
    'no collector': ((), {}, {'trace': 'no gc'}),
    'eager collector': ((), {}, {'trace': 'gc'}),
    'thread': ((), {}, {'where': 'thread'}),
    'forked': ((), {}, {'where': 'fork'}),
    'warnings': ((), {}, {'warn': True}),
    'imports': ((), {}, {}),
}


def ends_well(case, name, code, out, err):
    case.event('processes')
    case.note(variant=name, stderr=err[-1500:])
    if 'MemoryError' in err or code in (-9, 137):
        raise Inconclusive(f'{name}: {err[-200:]}')
    case.check(code == 0 and out is not None, 'a process fails', code=code)
    case.check(
        os.path.realpath(out['marsh']) == os.path.realpath(MARSH_DIR), 'marsh is imported from elsewhere',
    )
    warned = [line for line in err.splitlines() if MARSH_DIR in line or 'mon.outcomes' in line]
    case.check(not warned, 'the process warns about marsh', warned=warned[:5])


def compare(case, baseline, results):
    for i, (a, b) in enumerate(zip(baseline, results, strict=True)):
        case.event('compared pieces')
        case.event('compared lines', len(a))
        if a == b:
            continue
        pairs = [(x, y) for x, y in zip(a, b) if x != y]
        case.fail(
            'the outcome of the same work differs between processes',
            piece=i, work=a[:2], baseline=[x[:400] for x, _ in pairs[:3]],
            observed=[y[:400] for _, y in pairs[:3]], lines=(len(a), len(b)),
        )


def count(case, results):
    for lines in results:
        case.distinct('\n'.join(lines))
        case.sample(lines[0][:150], every=30)
        for line in lines:
            if "('value'," in line:
                case.event('values')
            elif "('error'," in line:
                case.event('errors')


@check.workload(quick=18, thorough=500)
def processes(case):
    rng = case.rng
    # all of them are used, whatever the seed is
    names = list(VARIANTS)
    chosen = {names[(3 * case.index + j) % len(names)] for j in range(3)} | {rng.choice(names)}
    common = {'seed': rng.randrange(1 << 40), 'n': 80 if case.thorough else 50, 'dates': case.thorough and rng.random() < 0.1}
    if {'-OO', 'narrow'} & chosen:
        common['docs'] = False
    if 'time zone' in chosen:
        common['dates'] = False
    case.note(setup=common)
    code, out, err = run(common)
    ends_well(case, 'baseline', code, out, err)
    baseline = out['results']
    count(case, baseline)
    for name in sorted(chosen):
        flags, env, setup = VARIANTS[name]
        setup = {**common, **setup}
        if name == 'imports':
            setup['first'] = rng.sample(modules(), 5)
            setup['star'] = True
        case.event(f'variant {name}')
        folder = HERE
        with files.scratch() as scratch:
            if name in ('home', 'locale', 'ascii', 'time zone'):
                folder = scratch
            code, out, err = run(setup, flags, env, folder)
        ends_well(case, name, code, out, err)
        compare(case, baseline, out['results'])


@check.workload(quick=20, thorough=120)
def imports(case):
    """Every module can be the first, and gives what it promises."""
    names = modules()
    chosen = [names[(2 * case.index + j) % len(names)] for j in range(2)]
    common = {'seed': case.rng.randrange(1 << 40), 'n': 12}
    for name in chosen:
        case.note(module=name)
        case.event('modules imported first')
        setup = {**common, 'first': [name], 'star': True, 'docs': True}
        code, out, err = run(setup)
        ends_well(case, name, code, out, err)
        if name == chosen[0]:
            baseline = out['results']
            count(case, baseline)
        else:
            compare(case, baseline, out['results'])


@check.workload(quick=3, thorough=12)
def monitors(case):
    """The comparison sees a difference."""
    setup = {'seed': case.rng.randrange(1 << 40), 'n': 30}
    results = [run({**setup, 'probe': True}, env={'PYTHONHASHSEED': str(i)})[1]['results'] for i in (1, 2)]
    if results[0] == results[1]:
        raise Inconclusive('the hash seed makes no difference to the order of sets')
    case.event('differences seen')
