"""Harness of the runtime monitors.

A check drives the real code of ``/repo`` through seeded workloads while
monitors (oracles) judge what they observe.  Every case derives its random
state from ``(seed, property, workload, index)``, so that the replay file of a
violation reproduces exactly that case.

Verdicts have three values: *held* (exit 0), *violated* (exit 1 together with
a ``VIOLATION`` line) and *inconclusive* (exit 2): the monitors did not observe
what they must have observed for the run to mean anything.
"""
import collections
import json
import mmap
import os
import pickle
import random
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

from . import reach

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MARSH_DIR = os.path.join(REPO, 'marsh') + os.sep
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')

MAX_VIOLATIONS = 3
CASE_SECONDS = 60
STEP_LIMIT = 20_000_000
PARTS = 8


REACH = reach.Reach(MARSH_DIR)


class Violation(Exception):
    """Raised by a monitor when the property is refuted."""


class Inconclusive(Exception):
    """The monitors could not observe what they have to."""


class CaseTimeout(BaseException):
    pass


class StepLimit(BaseException):
    pass


def repo_frames(err):
    """The frames of an exception that are located in the code under test."""
    frames = []
    tb = err.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(MARSH_DIR):
            frames.append(tb)
        tb = tb.tb_next
    return frames


def escaped_from_repo(err):
    """Was this (unexpected) exception raised while code of the repository ran?

    The innermost harness frame has to be outside of the innermost repository
    frame: an exception that is raised by a callback of the harness which the
    repository merely called is a mistake of the harness.
    """
    last = None
    tb = err.__traceback__
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(MARSH_DIR):
            last = 'repo'
        elif name.startswith(VERIF):
            last = 'verif'
        tb = tb.tb_next
    return last == 'repo'


def short(obj, limit=400):
    try:
        text = repr(obj)
    except Exception as err:  # noqa: BLE001
        text = f'<unprintable {type(obj).__name__}: {err!r}>'
    if len(text) > limit:
        text = text[:limit] + '...'
    return text


UNEXPECTED = (AssertionError, AttributeError, LookupError, TypeError, ValueError)


class Case:
    """One execution of a workload, handed to the workload function."""

    def __init__(self, run, workload, index):
        self.run = run
        self.workload = workload
        self.index = index
        self.rng = random.Random(
            f'{run.seed}:{run.prop}:{workload}:{index}',
        )
        self.detail = {}

    @property
    def thorough(self):
        return self.run.tier == 'thorough'

    def note(self, **detail):
        for key, value in detail.items():
            self.detail[key] = (
                value if isinstance(value, str) else short(value, 1500)
            )

    def event(self, name, n=1):
        self.run.events[name] += n

    def distinct(self, key):
        """Register something observed as distinct and non-trivial."""
        self.run.distinct.add(hash((self.workload, key)))

    def sample(self, text, every=1):
        samples = self.run.samples[self.workload]
        if len(samples) < 3:
            samples.append(text if isinstance(text, str) else short(text, 300))

    def fail(self, message, **detail):
        self.note(**detail)
        raise Violation(message)

    def check(self, condition, message, **detail):
        self.run.events['oracle evaluations'] += 1
        if not condition:
            self.fail(message, **detail)


class Workload:

    def __init__(self, name, fn, quick, thorough, fixed):
        self.name = name
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        # the number of cases is not scaled
        self.fixed = fixed


class Check:
    """The check of one property: a set of workloads and their monitors."""

    def __init__(self, prop, rule, requires=(), assumptions=(), scale=1):
        self.prop = prop
        # of the numbers of cases
        self.scale = scale
        self.rule = rule
        self.requires = dict.fromkeys(requires, 1)
        self.assumptions = list(assumptions)
        self.workloads = []
        self.between = None

    def require(self, **minimum):
        """Minimum number of events, per 100% of the quick workload."""
        self.requires.update(minimum)

    def workload(self, quick, thorough=None, fixed=False):
        def decorator(fn):
            self.workloads.append(
                Workload(
                    fn.__name__,
                    fn,
                    quick,
                    thorough if thorough is not None else quick * 8,
                    fixed,
                ),
            )
            return fn
        return decorator


class Run:

    STATE = (
        'events', 'distinct', 'samples', 'violations', 'errors', 'evaluations',
        'per_workload', 'cut', 'lines',
    )

    def __init__(self, check, tier, seed):
        self.check = check
        self.prop = check.prop
        self.tier = tier
        self.seed = seed
        self.events = collections.Counter()
        self.distinct = set()
        self.samples = collections.defaultdict(list)
        self.violations = []
        self.errors = []
        self.board = mmap.mmap(-1, 16)
        self.wall = 0.0
        self.evaluations = 0
        self.per_workload = collections.Counter()
        self.cut = []
        self.lines = REACH.lines

    # -- one case ---------------------------------------------------------

    def _limited(self, case, workload):
        """Re-run a case that did not finish, with a limit on the number of
        executed lines instead of a limit on time."""
        steps = 0

        def trace(frame, event, arg):
            nonlocal steps
            steps += 1
            if steps > STEP_LIMIT:
                raise StepLimit
            return trace

        sys.settrace(trace)
        try:
            workload.fn(case)
        except StepLimit:
            return True
        except BaseException:  # noqa: BLE001
            return False
        finally:
            sys.settrace(None)
        return False

    def run_case(self, workload, index):
        case = Case(self, workload.name, index)
        specs = sys.modules.get('mon.specs')
        if specs is not None:
            specs.fresh()
        start = time.monotonic()
        signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
        try:
            workload.fn(case)
            return True
        except Violation as err:
            self.report(case, str(err))
        except CaseTimeout:
            signal.setitimer(signal.ITIMER_REAL, 0)
            again = Case(self, workload.name, index)
            if self._limited(again, workload):
                self.report(
                    again,
                    f'no result within {STEP_LIMIT} executed lines',
                )
            else:
                self.errors.append(
                    f'{workload.name}[{index}] timed out after '
                    f'{time.monotonic() - start:.0f}s',
                )
        except Inconclusive as err:
            self.errors.append(f'{workload.name}[{index}] inconclusive: {err}')
        except Exception as err:  # noqa: BLE001
            text = ''.join(
                traceback.format_exception(type(err), err, err.__traceback__),
            )
            if escaped_from_repo(err):
                case.note(traceback=text[-3000:])
                self.report(
                    case,
                    f'unexpected {type(err).__name__} escaped: {short(str(err))}',
                )
            elif isinstance(err, UNEXPECTED):
                # the monitors know the shape of everything that
                # may be observed
                case.note(traceback=text[-3000:])
                self.report(
                    case,
                    'something was observed that can not be interpreted '
                    f'({type(err).__name__}: {short(str(err))})',
                )
            else:
                self.errors.append(f'{workload.name}[{index}]\n{text}')
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return False

    def report(self, case, message):
        count = struct.unpack_from('q', self.board)[0]
        if count >= MAX_VIOLATIONS:
            return
        struct.pack_into('q', self.board, 0, count + 1)
        folder = os.path.join(EVIDENCE, 'replay')
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(
            folder,
            f'{self.prop}-{case.workload}-{self.seed}-{case.index}.json',
        )
        with open(path, 'w') as file:
            json.dump(
                {
                    'property': self.prop,
                    'workload': case.workload,
                    'index': case.index,
                    'seed': self.seed,
                    'tier': self.tier,
                    'message': message,
                    'detail': case.detail,
                    'replay': (
                        f'bin/check {self.prop} --replay {path}'
                    ),
                },
                file,
                indent=2,
            )
        lines = [
            f'VIOLATION property={self.prop} replay={path}',
            f'  {case.workload}[{case.index}]: {message}',
        ]
        for key, value in case.detail.items():
            lines.append(
                f'    {key}: {short(value, 2000) if not isinstance(value, str) else value[:2000]}',
            )
        self.violations.append('\n'.join(lines))

    # -- all cases --------------------------------------------------------

    def execute(self, budget, only=None, jobs=1):
        """Run all cases, in several processes."""
        signal.signal(signal.SIGALRM, self._on_alarm)
        start = time.monotonic()
        self.deadline = start + budget
        self.jobs = jobs
        # shared by the processes: the number of violations and, for each of
        # them, the case it is in
        self.board = mmap.mmap(-1, 16 * (jobs + 1))
        if jobs == 1:
            self._work(0, only)
        else:
            folder = tempfile.mkdtemp(prefix='mon-jobs-')
            try:
                workers = [
                    self._spawn(
                        os.path.join(folder, str(k)),
                        lambda k=k: self._work(k, only),
                    )
                    for k in range(jobs)
                ]
                for k, worker in enumerate(workers):
                    self._join(folder, k, worker)
            finally:
                shutil.rmtree(folder, ignore_errors=True)
        self.wall = time.monotonic() - start

    def _spawn(self, path, work):
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid:
            return pid
        code = 3
        try:
            work()
            with open(path, 'wb') as file:
                pickle.dump(
                    {name: getattr(self, name) for name in self.STATE}, file,
                )
            code = 0
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)

    def _join(self, folder, k, pid):
        status = os.waitpid(pid, 0)[1]
        path = os.path.join(folder, str(k))
        if status == 0:
            with open(path, 'rb') as file:
                state = pickle.load(file)
            for name in self.STATE:
                mine, other = getattr(self, name), state[name]
                if isinstance(mine, (collections.Counter, set)):
                    mine.update(other)
                elif isinstance(mine, list):
                    mine.extend(other)
                elif isinstance(mine, dict):
                    for key, items in other.items():
                        mine[key] = (mine[key] + items)[:3]
                else:
                    setattr(self, name, mine + other)
            return
        # the process did not survive its case: is it the case?
        number, index = struct.unpack_from('qq', self.board, 16 * (k + 1))
        workload = self.check.workloads[number]
        again = self._spawn(path, lambda: self.run_case(workload, index))
        if os.waitpid(again, 0)[1] == 0:
            self.errors.append(
                f'a process died (status {status}) in {workload.name}[{index}]',
            )
            return
        case = Case(self, workload.name, index)
        self.report(case, f'the process does not survive (status {status})')

    def _work(self, k, only):
        """The cases of one of the processes: parts of each workload in
        turn."""
        workloads = [
            (number, w) for number, w in enumerate(self.check.workloads)
            if not only or only == w.name
        ]
        slots = PARTS * len(workloads)
        for part in range(PARTS):
            for number, workload in workloads:
                n = self._count(workload)
                deadline = self.deadline
                if self.tier == 'thorough':
                    # each gets its share of the time that is left
                    now = time.monotonic()
                    deadline = now + (deadline - now) / slots
                slots -= 1
                first, last = n * part // PARTS, n * (part + 1) // PARTS
                done = 0
                for index in range(first, last):
                    if index % self.jobs != k:
                        continue
                    if (
                        struct.unpack_from('q', self.board)[0] >= MAX_VIOLATIONS
                        or len(self.errors) >= 5
                    ):
                        return
                    if time.monotonic() > deadline:
                        self.cut.append((workload.name, len(range(index, last, self.jobs))))
                        break
                    self.evaluations += 1
                    self.per_workload[workload.name] += 1
                    struct.pack_into('qq', self.board, 16 * (k + 1), number, index)
                    self.run_case(workload, index)
                    done += 1
                    if self.check.between is not None and done % 64 == 0:
                        self.check.between()

    def _count(self, workload):
        scale = 1 if workload.fixed else self.check.scale
        return getattr(workload, self.tier) * scale

    @staticmethod
    def _on_alarm(signum, frame):
        raise CaseTimeout

    def cut_short(self):
        left = collections.Counter()
        for name, n in self.cut:
            left[name] += n
        return [f'{name}: {n} of {self._planned(name)} cases' for name, n in left.items()]

    def _planned(self, name):
        return next(self._count(w) for w in self.check.workloads if w.name == name)

    def finish(self, replay=False):
        missing = [
            f'{name} observed {self.events[name]} < {minimum}'
            for name, minimum in self.check.requires.items()
            if self.events[name] < minimum
        ]
        if os.environ.get('VERIF_MARGINS'):
            # for the maintenance of the thresholds
            for name, minimum in self.check.requires.items():
                if self.events[name] < 1.6 * minimum:
                    print(f'  margin: {name} observed {self.events[name]}, required {minimum}')
        if not replay:
            self.write_evidence()
        for text in self.violations:
            print(text)
        print(
            f'{self.prop} [{self.tier}, seed {self.seed}]: '
            f'{self.evaluations} cases, '
            f'{len(self.distinct)} distinct, '
            f'{self.events["oracle evaluations"]} oracle evaluations, '
            f'{self.wall:.1f}s',
        )
        for text in self.cut_short():
            print(f'  cut short by the time budget: {text}')
        if self.violations:
            return 1
        if self.errors:
            print(f'ERROR property={self.prop}: the harness failed')
            for text in self.errors[:5]:
                print(text[-3000:])
            return 2
        if missing and not replay:
            print(
                f'INCONCLUSIVE property={self.prop}: ' + '; '.join(missing),
            )
            return 2
        return 0

    def write_evidence(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        path = os.path.join(EVIDENCE, f'{self.prop}.json')
        evidence = {
            'property': self.prop,
            'tier': self.tier,
            'seed': self.seed,
            'level': 'exploration',
            'coverage': {
                'evaluations': self.evaluations,
                'distinct_nontrivial': len(self.distinct),
                'rule': self.check.rule,
                'samples': [
                    f'{name}: {sample}'
                    for name, samples in self.samples.items()
                    for sample in samples
                ] or ['none'],
                'events': dict(sorted(self.events.items())),
                'cases_per_workload': dict(self.per_workload),
                'cut_short': self.cut_short(),
                'lines_of_marsh': {
                    name: text for name, (text, _) in REACH.summary().items()
                },
            },
            'assumptions': self.check.assumptions,
            'wall_s': round(self.wall, 2),
            'violations': len(self.violations),
        }
        tmp = f'{path}.{os.getpid()}.tmp'
        with open(tmp, 'w') as file:
            json.dump(evidence, file, indent=1)
        os.replace(tmp, path)
