"""Counts the work of a call: the lines and jumps that are executed."""
import gc
import signal
import sys

TOOL = 3
CPU_SECONDS = 20


class TooMuch(BaseException):
    pass


class NoEnd(BaseException):
    pass


class Counter:

    def __init__(self):
        self.count = 0
        self.limit = None
        self.active = False

    def _event(self, *_):
        self.count += 1
        if self.limit is not None and self.count > self.limit:
            # only once, while it is passed on
            self.limit = None
            raise TooMuch

    @staticmethod
    def _on_alarm(signum, frame):
        raise NoEnd

    def work(self, fn, limit=None):
        """The number of events until the function returns or raises."""
        monitoring = sys.monitoring
        if not self.active:
            monitoring.use_tool_id(TOOL, 'growth')
            for event in (monitoring.events.LINE, monitoring.events.JUMP):
                monitoring.register_callback(TOOL, event, self._event)
            self.active = True
        gc.collect()
        gc.disable()
        depth = sys.getrecursionlimit()
        sys.setrecursionlimit(6000)
        old = signal.signal(signal.SIGVTALRM, self._on_alarm)
        self.count = 0
        self.limit = limit
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_SECONDS)
        monitoring.set_events(TOOL, monitoring.events.LINE | monitoring.events.JUMP)
        try:
            fn()
        except Exception:  # noqa: BLE001
            pass
        finally:
            monitoring.set_events(TOOL, 0)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
            sys.setrecursionlimit(depth)
            gc.enable()
        return self.count


COUNTER = Counter()

FACTOR = 5.5
OFFSET = 5000


def compare(case, smaller, larger, prepare=None):
    """The work for twice the size may be four times as much (and a bit), but
    not more.

    Arguments:
        smaller: Function that does the work for some size.
        larger: The same for twice the size.
        prepare: Called before each of them, e.g. to clear caches.
    """
    limit = None
    try:
        if prepare is not None:
            prepare()
        small = COUNTER.work(smaller)
        limit = FACTOR * small + OFFSET
        if prepare is not None:
            prepare()
        large = COUNTER.work(larger, limit=limit)
    except TooMuch:
        case.fail(
            f'more than {limit:.0f} steps for twice the size, '
            f'{small} steps for once',
        )
    except NoEnd:
        case.fail(f'no end within {CPU_SECONDS} s')
    case.run.events['oracle evaluations'] += 1
    case.event('comparisons')
    case.event('steps', small + large)
    ratio = large / max(small, 1)
    case.event(
        'constant' if ratio < 1.2 else 'linear' if ratio < 2.6 else 'more than linear',
    )
    return small, large
