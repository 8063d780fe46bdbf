"""What calls do to the process and to the system, apart from their result.

Python reports compiling and executing code, importing, opening files, starting
processes, ... as audit events.  They are recorded while a call is watched,
together with the output, warnings and the global state of the process."""
import contextlib
import gc
import io
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

# reading frames and attributes
QUIET = {
    'sys._getframe', 'sys._getframemodulename', 'object.__getattr__', 'object.__setattr__',
    'object.__delattr__', 'sys.unraisablehook', 'gc.get_objects', 'gc.get_referrers',
    'gc.get_referents', 'cpython._PySys_ClearAuditHooks', 'sys.monitoring.register_callback',
    'builtins.id', 'time.sleep', 'sys._current_frames',
}
PAYLOAD = 'verif.payload'


class Recorder:

    def __init__(self):
        self.log = None
        self.installed = False
        self.owner = None

    def hook(self, event, args):
        if self.log is None or event in QUIET:
            return
        if threading.get_ident() == self.owner:
            self.log.append((event, args))

    def install(self):
        # can not be removed
        if not self.installed:
            sys.addaudithook(self.hook)
            self.installed = True


RECORDER = Recorder()


def state():
    """The global state of the process."""
    with contextlib.ExitStack() as stack:
        log, RECORDER.log = RECORDER.log, None
        stack.callback(setattr, RECORDER, 'log', log)
        root = logging.getLogger()
        return {
            'working directory': os.getcwd(),
            'environment': dict(os.environ),
            'sys.path': list(sys.path),
            'sys.argv': list(sys.argv),
            'warning filters': list(warnings.filters),
            'locale': locale.setlocale(locale.LC_ALL),
            'random': random.getstate(),
            'threads': threading.active_count(),
            'recursion limit': sys.getrecursionlimit(),
            'switch interval': sys.getswitchinterval(),
            'collector': (gc.isenabled(), gc.get_threshold()),
            'hooks': (sys.excepthook, sys.displayhook, sys.breakpointhook, sys.unraisablehook),
            'trace': (sys.gettrace(), sys.getprofile()),
            'signals': [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGPIPE)],
            'logging': (root.level, list(root.handlers), logging.root.manager.disable),
            'digits': sys.get_int_max_str_digits(),
            'umask': None,
            'streams': (sys.stdin, sys.stdout, sys.stderr),
        }


class Effects:

    def __init__(self):
        self.events = []
        self.out = ''
        self.changed = []
        self.warnings = []
        self.value = None
        self.error = None

    def kinds(self):
        return sorted({event for event, _ in self.events})


def watch(fn):
    """Call a function and record its effects."""
    RECORDER.install()
    RECORDER.owner = threading.get_ident()
    effects = Effects()
    out, old = io.StringIO(), (sys.stdout, sys.stderr)
    sys.stdout = sys.stderr = out
    before = state()
    try:
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            inside = list(warnings.filters)
            RECORDER.log = effects.events
            try:
                effects.value = fn()
            except Exception as err:  # noqa: BLE001
                effects.error = err
            except SystemExit as err:
                effects.error = err
            finally:
                RECORDER.log = None
            if warnings.filters != inside:
                effects.changed.append('warning filters')
        after = state()
    finally:
        sys.stdout, sys.stderr = old
    effects.out = out.getvalue()
    effects.warnings = [str(w.message) for w in caught]
    effects.changed += [name for name in before if before[name] != after[name]]
    return effects
