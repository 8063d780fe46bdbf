"""Deterministic interleavings of threads.

Only the thread that holds the turn runs.  At every executed line (or
bytecode instruction) of the code under test the turn may be handed to
another thread, as decided by a seeded random number generator.  A thread that
blocks on a lock of the code under test loses its turn after a while."""
import sys
import threading
import time

from .core import MARSH_DIR, Inconclusive

BLOCKED_SECONDS = 0.003
DEADLOCK_SECONDS = 30


class Stop(BaseException):
    """Ends threads that are no longer wanted."""


class Deadlock(Exception):
    pass


class Schedule:

    def __init__(self, rng, p=0.1, opcodes=False, limit=2_000_000):
        self.rng = rng
        self.p = p
        self.opcodes = opcodes
        self.limit = limit
        self.condition = threading.Condition()
        self.turn = 0
        self.alive = set()
        self.steps = 0
        self.switches = []
        self.stolen = 0
        self.stopped = False

    # -- within the threads -------------------------------------------

    def _wait(self, me):
        """Until it is my turn. Called with the condition acquired."""
        seen, since = self.steps, time.monotonic()
        while self.turn != me:
            if self.stopped:
                raise Stop
            if not self.condition.wait(BLOCKED_SECONDS):
                if self.steps != seen:
                    seen, since = self.steps, time.monotonic()
                elif self.turn not in self.alive or (
                    time.monotonic() - since >= BLOCKED_SECONDS
                ):
                    # whoever has the turn is blocked
                    self.turn = me
                    self.stolen += 1

    def step(self, me, frame):
        if self.stopped:
            raise Stop
        with self.condition:
            if self.turn != me:
                self._wait(me)
            self.steps += 1
            if self.steps > self.limit:
                self.stopped = True
                self.condition.notify_all()
                raise Stop
            if len(self.alive) > 1 and self.rng.random() < self.p:
                choice = self.rng.choice(sorted(self.alive))
                if choice != me:
                    self.switches.append((
                        me, choice, frame.f_code.co_name,
                        frame.f_lasti if self.opcodes else frame.f_lineno,
                    ))
                    self.turn = choice
                    self.condition.notify_all()
                    self._wait(me)

    def tracer(self, me):
        opcodes = self.opcodes

        def local(frame, event, arg):
            if event == ('opcode' if opcodes else 'line'):
                self.step(me, frame)
            return local

        def trace(frame, event, arg):
            if frame.f_code.co_filename.startswith(MARSH_DIR):
                if opcodes:
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                return local
            return None

        return trace

    # -- the driver ---------------------------------------------------

    def run(self, jobs):
        """Run the jobs, one thread each, and return their results."""
        results = [None] * len(jobs)

        def body(me, job):
            try:
                with self.condition:
                    self._wait(me)
                sys.settrace(self.tracer(me))
                try:
                    results[me] = ('value', job())
                finally:
                    sys.settrace(None)
            except Stop:
                results[me] = ('stopped', None)
            except BaseException as err:  # noqa: BLE001
                results[me] = ('error', err)
            finally:
                with self.condition:
                    self.alive.discard(me)
                    if self.turn == me and self.alive:
                        self.turn = self.rng.choice(sorted(self.alive))
                    self.condition.notify_all()

        threads = [
            threading.Thread(target=body, args=(i, job), daemon=True)
            for i, job in enumerate(jobs)
        ]
        self.alive = set(range(len(jobs)))
        self.turn = self.rng.randrange(len(jobs))
        for thread in threads:
            thread.start()
        seen, since = -1, time.monotonic()
        try:
            while any(thread.is_alive() for thread in threads):
                for thread in threads:
                    thread.join(0.5)
                    if thread.is_alive():
                        break
                if self.steps != seen:
                    seen, since = self.steps, time.monotonic()
                elif time.monotonic() - since > DEADLOCK_SECONDS:
                    raise Deadlock('no thread makes progress')
        finally:
            self.stopped = True
            with self.condition:
                self.condition.notify_all()
        if any(kind == 'stopped' for kind, _ in results):
            raise Inconclusive('the schedule was cut short')
        return results
