"""
Deterministic driving of a real scarletio event loop.

`prepare()` must be called before scarletio is imported: it puts a controllable clock below it. The driver runs inside
the loop's own thread (so every "am I on the loop" test of the code answers yes), as a callback of the loop, and runs the
other callbacks of the loop itself, one at a time. The loop's own `runner` is only used to start the driver; it is the
subject of the checks L01 and L02, which let it run by itself.
"""
import gc, os, queue, select, selectors, socket, ssl, subprocess, sys, threading, time, types
import concurrent.futures
from heapq import heappop

REAL_MONOTONIC = time.monotonic
REAL_TIME = time.time
REPO = os.environ.get('VERIF_REPO', '/repo')


class Clock:
    now = 1000.0
    fake = True
    wall = None # what to add to `now` to get the wall clock's time


def _monotonic():
    if Clock.fake:
        return Clock.now
    return REAL_MONOTONIC()


def _time():
    if Clock.fake and Clock.wall is not None:
        return Clock.now + Clock.wall
    return REAL_TIME()


_prepared = False


def prepare(fake_clock = True):
    global _prepared
    if _prepared:
        return
    _prepared = True
    if fake_clock:
        time.monotonic = _monotonic
        time.time = _time
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import scarletio
    _quiet()
    origin = os.path.dirname(os.path.dirname(os.path.abspath(scarletio.__file__)))
    if os.path.realpath(origin) != os.path.realpath(REPO):
        raise RuntimeError(f'scarletio imported from {origin}, not from {REPO}')


reported = []


def _quiet():
    """
    Unhandled exceptions are rendered in an executor and written to stderr. Rendering is not of interest, but the handles
    of its threads would show up in the loop at random times.
    """
    def write(exception, *args, **kwargs):
        reported.append(exception)
        del reported[:-1000]
    for name in ('write_exception_async', 'write_exception_maybe_async'):
        for module_name, module in list(sys.modules.items()):
            if module_name.startswith('scarletio') and hasattr(module, name):
                setattr(module, name, write)


class Stuck(Exception):
    pass


class Driver:
    """Gives control over a loop to code running inside of it."""
    def __init__(self, loop):
        self.loop = loop
        self.max_handles = 20000

    # ---- handles

    def ready(self):
        return len(self.loop._ready)

    def step(self):
        """Runs a single handle. Returns whether there was one."""
        ready = self.loop._ready
        while ready:
            handle = ready.popleft()
            if handle.cancelled:
                continue
            handle._run()
            return True
        return False

    def drain(self):
        """Runs handles till there is no ready one, like a cycle of the loop does."""
        count = 0
        while self.step():
            count += 1
            if count > self.max_handles:
                raise Stuck('the loop does not become idle')
        return count

    def pump_timers(self):
        """Moves the due timers into ready, like the beginning of a cycle of the loop does."""
        from scarletio.core.time import LOOP_TIME_RESOLUTION
        loop = self.loop
        scheduled = loop._scheduled
        limit = Clock.now + LOOP_TIME_RESOLUTION
        count = 0
        while scheduled:
            handle = scheduled[0]
            if handle.cancelled:
                heappop(scheduled)
                continue
            if handle.when >= limit:
                break
            loop._ready.append(handle)
            heappop(scheduled)
            count += 1
        return count

    def settle(self):
        """Runs cycles until nothing is left to do at the current time."""
        for _ in range(1000):
            self.drain()
            if not self.pump_timers():
                return
        raise Stuck('timers keep on being due')

    def advance(self, seconds):
        Clock.now += seconds

    def select(self):
        """Polls the selector and runs the ready readers and writers, like a cycle does."""
        loop = self.loop
        events = loop.selector.select(0)
        for key, mask in events:
            reader, writer = key.data
            if reader is not None and mask & 1 and not reader.cancelled:
                loop._ready.append(reader)
            if writer is not None and mask & 2 and not writer.cancelled:
                loop._ready.append(writer)
        return len(events)

    def clear(self):
        """Forgets everything scheduled."""
        self.loop._ready.clear()
        self.loop._scheduled.clear()


class NullStream:
    encoding = 'utf-8'
    def __init__(self):
        self.written = []
    def write(self, data):
        self.written.append(data)
        if len(self.written) > 2000:
            del self.written[:1000]
    def flush(self):
        pass
    def isatty(self):
        return False
    def fileno(self):
        raise OSError('no fileno')


def run_in_loop(function, timeout = 800.0):
    """
    Starts an event loop, calls `function(driver)` inside of it, returns what it returned.
    """
    from scarletio import EventThread
    loop = EventThread(daemon = True, name = 'verif')
    done = threading.Event()
    outcome = []

    def main():
        # Real errors of the real loop would be written out; they are judged by their effect.
        try:
            outcome.append((True, function(Driver(loop))))
        except BaseException as exception:
            outcome.append((False, exception))
        finally:
            done.set()

    loop.call_soon_thread_safe(main)
    deadline = REAL_MONOTONIC() + timeout
    while not done.wait(0.25):
        if REAL_MONOTONIC() > deadline:
            raise TimeoutError('driver timed out')
    Clock.fake = True
    success, value = outcome[0]
    if not success:
        raise value
    return value
