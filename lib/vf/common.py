"""Things shared by the adapters of the core checks."""
from .harness import Clock
from .report import Violation

EPSILON = 1 / 1024


class E1(Exception):
    pass


class E2(Exception):
    pass


ERRORS = {'e1': E1, 'e2': E2}


def tag(value):
    from scarletio import CancelledError
    if value is None:
        return 'none'
    if isinstance(value, CancelledError):
        return 'cancelled'
    if isinstance(value, TimeoutError):
        return 'timeout'
    for name, type_ in ERRORS.items():
        if type(value) is type_:
            return name
    if isinstance(value, (str, int)):
        return value
    return repr(value)


def outcome(future):
    """The outcome of a future as the specifications show it."""
    if future is None:
        return ['none']
    if future.is_pending():
        return ['pending']
    exception = future.get_cancellation_exception()
    if future.is_cancelled() != (exception is not None):
        return ['inconsistent cancellation']
    if exception is not None:
        try:
            future.get_result()
        except BaseException as raised:
            if tag(raised) != tag(exception):
                return ['cancelled', tag(raised), tag(exception)]
        else:
            return ['cancelled', 'but returns']
        if tag(exception) == 'cancelled':
            return ['cancelled']
        return ['cancelled with', tag(exception)]
    exception = future.get_exception()
    if exception is not None:
        return ['error', tag(exception)]
    return ['result', tag(future.get_result())]


class BaseAdapter:
    """Dispatches actions to `do_*` methods and drives the loop."""
    def __init__(self, driver):
        self.driver = driver
        self.loop = driver.loop
        self.wrong = []
        self.history = []

    def do(self, op, args):
        return getattr(self, 'do_' + op)(*args)

    def check_wrong(self):
        if self.wrong:
            raise Violation(f'{type(self).__name__}: {self.wrong!r}', list(self.history))

    def do_pump(self):
        self.driver.pump_timers()
        return '-'
    def do_drain(self):
        self.driver.drain()
        return '-'
    def do_approach(self):
        Clock.now += 1 - EPSILON
        return '-'
    def do_arrive(self):
        Clock.now += EPSILON
        return '-'

    def finish(self, futures):
        for future in futures:
            if future is not None:
                future.silence()
                for _ in range(6):
                    if not future.is_done():
                        future.cancel()
                        self.driver.drain()
                future.silence()
        self.driver.clear()


def tla(value):
    """Writes a value as a TLA+ expression. Lists are sets, tuples are sequences."""
    if isinstance(value, bool):
        return 'TRUE' if value else 'FALSE'
    if isinstance(value, int):
        return str(value)
    if isinstance(value, str):
        return f'"{value}"'
    if isinstance(value, list):
        return '{' + ', '.join(map(tla, value)) + '}'
    if isinstance(value, tuple):
        return '<<' + ', '.join(map(tla, value)) + '>>'
    if isinstance(value, dict):
        return '[' + ', '.join(f'{key} |-> {tla(item)}' for key, item in value.items()) + ']'
    raise TypeError(value)
