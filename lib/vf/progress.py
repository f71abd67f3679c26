"""What is being done to the code right now, for reporting hangs."""
from time import perf_counter

busy_since = None
what = None
history = None


def begin(current_history, description = None):
    global busy_since, history, what
    history = current_history
    what = description
    from .harness import REAL_MONOTONIC
    busy_since = REAL_MONOTONIC()


def end():
    global busy_since
    busy_since = None


def describe():
    return f'{what!r} after {[h[:3] if isinstance(h, list) else h for h in (history or [])][-30:]!r}'


def snapshot():
    return list(history or [])
