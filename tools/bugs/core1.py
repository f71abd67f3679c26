LOOP = '''
import threading
from scarletio import EventThread, Task, Future, CancelledError
def in_loop(coroutine_function):
    loop = EventThread(daemon = True)
    return loop.run(coroutine_function(loop), timeout = 20)
async def cycles(loop, count = 6):
    for _ in range(count):
        future = Future(loop)
        loop.call_after(0.002, Future.set_result_if_pending, future, None)
        await future
'''
BUGS = [
{
    'id': 'f01_refused_exception_stays', 'property': 'F01',
    'needs': 'a cancellation with an exception that is refused (StopIteration), then a plain cancellation',
    'what_it_breaks': 'the refused exception becomes the cancellation exception of the future',
    'edits': [{
        'file': 'scarletio/core/traps/future.py',
        'old': '''            if isinstance(exception, type):
                exception = exception()
            
            if isinstance(exception, StopIteration):
                raise TypeError(
                    f'{exception!r} cannot be raised to a(n) `{type(self).__name__}`; {self!r}.'
                )
            
            state |= FUTURE_STATE_CANCELLED | FUTURE_STATE_RESULT_RAISE
            self._result = exception
''',
        'new': '''            if isinstance(exception, type):
                exception = exception()
            
            self._result = exception
            if isinstance(exception, StopIteration):
                raise TypeError(
                    f'{exception!r} cannot be raised to a(n) `{type(self).__name__}`; {self!r}.'
                )
            
            state |= FUTURE_STATE_CANCELLED | FUTURE_STATE_RESULT_RAISE
''',
    }],
    'demo': LOOP + '''
async def main(loop):
    future = Future(loop)
    try:
        future.cancel_with(StopIteration)
    except TypeError:
        pass
    future.cancel()
    assert type(future.get_cancellation_exception()) is CancelledError, future.get_cancellation_exception()
in_loop(main)
''',
},
{
    'id': 'f02_cancel_from_own_step', 'property': 'F02',
    'needs': 'a task that is cancelled while its coroutine is running (by something it calls) and then awaits',
    'what_it_breaks': 'the cancellation requested during the step is lost',
    'edits': [{
        'file': 'scarletio/core/traps/task.py',
        'old': '''                self._waited_future = result
                
                state = self._state
                if state''',
        'new': '''                self._waited_future = result
                
                if state''',
    }],
    'demo': LOOP + '''
async def main(loop):
    gate = Future(loop)
    async def work():
        task.cancel()
        await gate
    task = Task(loop, work())
    await cycles(loop)
    assert task.is_cancelled(), task
in_loop(main)
''',
},
{
    'id': 's01_third_waiter_joins', 'property': 'S01',
    'needs': 'three tasks using one lock at the same time',
    'what_it_breaks': 'every waiter waits for the holder instead of the one before it, so two enter when it releases',
    'edits': [{
        'file': 'scarletio/core/traps/locks.py',
        'old': '            waiter = waiters[1]\n',
        'new': '            waiter = waiters[-1]\n',
    }],
    'demo': LOOP + '''
from scarletio import Lock
async def main(loop):
    lock = Lock(loop)
    inside = []
    async def use(name):
        async with lock:
            inside.append(name)
            assert len(inside) == 1, inside
            await cycles(loop, 2)
            inside.remove(name)
    tasks = [Task(loop, use(n)) for n in 'abc']
    for task in tasks:
        await task
in_loop(main)
''',
},
{
    'id': 's02_cancelled_waiter_hides_others', 'property': 'S02',
    'needs': 'a waiter of the event that was cancelled before the event is set, others waiting after it',
    'what_it_breaks': 'waking stops at the cancelled waiter, those after it sleep forever',
    'edits': [{
        'file': 'scarletio/core/traps/event.py',
        'old': '            waiter.set_result_if_pending(None)\n',
        'new': '            if not waiter.set_result_if_pending(None):\n                break\n',
    }],
    'demo': LOOP + '''
from scarletio import Event
async def main(loop):
    event = Event(loop)
    async def wait():
        await event
    tasks = [Task(loop, wait()) for _ in range(3)]
    await cycles(loop)
    tasks[0].cancel()
    event.set()
    await cycles(loop)
    assert tasks[1].is_done() and tasks[2].is_done(), tasks
in_loop(main)
''',
},
{
    'id': 's03_exception_forgotten', 'property': 'S03',
    'needs': 'an exception set on a queue which still holds elements',
    'what_it_breaks': 'after the elements are received the exception is never raised, receivers wait forever',
    'edits': [{
        'file': 'scarletio/core/traps/queues.py',
        'old': '        self._exception = exception\n        \n        waiters',
        'new': '        if not self._results:\n            self._exception = exception\n        \n        waiters',
    }],
    'demo': LOOP + '''
from scarletio import AsyncQueue
async def main(loop):
    queue = AsyncQueue(loop)
    queue.set_result(1)
    queue.set_exception(ValueError)
    assert (await queue) == 1
    async def get():
        await queue
    task = Task(loop, get())
    await cycles(loop)
    assert task.is_done() and type(task.get_exception()) is ValueError, task
in_loop(main)
''',
},
{
    'id': 's04_count_popped', 'property': 'S04',
    'needs': 'waiting for the first n futures while done ones are popped from the group meanwhile',
    'what_it_breaks': 'popped futures are not counted any more, the waiter resolves too late or never',
    'edits': [{
        'file': 'scarletio/core/traps/task_group.py',
        'old': '        (yield 1)\n        done_count += 1\n',
        'new': '        (yield 1)\n        done_count = len(task_group.done) + 1\n',
    }],
    'demo': LOOP + '''
from scarletio import TaskGroup
async def main(loop):
    group = TaskGroup(loop)
    futures = [group.create_future() for _ in range(3)]
    waiter = group.wait_first_n(2)
    futures[0].set_result(None)
    await cycles(loop)
    group.pop_done()
    futures[1].set_result(None)
    await cycles(loop)
    assert waiter.is_done(), waiter
in_loop(main)
''',
},
{
    'id': 's05_waits_for_oldest', 'property': 'S05',
    'needs': 'a lock of size 2, both held, two more tasks waiting, then one holder releasing',
    'what_it_breaks': 'both waiters wait for the oldest holder, both enter when it releases: three inside',
    'edits': [{
        'file': 'scarletio/core/traps/locks.py',
        'old': '            waiter = waiters[size]\n',
        'new': '            waiter = waiters[-1]\n',
    }],
    'demo': LOOP + '''
from scarletio import ScarletLock
async def main(loop):
    lock = ScarletLock(loop, 2)
    inside = []
    async def use(name, times):
        async with lock:
            inside.append(name)
            assert len(inside) <= 2, inside
            await cycles(loop, times)
            inside.remove(name)
    tasks = [Task(loop, use(n, t)) for n, t in zip('abcd', (2, 8, 4, 4))]
    for task in tasks:
        await task
in_loop(main)
''',
},
{
    'id': 'f03_renewal_lost', 'property': 'F03',
    'needs': 'a repeated timeout renewed late in its period, left running over two periods',
    'what_it_breaks': 'after a renewal the next expiry is counted from the old deadline instead of from the renewal, or it fires late',
    'edits': [{
        'file': 'scarletio/core/traps/timeouting.py',
        'old': '            handle = self._loop.call_at(last_set + self._timeout, self)\n',
        'new': '            handle = self._loop.call_after(self._timeout, self)\n',
    }],
    'demo': LOOP + '''
import time
from scarletio import repeat_timeout
async def main(loop):
    started = time.monotonic()
    try:
        with repeat_timeout(0.6) as repeat:
            for _ in repeat:
                break
            await Future(loop)
    except TimeoutError:
        pass
    taken = time.monotonic() - started
    assert taken < 0.9, taken
in_loop(main)
''',
},
]
