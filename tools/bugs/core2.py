import os
exec(open('/verif/tools/bugs/core1.py').read().split('BUGS = [')[0])
BUGS = [
{
    'id': 'f02_reason_dropped', 'property': 'F02',
    'needs': 'a task cancelled with an exception during its last step, which then returns normally',
    'what_it_breaks': 'the exception given with the cancellation is lost',
    'edits': [{
        'file': 'scarletio/core/traps/task.py',
        'old': '                if (self._result is not None):\n',
        'new': '                if (self._result is not None) and (self._waited_future is not None):\n',
    }],
    'demo': LOOP + '''
async def main(loop):
    async def work():
        task.cancel_with(TimeoutError)
    task = Task(loop, work())
    await cycles(loop)
    try:
        task.get_result()
    except TimeoutError:
        pass
in_loop(main)
''',
},
{
    'id': 's01_cancelled_holder_poisons', 'property': 'S01',
    'needs': 'the holder of a lock is cancelled inside of the block while an other task waits for the lock',
    'what_it_breaks': 'the cancellation is passed on to the next waiter, which is cancelled too instead of acquiring the lock',
    'edits': [{
        'file': 'scarletio/core/traps/locks.py',
        'old': '''        future = self._waiters.pop()
        future.set_result_if_pending(None)
        return False
''',
        'new': '''        future = self._waiters.pop()
        if exception_type is None:
            future.set_result_if_pending(None)
        else:
            future.cancel()
        return False
''',
    }],
    'demo': LOOP + '''
from scarletio import Lock
async def main(loop):
    lock = Lock(loop)
    done = []
    async def use(name):
        async with lock:
            await cycles(loop, 4)
            done.append(name)
    tasks = [Task(loop, use(n)) for n in 'ab']
    await cycles(loop, 2)
    tasks[0].cancel()
    await cycles(loop, 20)
    assert done == ['b'], done
in_loop(main)
''',
},
]
