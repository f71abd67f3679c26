from vf.harness import run_in_loop
from vf.conform import batched, check_graph
from vf.common import BaseAdapter, outcome, E1


class Groups(BaseAdapter):
    def __init__(self, driver, futures, waiters):
        BaseAdapter.__init__(self, driver)
        self.names = futures
        self.waiter_names = waiters

    turn = 0

    def reset(self):
        from scarletio import Future
        self.driver.clear()
        self.futures = {name: Future(self.loop) for name in self.names}
        self.group = None
        self.waiters = {}
        self.consumer = None
        self.eaten = []
        self.dirty = False
        self.used = set()

    def name(self, future):
        for name, value in self.futures.items():
            if value is future:
                return name
        return repr(future)
    def listed(self, futures):
        """Which futures are there."""
        found = [self.name(future) for future in futures]
        if len(set(found)) != len(found) or not set(found) <= set(self.names):
            return found
        return {name: name in found for name in self.names}

    def do_make(self, names):
        from scarletio import TaskGroup
        self.dirty = True
        futures = [self.futures[name] for name in names if names[name]]
        self.used.update(name for name in names if names[name])
        self.group = TaskGroup(self.loop, futures) if futures else TaskGroup(self.loop)
        return '-'
    def do_add(self, name):
        self.dirty = True
        future = self.futures[name]
        self.turn += 1
        if self.turn % 2 and name not in self.used:
            self.used.add(name)
            self.futures[name] = self.group.create_future()
            return '-'
        self.used.add(name)
        added = (self.group.add_awaitable if name == 'b' else self.group.add_future)(future)
        return '-' if added is future else 'other future'
    def do_settle(self, name, how):
        self.dirty = True
        self.used.add(name)
        future = self.futures[name]
        if how == 'result':
            future.set_result(name)
        elif how == 'error':
            future.set_exception(E1())
        else:
            future.cancel()
        return '-'
    def do_wait(self, name, kind):
        self.dirty = True
        group = self.group
        if kind == 'two':
            waiter = group.wait_first_n(2)
        elif kind == 'three':
            waiter = group.wait_first_n(3)
        else:
            waiter = getattr(group, {
                'next': 'wait_next', 'first': 'wait_first', 'first pop': 'wait_first_and_pop', 'all': 'wait_all',
                'exception': 'wait_exception', 'exception pop': 'wait_exception_and_pop',
                'failure': 'wait_exception_or_cancellation', 'failure pop': 'wait_exception_or_cancellation_and_pop',
            }[kind])()
        self.waiters[name] = waiter
        return self.waiter(name)
    def waiter(self, name):
        waiter = self.waiters.get(name)
        if waiter is None:
            return '-'
        end = outcome(waiter)
        if end[0] != 'result':
            return end[0] if end in (['pending'], ['cancelled']) else end
        value = waiter.get_result()
        if value is None:
            return 'none'
        return value if isinstance(value, int) else self.name(value)
    def do_cancel_waiter(self, name):
        self.dirty = True
        self.waiters[name].cancel()
        return '-'
    def do_pop_done(self):
        future = self.group.pop_done()
        return 'none' if future is None else self.name(future)
    def do_exhaust_done(self):
        return self.listed(self.group.exhaust_done())
    def do_cancel(self, how):
        self.dirty = True
        group = self.group
        if how == 'all':
            group.cancel_all()
        elif how == 'pending':
            group.cancel_pending()
        elif how == 'done':
            group.cancel_done()
        elif how == 'leave':
            try:
                with group.cancel_on_exception() as entered:
                    raise E1()
            except E1:
                pass
            else:
                return 'captured'
        else:
            with group.cancel_on_exception() as entered:
                pass
            if entered is not group:
                return 'other group'
        return '-'
    async def consume(self):
        async for future in self.group.exhaust():
            self.eaten.append(future)
    def do_consume(self):
        from scarletio import Task
        self.dirty = True
        self.consumer = Task(self.loop, self.consume())
        return '-'
    def do_cancel_consumer(self):
        self.dirty = True
        self.consumer.cancel()
        return '-'
    def do_drain(self):
        self.driver.drain()
        self.dirty = False
        eaten, self.eaten = self.eaten, []
        return self.listed(eaten)

    def observe(self):
        group = self.group
        if self.dirty or group is None:
            return {'dirty': self.dirty}
        pending = self.listed(group.pending)
        done = self.listed(group.done)
        if group.has_done() != any(done.values()) or group.has_pending() != any(pending.values()):
            return 'has_done or has_pending is wrong'
        if self.listed(group.iter_futures()) != {name: pending[name] or done[name] for name in self.names}:
            return 'iter_futures is wrong'
        return {
            'dirty': False, 'pending': pending, 'done': done,
            'fut': {
                name: {'pending': 'pending', 'result': 'result', 'error': 'error', 'cancelled': 'cancelled'}[outcome(future)[0]]
                for name, future in self.futures.items()
            },
            'eats': self.consumer is not None and self.consumer.is_pending(),
            'wait': {name: self.waiter(name) for name in self.waiter_names},
        }

    def close(self):
        self.finish([*self.futures.values(), *self.waiters.values(), self.consumer])


KINDS = ['next', 'first', 'first pop', 'exception', 'exception pop', 'failure', 'failure pop', 'two', 'all']


def run(report):
    deep = report.thorough
    def names(values):
        return '{' + ', '.join(f'"{v}"' for v in values) + '}'
    def part(driver, futures, waiters, kinds, hows, consumer, duplicates, name):
        check_graph(
            report, 'S04', 'S04.cfg', Groups(driver, futures, waiters), name = name, walks = 500,
            walk_length = 30, constants = {
                'Fs': names(futures), 'Ws': names(waiters), 'Kinds': names(kinds), 'Hows': names(hows),
                'Consumer': str(consumer).upper(), 'Dups': str(duplicates).upper(),
            },
        )
    def main(driver):
        for kind in KINDS:
            hows = ['result']
            if kind.startswith(('exception', 'failure')) or deep:
                hows = ['result', 'error', 'cancelled']
            part(driver, 'ab', 'v', [kind], hows, False, deep or kind == 'first pop', f'waiting for {kind}')
        part(driver, 'ab', 'vw', ['first', 'first pop'], ['result'], False, False, 'two waiters, first')
        part(driver, 'ab', 'vw', ['exception pop', 'failure'], ['error', 'result'], False, False, 'two waiters, failures')
        part(driver, 'ab', '', [], ['result'], True, False, 'exhausting')
        part(driver, 'ab', 'v', ['first pop'], ['result'], True, False, 'exhausting and popping')
        part(driver, 'abc', 'v', ['three'], ['result'], False, False, 'three of three')
    run_in_loop(batched(main))
    report.assumptions = [
        'the state of the group is compared whenever the loop is idle',
        'which of several done futures is returned is not specified',
    ]
