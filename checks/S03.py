from vf.harness import run_in_loop
from vf.conform import batched, check_graph
from vf.common import BaseAdapter, outcome, E1


class Queues(BaseAdapter):
    def __init__(self, driver, lifo, maximum, getters, putters):
        BaseAdapter.__init__(self, driver)
        self.lifo = lifo
        self.maximum = maximum
        self.names = [*getters, *putters]

    turn = 0

    def create(self, *args, **kwargs):
        from scarletio import AsyncQueue, AsyncLifoQueue
        if self.maximum or self.turn % 4 < 2:
            kwargs['max_length'] = self.maximum or None
        return (AsyncLifoQueue if self.lifo else AsyncQueue)(self.loop, *args, **kwargs)

    def do(self, op, args):
        fresh, self.fresh = self.fresh, False
        # what is done first can be done by creating it so
        if fresh and op == 'put':
            self.queue = self.create(args) if self.turn % 4 < 2 else self.create(iterable = iter(args))
            return 0
        if fresh and op == 'set_exception':
            self.set_exception(args[0])
            self.queue = self.create(exception = self.exception)
            return '-'
        return BaseAdapter.do(self, op, args)

    def reset(self):
        self.driver.clear()
        self.queue = self.create()
        self.turn += 1
        self.fresh = self.turn % 2
        self.tasks = {}
        self.exception = None

    async def get(self, how):
        if how == 'await':
            return 'got', await self.queue
        if how == 'get':
            return 'got', await self.queue.get_result()
        async for element in self.queue:
            return 'got', element
        return 'stopped',

    async def put(self, element):
        return 'put', await self.queue.set_result_wait(element)

    def start(self, name, coroutine):
        from scarletio import Task
        self.tasks[name] = Task(self.loop, coroutine)
        return '-'

    def do_get(self, name, how):
        return self.start(name, self.get(how))
    def do_put_wait(self, name, element):
        return self.start(name, self.put(element))
    def do_put(self, element):
        return self.queue.set_result(element)
    def do_get_now(self):
        from scarletio import CancelledError
        try:
            return ['got', self.queue.get_result_no_wait()]
        except IndexError:
            return ['empty']
        except CancelledError as exception:
            if exception is not self.exception:
                return ['other exception']
            return ['cancelled']
        except E1 as exception:
            if exception is not self.exception:
                return ['other exception']
            return ['error', 'e1']
    def do_cancel(self, name):
        self.tasks[name].cancel()
        return '-'
    def do_set_exception(self, name):
        self.set_exception(name)
        self.queue.set_exception(self.exception)
        return '-'
    def set_exception(self, name):
        from scarletio import CancelledError
        self.exception = CancelledError() if name == 'cancelled' else E1()
    def do_clear(self):
        self.queue.clear()
        return '-'
    def do_reverse(self):
        self.queue.reverse()
        return '-'
    def do_drain(self):
        self.driver.drain()
        ended = {}
        for name in self.names:
            task = self.tasks.get(name)
            if task is None or task.is_pending():
                ended[name] = ['-']
                continue
            del self.tasks[name]
            end = outcome(task)
            ended[name] = list(task.get_result()) if end[0] == 'result' else end
        return ended

    def observe(self):
        return {'len': len(self.queue), 'max': self.queue.max_length or 0}

    def close(self):
        self.finish(self.tasks.values())


def run(report):
    deep = report.thorough
    def names(values):
        return '{' + ', '.join(f'"{v}"' for v in values) + '}'
    def part(driver, lifo, maximum, getters, putters, put, hows, errors, name):
        check_graph(
            report, 'S03', 'S03.cfg', Queues(driver, lifo, maximum, getters, putters), name = name, walks = 500,
            walk_length = 30, constants = {
                'Getters': names(getters), 'Putters': names(putters), 'Max': str(maximum), 'MaxPut': str(put),
                'Lifo': str(lifo).upper(), 'Hows': names(hows), 'Errors': names(errors),
            },
        )
    def main(driver):
        for lifo in (False, True):
            kind = 'stack' if lifo else 'queue'
            part(driver, lifo, 0, 'ab', '', 3, ['await', 'iterate'], [], f'{kind}, two receivers')
            part(driver, lifo, 0, 'a', 'p', 3 if deep else 2, ['await', 'iterate', 'get'], ['e1', 'cancelled'], f'{kind}, errors')
            part(driver, lifo, 1, 'a', 'pq', 4 if deep else 3, ['await'], ['e1'], f'{kind} of 1')
            part(driver, lifo, 2, 'a', 'pq', 5 if deep else 4, ['iterate'], [], f'{kind} of 2')
            if deep:
                part(driver, lifo, 1, 'ab', 'pq', 3, ['get'], [], f'{kind} of 1, two receivers')
                part(driver, lifo, 0, 'abc', '', 3, ['get'], ['e1'], f'{kind}, three receivers')
    run_in_loop(batched(main))
    report.assumptions = [
        'results are compared whenever the loop is idle; gets, puts and cancellations pile up between',
        'an element whose receiver was cancelled before it resumed goes to the next receiver, in front of the later ones',
    ]
