from vf.harness import run_in_loop
from vf.conform import batched, check_graph
from vf.common import BaseAdapter, outcome
from vf.locks import check_locks


class Failure(Exception):
    pass


class Body(Exception):
    pass


class Executors(BaseAdapter):
    def __init__(self, driver, limit, jobs):
        BaseAdapter.__init__(self, driver)
        self.limit = limit
        self.jobs = jobs
        self.executor = None
        self.turn = 0

    def reset(self):
        from scarletio import ScarletExecutor, Task
        self.driver.clear()
        # one which was left can be entered again (if nothing failed, nobody says what is then)
        if (
            self.executor is None or self.owner.is_pending() or self.owner.get_exception() is not None
            or 'failed' in self.states.values() or self.turn % 4 == 0
        ):
            self.executor = ScarletExecutor() if self.limit == 10 else ScarletExecutor(self.limit)
        self.turn += 1
        self.wrong = []
        self.futures = {}
        self.states = {job: 'none' for job in range(1, self.jobs + 1)}
        self.command = None
        self.where = 'in'
        self.dirty = False
        self.owner = Task(self.loop, self.own())
        self.driver.drain()

    async def job(self, number):
        from scarletio import CancelledError
        try:
            await self.futures[number]
        except CancelledError:
            self.states[number] = 'cancelled'
            raise
        except BaseException:
            self.states[number] = 'failed'
            raise
        self.states[number] = 'ok'

    async def own(self):
        from scarletio import Future
        async with self.executor as executor:
            while True:
                self.where = 'in'
                self.command = Future(self.loop)
                command = await self.command
                if command == 'leave':
                    self.where = 'leaving'
                    break
                if command == 'raise':
                    self.where = 'leaving'
                    raise Body
                self.where = 'adding'
                number = len(self.futures) + 1
                self.futures[number] = Future(self.loop)
                self.states[number] = 'running'
                task = self.loop.create_task(self.job(number))
                task.add_done_callback(lambda future, number = number: self.ended(number, future))
                await executor.add(task)

    def ended(self, number, future):
        if future.is_cancelled():
            self.states[number] = 'cancelled'
        unfinished = sum(state == 'running' for state in self.states.values())
        future.silence()

    def do_tell(self, command):
        self.dirty = True
        self.command.set_result(command)
        return '-'
    def do_settle(self, number, how):
        self.dirty = True
        future = self.futures[number]
        if how == 'ok':
            future.set_result(None)
        elif how == 'failed':
            future.set_exception(Failure(number))
        else:
            future.cancel()
        return '-'
    def do_drain(self):
        self.driver.drain()
        self.dirty = False
        return '-'

    def observe(self):
        self.check_wrong()
        if self.dirty:
            return {'dirty': True}
        if self.owner.is_pending():
            owner = self.where
        else:
            adding = self.executor.add(None)
            try:
                adding.send(None)
            except RuntimeError:
                pass
            else:
                self.wrong.append('added when left')
            exception = self.owner.get_exception()
            if exception is None:
                owner = 'left'
            elif isinstance(exception, Failure):
                owner = str(exception.args[0])
            elif isinstance(exception, Body):
                owner = 'body'
            else:
                owner = repr(exception)
        return {'dirty': False, 'owner': owner, 'job': [self.states[job] for job in sorted(self.states)]}

    def close(self):
        self.finish([self.command, *self.futures.values(), self.owner])


def run(report):
    deep = report.thorough
    def main(driver):
        for limit in (1, 2, 3):
            jobs = 4 if deep else 3
            check_graph(
                report, 'S05E', 'S05E.cfg', Executors(driver, limit, jobs), name = f'ScarletExecutor({limit})',
                constants = {'Limit': str(limit), 'Jobs': str(jobs)}, walks = 300,
            )
        for blocks in (False, True):
            how = 'blocks' if blocks else 'calls'
            for size in (1, 2, 3):
                check_locks(
                    report, driver, size = size, tasks = 'abcd' if deep or size > 1 else 'abc', watchers = 'x' if deep else '',
                    blocks = blocks, sized = True, name = f'ScarletLock({size}) used by {how}',
                )
    run_in_loop(batched(main))
    report.assumptions = ['only the owner of a ScarletExecutor adds to it']
