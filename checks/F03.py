from vf.harness import run_in_loop, Clock
from vf.conform import batched, check_graph
from vf.common import BaseAdapter, outcome, E1, tag


class Timeouts(BaseAdapter):
    def __init__(self, driver, mode):
        BaseAdapter.__init__(self, driver)
        self.mode = mode

    turn = 0

    def reset(self):
        from scarletio import Future, Task
        self.driver.clear()
        Clock.now = 1000.0
        self.f = self.m = self.n = None
        if self.mode == 'sleep':
            return
        self.f = Future(self.loop)
        if self.mode != 'future':
            self.m = Task(self.loop, self.coroutine())
            self.driver.drain()

    async def coroutine(self):
        if self.mode == 'guarded':
            try:
                return await self.f
            except GeneratorExit:
                raise
            except BaseException:
                return 'handled'
        return await self.f

    @property
    def target(self):
        return self.f if self.mode == 'future' else self.m

    def do_apply(self, delay):
        return str(int(self.target.apply_timeout(delay)))
    def do_apply_now(self, delay):
        return str(int(self.target.apply_timeout(-delay)))
    def do_set_result(self):
        self.f.set_result('v')
        return '-'
    def do_set_exception(self):
        self.f.set_exception(E1())
        return '-'
    def do_cancel(self):
        self.f.cancel()
        return '-'
    def do_sleep(self, delay):
        from scarletio import sleep, Task
        async def sleeper():
            # the loop is the one it runs in by default
            await (sleep(delay) if self.turn % 2 else sleep(delay, self.loop))
            return 'awake'
        self.turn += 1
        self.n = Task(self.loop, sleeper())
        self.driver.drain()
        return '-'
    def do_cancel_sleep(self):
        self.n.cancel()
        return '-'

    def observe(self):
        none = ['pending']
        return {
            'f': none if self.f is None else outcome(self.f), 'm': none if self.m is None else outcome(self.m),
            'n': outcome(self.n) if self.mode == 'sleep' else none,
        }

    def close(self):
        self.finish([self.m, self.n, self.f])


class Shields(BaseAdapter):
    def __init__(self, driver, is_task):
        BaseAdapter.__init__(self, driver)
        self.is_task = is_task

    def reset(self):
        from scarletio import Future, Task
        self.driver.clear()
        self.f = Future(self.loop)
        async def awaiting(future):
            return await future
        if self.is_task:
            self.p = Task(self.loop, awaiting(self.f))
            self.driver.drain()
        else:
            self.p = self.f
        self.shields = {'s': None, 't': None}
        self.m = None

    def do_shield(self, name):
        from scarletio import shield
        future = shield(self.p, self.loop)
        self.shields[name] = future
        return 'same' if future is self.p else 'new'
    def do_set_result(self):
        self.f.set_result('v')
        return '-'
    def do_set_exception(self):
        self.f.set_exception(E1())
        return '-'
    def do_cancel(self):
        self.f.cancel()
        return '-'
    def do_cancel_with(self):
        self.f.cancel_with(E1())
        return '-'
    def do_cancel_shield(self, name):
        return str(int(self.shields[name].cancel()))
    def do_timeout_shield(self, name):
        return str(int(self.shields[name].apply_timeout(0)))
    def do_await(self):
        from scarletio import Task
        async def awaiting(future):
            return await future
        self.m = Task(self.loop, awaiting(self.shields['s']))
        self.driver.drain()
        return '-'
    def do_cancel_task(self):
        return str(int(self.m.cancel()))

    def observe(self):
        return {
            'f': outcome(self.f), 'p': outcome(self.p), 'm': outcome(self.m),
            'sh': {name: outcome(future) for name, future in self.shields.items()},
        }

    def close(self):
        self.finish([self.m, *self.shields.values(), self.p, self.f])


class Repeat(BaseAdapter):
    def __init__(self, driver, period):
        BaseAdapter.__init__(self, driver)
        self.period = period

    def reset(self):
        from scarletio import Task
        self.driver.clear()
        Clock.now = 1000.0
        self.log = []
        self.rounds = 0
        self.future = None
        self.task = Task(self.loop, self.coroutine())
        self.driver.drain()

    def wait(self):
        from scarletio import Future
        self.future = Future(self.loop)
        return self.future

    async def coroutine(self):
        from scarletio import repeat_timeout
        self.log.append('enter')
        try:
            with repeat_timeout(self.period) as loop:
                for _ in loop:
                    self.rounds += 1
                    if await self.wait() == 'leave':
                        break
        except TimeoutError:
            self.log.append('timeout')
        except E1:
            self.log.append('error')
        else:
            self.log.append('left')
        await self.wait()

    def do_set(self, kind):
        if kind == 'error' and 'enter' == self.log[-1]:
            self.future.set_exception(E1())
        else:
            self.future.set_result(kind)
        return '-'
    def do_cancel(self):
        self.task.cancel()
        return '-'

    def observe(self):
        out = outcome(self.task)
        return {'log': list(self.log), 'out': out[0] if len(out) == 1 or out == ['result', 'none'] else out, 'rounds': self.rounds}

    def close(self):
        self.finish([self.task, self.future])


def run(report):
    def main(driver):
        deep = report.thorough
        for mode in ('future', 'task', 'guarded', 'sleep'):
            check_graph(
                report, 'F03', 'F03.cfg', Timeouts(driver, mode), name = f'timeouts, {mode}', walks = 200, constants = {
                    'Mode': f'"{mode}"', 'MaxTime': '5' if deep else '3', 'Delays': '{1, 2, 3}' if deep else '{1, 2}',
                    'MaxApplied': '3' if deep else '2', 'Negatives': '{0, 1}',
                },
            )
        for is_task in (False, True):
            check_graph(
                report, 'F03S', 'F03S.cfg', Shields(driver, is_task), name = f'shields of a {"task" if is_task else "future"}',
                walks = 200, constants = {'Shields': '{"s", "t"}', 'IsTask': str(is_task).upper()},
            )
        for period in (1, 2, 3) if deep else (2,):
            check_graph(
                report, 'F03R', 'F03R.cfg', Repeat(driver, period), name = f'repeat_timeout({period})', walks = 300,
                constants = {'Period': str(period), 'MaxTime': '7' if deep else '5', 'MaxRounds': '4' if deep else '3'},
            )
    run_in_loop(batched(main))
    report.assumptions = ['time is a clock under control of the check; it stands at whole units or just before them']
