from vf.harness import run_in_loop
from vf.conform import batched, check_graph
from vf.common import BaseAdapter, outcome


class Events(BaseAdapter):
    def __init__(self, driver, tasks, how):
        BaseAdapter.__init__(self, driver)
        self.names = tasks
        self.how = how

    def reset(self):
        from scarletio import Event
        self.driver.clear()
        self.event = Event(self.loop)
        self.tasks = {}
        self.resumed = {}
        self.wrong = []
        self.dirty = False

    async def wait(self, name):
        number = self.resumed[name] = self.resumed.get(name, 0)
        if self.how == 'await':
            await self.event
        else:
            await self.event.wait()
        self.resumed[name] += 1
        if self.resumed[name] != number + 1:
            self.wrong.append(f'{name} resumed more than once')

    def do_wait(self, name):
        from scarletio import Task
        self.dirty = True
        self.tasks[name] = Task(self.loop, self.wait(name))
        return '-'
    def do_set(self):
        self.dirty = True
        self.event.set()
        return '-'
    def do_clear(self):
        self.event.clear()
        return '-'
    def do_cancel(self, name):
        self.dirty = True
        self.tasks[name].cancel()
        return '-'
    def do_time_out(self, name):
        self.dirty = True
        self.tasks[name].apply_timeout(0)
        return '-'
    def do_drain(self):
        self.driver.drain()
        self.dirty = False
        return '-'

    def state(self, name):
        task = self.tasks.get(name)
        if task is None:
            return 'idle'
        end = outcome(task)
        return {
            'pending': 'waiting', 'result': 'resumed', 'cancelled': 'cancelled', 'cancelled with': 'timed out',
        }.get(end[0], end)

    def observe(self):
        self.check_wrong()
        value = self.event.is_set()
        if self.dirty:
            return {'dirty': True, 'value': value}
        return {'dirty': False, 'value': value, 'st': {name: self.state(name) for name in self.names}}

    def close(self):
        self.finish(self.tasks.values())


def run(report):
    def main(driver):
        for how in ('await', 'wait'):
            tasks = 'abcd' if report.thorough else 'abc'
            check_graph(
                report, 'S02', 'S02.cfg', Events(driver, tasks, how), name = f'event, {how}', walks = 500,
                constants = {'Tasks': '{' + ', '.join(f'"{t}"' for t in tasks) + '}'},
            )
    run_in_loop(batched(main))
    report.assumptions = ['states are compared whenever the loop is idle; sets, clears, waits and cancellations pile up between']
