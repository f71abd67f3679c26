from .common import BaseAdapter, outcome


class Locks(BaseAdapter):
    """Tasks asking for a lock. `blocks`: whether they use it as an `async with` block, or acquire and release it."""
    def __init__(self, driver, size, tasks, watchers, blocks, sized):
        BaseAdapter.__init__(self, driver)
        self.size = size
        self.names = tasks
        self.watcher_names = watchers
        self.blocks = blocks
        self.sized = sized

    def reset(self):
        from scarletio import Lock, ScarletLock
        self.driver.clear()
        self.wrong = []
        self.lock = ScarletLock(self.loop, self.size) if self.sized else Lock(self.loop)
        self.tasks = {}
        self.leave = {}
        self.watchers = {}
        self.holding = set()
        self.got = set()
        self.dirty = False

    def enter(self, name):
        self.holding.add(name)
        self.got.add(name)
        if len(self.holding) > self.size:
            self.wrong.append(f'held by {sorted(self.holding)}')

    async def use_block(self, name):
        from scarletio import Future
        async with self.lock:
            self.enter(name)
            try:
                leave = self.leave[name] = Future(self.loop)
                await leave
            finally:
                self.holding.discard(name)

    async def use_calls(self, name):
        await self.lock.acquire()
        self.enter(name)

    async def watch(self):
        await self.lock

    def do_ask(self, name):
        from scarletio import Task
        self.dirty = True
        self.tasks[name] = Task(self.loop, (self.use_block if self.blocks else self.use_calls)(name))
        return '-'
    def do_leave(self, name):
        self.dirty = True
        if self.blocks:
            self.leave[name].set_result(None)
        else:
            self.holding.discard(name)
            self.lock.release()
        return '-'
    def do_cancel(self, name):
        self.dirty = True
        self.tasks[name].cancel()
        return '-'
    def do_watch(self, name):
        from scarletio import Task
        self.watchers[name] = Task(self.loop, self.watch())
        self.driver.drain()
        return '-'
    def do_unwatch(self, name):
        self.dirty = True
        self.watchers[name].cancel()
        return '-'
    def do_drain(self):
        self.got.clear()
        self.driver.drain()
        self.dirty = False
        return {name: name in self.got for name in self.names}

    def state(self, name):
        task = self.tasks.get(name)
        if task is None:
            return 'idle'
        if name in self.holding:
            return 'holding'
        if task.is_pending():
            return 'waiting'
        end = outcome(task)
        return {'result': 'left', 'cancelled': 'cancelled'}.get(end[0], end)

    def watcher(self, name):
        task = self.watchers.get(name)
        if task is None:
            return 'idle'
        end = outcome(task)
        return {'pending': 'waiting', 'result': 'done', 'cancelled': 'cancelled'}.get(end[0], end)

    def observe(self):
        self.check_wrong()
        if self.dirty:
            return {'dirty': True}
        states = {name: self.state(name) for name in self.names}
        lock = self.lock
        observed = {
            'dirty': False, 'st': states, 'w': {name: self.watcher(name) for name in self.watcher_names},
            'locked': bool(lock.is_locked()),
        }
        if self.sized:
            observed['acquired'] = lock.get_acquired()
            observed['waiting'] = lock.get_waiting()
        else:
            observed['acquired'] = len(self.holding)
            observed['waiting'] = sum(state == 'waiting' for state in states.values())
        return observed

    def close(self):
        self.finish([*self.tasks.values(), *self.watchers.values(), *self.leave.values()])


def check_locks(report, driver, *, size, tasks, watchers, blocks, sized, name, walks = 300):
    from .conform import check_graph
    def names(values):
        return '{' + ', '.join(f'"{v}"' for v in values) + '}'
    return check_graph(
        report, 'S01', 'S01.cfg', Locks(driver, size, tasks, watchers, blocks, sized), name = name, walks = walks,
        constants = {
            'Tasks': names(tasks), 'Watchers': names(watchers), 'Size': str(size), 'HolderCancel': str(blocks).upper(),
        },
    )
