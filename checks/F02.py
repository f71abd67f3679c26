from vf.harness import run_in_loop
from vf.conform import batched, check_graph
from vf.report import Violation


class Adapter:
    def __init__(self, driver):
        from scarletio import Future, Task, CancelledError
        self.driver = driver
        self.loop = driver.loop
        self.Future = Future
        self.Task = Task
        self.CancelledError = CancelledError
        class E1(Exception): pass
        class E2(Exception): pass
        self.errors = {'e1': E1, 'e2': E2}

    def reset(self):
        self.driver.clear()
        self.objects = {'f': self.Future(self.loop), 'g': self.Future(self.loop)}
        self.log = {'m': [], 'i': []}
        self.wrong = []
        self.resumed = {'m': 0, 'i': 0}

    def tag(self, exception):
        if isinstance(exception, self.CancelledError):
            return 'cancelled'
        for name, type_ in self.errors.items():
            if type(exception) is type_:
                return name
        return repr(exception)

    async def coroutine(self, name, program):
        from scarletio import skip_ready_cycle
        log = self.log[name]
        for instruction in program:
            kind = instruction[0]
            if self.loop.current_task is not self.objects[name]:
                self.wrong.append(f'{name} runs while the current task is {self.loop.current_task!r}')
            if kind == 'await':
                log.append(['result', await self.objects[instruction[1]]])
            elif kind == 'guard':
                try:
                    value = await self.objects[instruction[1]]
                except GeneratorExit:
                    raise
                except BaseException as exception:
                    log.append(['error', self.tag(exception)])
                else:
                    log.append(['result', value])
            elif kind == 'convert':
                try:
                    value = await self.objects[instruction[1]]
                except GeneratorExit:
                    raise
                except BaseException as exception:
                    raise self.errors['e2'] from exception
                else:
                    log.append(['result', value])
            elif kind == 'wait':
                await self.objects[instruction[1]].wait_for_completion()
                log.append(['completed'])
            elif kind == 'yield':
                await skip_ready_cycle()
                log.append(['go'])
            elif kind == 'cancel':
                if not self.objects[name].cancel():
                    self.wrong.append(f'{name} could not cancel itself')
            elif kind == 'return':
                return instruction[1]
            elif kind == 'raise':
                raise self.errors[instruction[1]]
        return 'end'

    def do(self, op, args):
        return getattr(self, 'do_' + op)(*args)

    def do_start(self, programs):
        for name in ('i', 'm'):
            self.objects[name] = self.Task(self.loop, self.coroutine(name, programs[name]))
        return '-'
    def do_set_result(self, name):
        self.objects[name].set_result('v')
        return '-'
    def do_set_exception(self, name):
        self.objects[name].set_exception(self.errors['e1']())
        return '-'
    def do_cancel_future(self, name):
        self.objects[name].cancel()
        return '-'
    def do_cancel(self, name):
        return str(int(self.objects[name].cancel()))
    def do_cancel_with(self, name, error):
        return str(int(self.objects[name].cancel_with(self.errors[error])))
    def do_run_one(self):
        self.driver.step()
        return '-'
    def do_run_all(self):
        self.driver.drain()
        return '-'

    def outcome(self, name):
        future = self.objects.get(name)
        if future is None or future.is_pending():
            return ['pending']
        exception = future.get_cancellation_exception()
        if exception is not None:
            try:
                future.get_result()
            except BaseException as raised:
                if self.tag(raised) != self.tag(exception):
                    return ['cancelled', self.tag(raised), self.tag(exception)]
            else:
                return ['cancelled', 'but returns']
            if isinstance(exception, self.CancelledError):
                return ['cancelled']
            return ['cancelled with', self.tag(exception)]
        exception = future.get_exception()
        if exception is not None:
            return ['error', self.tag(exception)]
        return ['result', future.get_result()]

    def observe(self):
        if self.wrong:
            raise Violation(f'F02: {self.wrong!r}', list(self.history))
        current = self.loop.current_task
        return {
            'fut': {name: self.outcome(name) for name in 'fg'}, 'out': {name: self.outcome(name) for name in 'im'},
            'log': {name: list(self.log[name]) for name in 'im'}, 'current': '-' if current is None else 'task',
        }

    def close(self):
        for future in self.objects.values():
            future.silence()
        for name in 'fg':
            self.objects[name].cancel()
        for name in 'im':
            if name in self.objects:
                for _ in range(5):
                    self.objects[name].cancel()
                    self.driver.drain()
        self.driver.clear()


def check_rejections(driver, report):
    """Tasks cannot be settled from outside."""
    from scarletio import Task
    async def nothing():
        return 1
    task = Task(driver.loop, nothing())
    for name, value in (
        ('set_result', 1), ('set_result_if_pending', 1), ('set_exception', ValueError()),
        ('set_exception_if_pending', ValueError()),
    ):
        try:
            getattr(task, name)(value)
        except RuntimeError:
            pass
        else:
            raise Violation(f'F02: {name} settled a task', [name])
        if task.is_done():
            raise Violation(f'F02: {name} settled a task', [name])
    driver.drain()
    if task.get_result() != 1:
        raise Violation('F02: wrong result', [])


AWAITS = ['await', 'guard', 'convert', 'wait']


def programs(deep):
    for kind in AWAITS:
        yield [[kind, 'f'], ['return', 'r']], []
        yield [[kind, 'f'], ['await', 'g']], []
        yield [['cancel'], [kind, 'f'], ['return', 'r']], []
        yield [[kind, 'i'], ['return', 'r']], [['await', 'g'], ['return', 'q']]
        yield [[kind, 'i'], ['await', 'f']], [['guard', 'g'], ['return', 'q']]
        if deep:
            for other in AWAITS:
                yield [[kind, 'i'], [other, 'f'], ['yield'], ['raise', 'e2']], [['convert', 'g'], ['yield'], ['return', 'q']]
                yield [[kind, 'f'], ['yield'], [other, 'g']], [['yield'], ['cancel'], ['yield']]
                yield [['yield'], [other, 'f'], [kind, 'i']], [['guard', 'g'], ['guard', 'g'], ['cancel'], ['return', 'q']]
    yield [['yield'], ['yield'], ['raise', 'e1']], []
    yield [['cancel'], ['return', 'r']], []
    yield [['cancel'], ['raise', 'e1']], []
    yield [['cancel'], ['yield'], ['return', 'r']], []
    yield [['guard', 'f'], ['guard', 'g'], ['return', 'r']], []
    yield [['guard', 'i'], ['raise', 'e2']], [['raise', 'e1']]
    yield [['guard', 'i'], ['await', 'i']], [['yield'], ['cancel']]
    yield [['guard', 'f'], ['cancel'], ['await', 'i']], [['await', 'g'], ['yield']]


def literal(value):
    if isinstance(value, str):
        return f'"{value}"'
    return '<<' + ', '.join(literal(v) for v in value) + '>>'


def run(report):
    def main(driver):
        check_rejections(driver, report)
        adapter = Adapter(driver)
        all_programs = list(programs(report.thorough))
        check_graph(
            report, 'F02', 'F02.cfg', adapter, name = 'tasks', walks = 500,
            constants = {
                'Programs': '{' + ', '.join(f'[m |-> {literal(m)}, i |-> {literal(i)}]' for m, i in all_programs) + '}',
                'MaxCancels': '3' if report.thorough else '2',
            },
        )
    run_in_loop(batched(main))
    report.assumptions = [
        'coroutines are programs over two futures and one inner task', 'each future is awaited by at most one task',
    ]
