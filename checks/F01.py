from vf.harness import run_in_loop
from vf.conform import batched, check_graph

ERRORS = {}


class Adapter:
    def __init__(self, driver, callbacks):
        from scarletio import Future
        self.driver = driver
        self.Future = Future
        self.names = callbacks
        class E1(Exception): pass
        class E2(Exception): pass
        self.errors = {'e1': E1, 'e2': E2}

    def reset(self):
        self.driver.clear()
        self.future = self.Future(self.driver.loop)
        self.calls = []
        self.wrong = []
        self.instances = {}
        future = self.future

        def make(name):
            def callback(*args):
                self.calls.append(name)
                if len(args) != 1 or args[0] is not future:
                    self.wrong.append(args)
                if not future.is_done():
                    self.wrong.append('called while pending')
                if name == 'r':
                    if future.set_result_if_pending('again') or future.cancel():
                        self.wrong.append('settled again')
                    future.add_done_callback(self.functions['a'])
                if name == 'x':
                    raise ValueError('callback')
            return callback
        self.functions = {name: make(name) for name in self.names}

    def tag(self, value):
        from scarletio import CancelledError
        if value is None:
            return 'none'
        for name, type_ in self.errors.items():
            if type(value) is type_:
                # the very exception which was given
                if name in self.instances and self.instances[name] is not value:
                    return 'other instance of ' + name
                return name
        if type(value) is CancelledError:
            return 'cancelled'
        return value if isinstance(value, (str, int)) else repr(value)

    def do(self, op, args):
        from scarletio import InvalidStateError
        future = self.future
        before = len(self.calls)
        try:
            ret = getattr(self, 'do_' + op)(*args)
        except InvalidStateError:
            ret = 'invalid state'
        except TypeError:
            ret = 'type error'
        calls = {name: self.calls[before:].count(name) for name in self.names}
        return {'ret': ret, 'calls': calls}

    def error(self, name):
        """An instance which is remembered if it becomes the outcome"""
        exception = self.errors[name]()
        if self.future.is_pending():
            self.instances[name] = exception
        return exception

    def do_set_result(self, v):
        self.future.set_result(v)
        return 'ok'
    def do_set_exception(self, e):
        self.future.set_exception(self.error(e))
        return 'ok'
    def do_set_exception_type(self, e):
        self.future.set_exception(self.errors[e])
        return 'ok'
    def do_set_result_if_pending(self, v):
        return str(int(self.future.set_result_if_pending(v)))
    def do_set_exception_if_pending(self, e):
        return str(int(self.future.set_exception_if_pending(self.error(e))))
    def do_cancel(self):
        return str(int(self.future.cancel()))
    def do_cancel_with(self, e):
        return str(int(self.future.cancel_with(self.error(e))))
    def do_set_stop_iteration(self):
        self.future.set_exception(StopIteration(1))
        return 'ok'
    def do_set_stop_iteration_if_pending(self):
        return str(int(self.future.set_exception_if_pending(StopIteration)))
    def do_cancel_with_stop_iteration(self):
        return str(int(self.future.cancel_with(StopIteration())))
    def do_silence(self):
        self.future.silence()
        return 'ok'
    def do_add(self, c):
        self.future.add_done_callback(self.functions[c])
        return 'ok'
    def do_remove(self, c):
        return str(self.future.remove_done_callback(self.functions[c]))
    def do_run_one(self):
        calls = len(self.calls)
        while len(self.calls) == calls and self.driver.step():
            pass
        return 'ok'
    def do_run_all(self):
        self.driver.drain()
        return 'ok'

    def read(self, function):
        from scarletio import InvalidStateError
        try:
            value = function()
        except InvalidStateError:
            return ['invalid state']
        except BaseException as exception:
            return ['raises', self.tag(exception)]
        return ['returns', self.tag(value)]

    def observe(self):
        future = self.future
        if self.wrong:
            from vf.report import Violation
            raise Violation(f'F01: a callback was called wrongly: {self.wrong!r}', list(self.history))
        callbacks = list(future.iter_callbacks())
        return {
            'result': self.read(future.get_result), 'exception': self.read(future.get_exception),
            'cancellation': self.read(future.get_cancellation_exception),
            'done': future.is_done(), 'pending': future.is_pending(), 'cancelled': future.is_cancelled(),
            'registered': {name: sum(c is f for c in callbacks) for name, f in self.functions.items()},
        }

    def close(self):
        self.future.silence()
        self.driver.clear()
        self.future = None


def run(report):
    def part(driver, callbacks, added, name, **kwargs):
        check_graph(
            report, 'F01', 'F01.cfg', Adapter(driver, callbacks), name = name, constants = {
                'Callbacks': '{' + ', '.join(f'"{c}"' for c in callbacks) + '}',
                'Values': '{"v1", "v2"}', 'Errors': '{"e1", "e2"}', 'MaxAdded': str(added),
            }, **kwargs,
        )

    def main(driver):
        deep = report.thorough
        part(driver, ['a', 'b'], 4 if deep else 3, 'future', walks = 3000 if deep else 300)
        part(driver, ['a', 'r'], 4 if deep else 3, 'future with a re-entrant callback', walks = 3000 if deep else 300)
        part(driver, ['a', 'x'], 3 if deep else 2, 'future with a raising callback', walks = 3000 if deep else 300)
    run_in_loop(batched(main))
    report.assumptions = ['callbacks are judged by how often and when they are called, not by their relative order']
