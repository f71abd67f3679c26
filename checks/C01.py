from vf.harness import Clock
from vf.conform import batched, check_graph
from vf.common import E1
from vf.looped import ControlledLoop


class Function:
    """Functions of the same name are equal, whatever they do."""
    def __init__(self, adapter, name, kind):
        self.adapter = adapter
        self.name = name
        self.kind = kind
    def __eq__(self, other):
        return isinstance(other, Function) and other.name == self.name
    def __hash__(self):
        return hash(self.name)
    def __call__(self, cycler):
        return self.adapter.called(self, cycler)


class AsyncFunction(Function):
    __hash__ = Function.__hash__
    async def __call__(self, cycler):
        self.adapter.called(self, cycler)


class Cyclers:
    def __init__(self, names, limit, outside):
        self.controlled = ControlledLoop()
        self.loop = self.controlled.loop
        self.names = names
        self.limit = limit
        self.outside = outside
        self.history = []
        self.log = []
        self.cycler = None
        self.turn = 0

    def reset(self):
        from scarletio import Cycler
        if self.cycler is not None:
            self.cycler.cancel()
        self.controlled.settle()
        if self.outside:
            self.cycler = Cycler(self.loop, 2)
        else:
            self.cycler = self.controlled.call(lambda: Cycler(self.loop, 2.0))
        self.turn += 1
        self.fresh = self.turn % 2 and not self.outside
        self.log = []
        self.async_log = []

    def other(self, name):
        return next(n for n in self.names if n != name)

    def called(self, function, cycler):
        from scarletio import CancelledError
        name = function.name
        kind = function.kind
        if cycler is not self.cycler:
            name = 'wrong parameter'
        log = self.async_log if kind == 'async' else self.log
        log.append(name)
        if kind == 'raise':
            raise E1() if name == 'a' else CancelledError()
        elif kind == 'cancel':
            cycler.cancel()
        elif kind == 'reschedule':
            cycler.reschedule()
        elif kind == 'slow down':
            cycler.set_cycle_time(4)
        elif kind == 'remove itself':
            cycler.remove(function)
        elif kind == 'remove other':
            cycler.remove(Function(self, self.other(name), 'none'))
        elif kind == 'append early' or kind == 'append late':
            if len(cycler.funcs) < self.limit:
                cycler.append(Function(self, self.other(name), 'none'), 0 if kind == 'append early' else 2)
        elif kind == 'cancel, start':
            cycler.cancel()
            cycler.reschedule()
        elif kind == 'once more':
            if log.count(name) == 1:
                cycler.call_now()

    def perform(self, op, argument):
        cycler = self.cycler
        fresh, self.fresh = self.fresh, False
        if op == 'append':
            name, priority, kind = argument
            function = (AsyncFunction if kind == 'async' else Function)(self, name, kind)
            if fresh:
                # a cycler can be created with its first function too
                from scarletio import Cycler
                cycler.cancel()
                self.cycler = Cycler(self.loop, 2, function, priority = priority)
            else:
                cycler.append(function, priority)
        elif op == 'remove':
            cycler.remove(Function(self, argument, 'none'))
        else:
            getattr(cycler, op)()

    def do(self, op, args):
        self.fresh = self.fresh and op == 'append'
        if op == 'pass':
            Clock.now += 1.0
            return '-'
        if op == 'set_cycle_time':
            self.cycler.set_cycle_time(args[0])
            return '-'
        if op == 'post':
            self.perform(*args)
            return '-'
        if op != 'settle':
            self.controlled.call(lambda: self.perform(op, args[0]))
        if op in ('settle', 'call_now'):
            self.controlled.settle()
        log = self.log + self.async_log
        self.log = []
        self.async_log = []
        return log

    def observe(self):
        return self.controlled.call(self.state)

    def state(self):
        cycler = self.cycler
        due = cycler.get_time_till_next_call()
        if due >= 0 and cycler.get_time_of_next_call() != Clock.now + due:
            due = ['inconsistent', due, cycler.get_time_of_next_call()]
        if due == -1 and cycler.get_time_of_next_call() != -1:
            due = ['inconsistent', due, cycler.get_time_of_next_call()]
        if cycler.running != (due != -1):
            due = ['inconsistent', due, cycler.running]
        compared = []
        if len(cycler.funcs) > 1:
            first, last = cycler.funcs[0], cycler.funcs[-1]
            compared = [
                first < last, first <= last, first == last, first >= last, first > last,
                last < first, last <= first, last == first, last >= first, last > first,
            ]
        return {
            'cmp': compared, 'due': due, 'cycle': cycler.cycle_time,
            'funcs': [[f.func.name, f.priority, f.func.kind] for f in cycler.funcs],
        }

    def close(self):
        pass


def run(report):
    deep = report.thorough
    def names(values):
        return '{' + ', '.join(f'"{v}"' for v in values) + '}'
    def part(name, kinds, limit = 2, times = (2, 3), posts = 0, outside = False):
        check_graph(
            report, 'C01', 'C01.cfg', Cyclers('ab', limit, outside), name = name, walks = 200, walk_length = 40, constants = {
                'Names': names('ab'), 'Kinds': names(['none', *kinds]), 'Times': '{' + ', '.join(map(str, times)) + '}',
                'MaxFuncs': str(limit), 'MaxPosts': str(posts), 'Outside': str(outside).upper(),
            },
        )
    def main():
        part('priorities', ['raise', 'async'], 2 + deep, [2])
        part('cancelling', ['cancel', 'reschedule', 'cancel, start'])
        part('changing', ['remove itself', 'remove other', 'append early', 'append late'], 2 + deep, [2])
        part('repeating', ['once more', 'slow down', 'cancel'])
        part('an other thread', ['cancel', 'once more'] if deep else ['cancel'], 1 + deep, [2], 2)
        part('created by an other thread', [], 1, [2], 3 if deep else 2, True)
    batched(main)()
    report.assumptions = ['functions a cycler calls are called by the real runner of a loop whose clock is controlled']
