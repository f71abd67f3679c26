import math, selectors

from vf.harness import Clock
from vf.conform import batched, check_graph
from vf.common import BaseAdapter, E1
from vf.looped import ControlledLoop
from vf.report import Violation

OTHER = {'a': 'b', 'b': 'c', 'c': 'a'}


class Uncommon(BaseException):
    pass


class Object:
    """Its bound method is the callback."""
    def __init__(self, function):
        self.function = function
    def run(self, *args):
        return self.function(*args)


class Cycles:
    """Acts on a running loop, from inside of it."""
    def __init__(self, slots):
        self.controlled = ControlledLoop()
        self.loop = self.controlled.loop
        self.slots = slots
        self.history = []

    def do(self, op, args):
        if op == 'settle':
            self.log = []
            timeout = self.controlled.settle()
            sleep = 'forever' if timeout is None else math.ceil(timeout)
            log, self.log = self.log, []
            return {'log': log, 'sleep': sleep}
        return self.controlled.call(lambda: getattr(self, 'do_' + op)(*args))

    def reset(self):
        def clear():
            for handle in [*self.loop._ready, *self.loop._scheduled]:
                handle.cancel()
            self.handles = {}
            self.held = {}
            self.log = []
        self.log = []
        self.controlled.call(clear)
        self.controlled.settle()

    def callback(self, name, kind):
        token = object()
        def function(given):
            self.log.append(name if given is token and token is not None else 'wrong parameters')
            other = OTHER[name]
            if other not in self.slots:
                other = None
            # not scheduled any more
            self.handles.pop(name, None)
            if kind == 'raise':
                raise E1() if name == 'a' else Uncommon()
            if other is None:
                return
            if kind == 'soon':
                if other not in self.handles:
                    self.do_soon(other, 'plain')
            elif kind == 'zero':
                if other not in self.handles:
                    self.do_timed(other, 'plain', 'after', 0)
            elif kind == 'later':
                if other not in self.handles and Clock.now == int(Clock.now):
                    self.do_timed(other, 'plain', 'at' if name == 'a' else 'after', 1)
            elif kind == 'cancel':
                if other in self.handles:
                    self.do_cancel(other)
            elif kind == 'drop':
                if other in self.held and other in self.handles:
                    self.do_drop(other)
        return function, token

    def do_soon(self, name, kind):
        function, token = self.callback(name, kind)
        self.held.pop(name, None)
        self.handles[name] = self.loop.call_soon(function, token)
        return '-'

    def do_timed(self, name, kind, how, delay):
        function, token = self.callback(name, kind)
        self.held.pop(name, None)
        if how.endswith('weak'):
            if name == 'b':
                self.held[name] = object_ = Object(function)
                function = object_.run
            else:
                self.held[name] = function
        method = getattr(self.loop, 'call_' + how.replace(' ', '_'))
        if how.startswith('at'):
            delay += Clock.now
        self.handles[name] = method(delay, function, token)
        function = object_ = None
        return '-'

    def do_cancel(self, name):
        self.handles.pop(name).cancel()
        return '-'
    def do_drop(self, name):
        self.handles.pop(name)
        del self.held[name]
        return '-'
    def do_approach(self):
        Clock.now += 1 - 1 / 1024
        return '-'
    def do_arrive(self):
        Clock.now += 1 / 1024
        return '-'
    def observe(self):
        return '-'
    def close(self):
        Clock.now = math.ceil(Clock.now)


class Descriptors:
    """Readers and writers of file descriptors which only exist for the selector."""
    def __init__(self, names):
        self.controlled = ControlledLoop()
        self.loop = self.controlled.loop
        self.descriptors = {name: 1000 + number for number, name in enumerate(names)}
        self.history = []

    def do(self, op, args):
        if op == 'come':
            order, ways = args
            self.log = []
            mask = ('r' in ways) * selectors.EVENT_READ | ('w' in ways) * selectors.EVENT_WRITE
            self.controlled.selector.ready_events = {self.descriptors[name]: mask for name in order}
            self.controlled.settle()
            for cell in self.numbers.values():
                cell[0] %= 2
            return self.log
        return self.controlled.call(lambda: getattr(self, 'do_' + op)(*args))

    def reset(self):
        def clear():
            for descriptor in self.descriptors.values():
                self.controlled.selector.keys.pop(descriptor, None)
        self.numbers = {}
        self.controlled.call(clear)

    def do_add(self, name, way, kind, number):
        def function(given):
            self.log.append([name, way, cell[0]] if given is token else 'wrong parameters')
            if kind == 'remove itself':
                self.do_remove(name, way)
            elif kind == 'remove writers':
                for other in self.descriptors:
                    self.do_remove(other, 'w')
            elif kind == 'remove readers':
                for other in self.descriptors:
                    self.do_remove(other, 'r')
            elif kind == 'replace readers' or kind == 'replace writers':
                replaced = kind[len('replace ')]
                for other in self.descriptors:
                    if (other, replaced) != (name, way) and (other, replaced) in self.numbers:
                        self.do_add(other, replaced, 'plain', 2 + self.numbers[other, replaced][0])
            elif kind == 'raise':
                raise E1() if way == 'r' else Uncommon()
        token = object()
        cell = self.numbers[name, way] = [number]
        (self.loop.add_reader if way == 'r' else self.loop.add_writer)(self.descriptors[name], function, token)
        return '-'
    def do_remove(self, name, way):
        self.numbers.pop((name, way), None)
        return (self.loop.remove_reader if way == 'r' else self.loop.remove_writer)(self.descriptors[name])
    def observe(self):
        def registered(name, bit):
            key = self.controlled.selector.keys.get(self.descriptors[name])
            return key is not None and bool(key.events & bit)
        return self.controlled.call(lambda: {
            name: {'r': registered(name, selectors.EVENT_READ), 'w': registered(name, selectors.EVENT_WRITE)}
            for name in self.descriptors
        })
    def close(self):
        pass


def run(report):
    deep = report.thorough
    def names(values):
        return '{' + ', '.join(f'"{v}"' for v in values) + '}'
    def part(name, slots, kinds, hows, delays, walk = 200):
        check_graph(
            report, 'L01', 'L01.cfg', Cycles(slots), name = name, walks = walk, walk_length = 40, constants = {
                'Slots': names(slots), 'Kinds': names(kinds), 'Hows': names(hows),
                'Delays': '{' + ', '.join(map(str, delays)) + '}', 'MaxDue': '1',
            },
        )
    def main():
        part('soon and timers', 'abc', ['plain'], ['after'], [0, 1, 2])
        part('at times', 'ab', ['plain', 'raise'], ['at'], [0, 1, 3])
        part('raising and cancelling', 'abc', ['raise', 'cancel'] if not deep else ['raise', 'cancel', 'plain'], ['after'], [1])
        part('scheduling', 'ab', ['soon', 'zero', 'later', 'plain'], ['after'], [0, 1])
        part('weakly', 'ab', ['plain', 'drop'], ['after weak', 'at weak', 'after'], [0, 1])
        kinds = ['plain', 'raise', 'remove itself', 'remove writers', 'remove readers', 'replace readers', 'replace writers']
        for fds, kinds in (('f', kinds), ('fg', kinds if deep else ['plain', 'remove writers', 'remove readers', 'replace readers'])):
            check_graph(
                report, 'L01R', 'L01R.cfg', Descriptors(fds), name = f'{len(fds)} descriptors', walks = 200,
                constants = {'Fds': names(fds), 'Kinds': names(kinds)},
            )
        if deep:
            part('everything', 'ab', ['plain', 'raise', 'soon', 'zero', 'later', 'cancel', 'drop'], ['after', 'at weak', 'after weak'], [0, 1, 2])
            part('three scheduling', 'abc', ['soon', 'zero'], ['after'], [0, 1])
    batched(main)()
    report.assumptions = [
        'the real runner of the loop is executed with a selector which yields control instead of waiting',
        'callbacks due at the same time may run in any order',
    ]
