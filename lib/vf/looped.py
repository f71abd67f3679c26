"""
Controls a real event loop running its real `runner`: the loop's selector is replaced with one, which instead of waiting
for input executes commands inside of the loop's thread.
"""
import queue, selectors, threading

from .harness import Clock, REAL_MONOTONIC, Stuck


class ControlledSelector:
    def __init__(self):
        self.keys = {}
        self.commands = queue.SimpleQueue()
        self.results = queue.SimpleQueue()
        self.go = False
        self.cycles = 0
        self.ready_events = {}
        self.timeout = None
        self.closed = False

    # ---- what the loop sees

    def register(self, file_descriptor, events, data = None):
        if file_descriptor in self.keys:
            raise KeyError(file_descriptor)
        self.keys[file_descriptor] = selectors.SelectorKey(file_descriptor, file_descriptor, events, data)
        return self.keys[file_descriptor]

    def modify(self, file_descriptor, events, data = None):
        self.keys[file_descriptor] = selectors.SelectorKey(file_descriptor, file_descriptor, events, data)
        return self.keys[file_descriptor]

    def unregister(self, file_descriptor):
        return self.keys.pop(file_descriptor)

    def get_key(self, file_descriptor):
        return self.keys[file_descriptor]

    def get_map(self):
        return self.keys

    def close(self):
        self.closed = True

    def select(self, timeout = None):
        self.timeout = timeout
        if self.go:
            self.cycles += 1
            if self.cycles > 200:
                self.go = False
                self.results.put((False, Stuck('the loop does not become idle')))
            elif timeout is None or timeout > 0.0 or self.single:
                self.go = False
                self.results.put((True, timeout))
        while not self.go:
            command = self.commands.get()
            if command is None:
                self.go = True
                self.cycles = 0
                self.single = False
                break
            if command == 'cycle':
                self.go = True
                self.cycles = 0
                self.single = True
                break
            try:
                self.results.put((True, command()))
            except BaseException as exception:
                self.results.put((False, exception))
        ready = []
        for file_descriptor, mask in self.ready_events.items():
            key = self.keys.get(file_descriptor)
            if key is not None and key.events & mask:
                ready.append((key, key.events & mask))
        self.ready_events = {}
        return ready


class ControlledLoop:
    def __init__(self):
        from scarletio import EventThread
        loop = EventThread(daemon = True, name = 'controlled')
        loop.selector.close()
        self.selector = loop.selector = ControlledSelector()
        self.loop = loop
        loop._do_start()

    def _answer(self, timeout = 30.0):
        # the fake clock may not tick, so `queue` could not time out by itself
        while True:
            try:
                success, value = self.selector.results.get(timeout = 5.0)
                break
            except queue.Empty:
                if not self.loop.is_alive():
                    raise Stuck('the loop has stopped')
        if success:
            return value
        raise value

    def call(self, function):
        """Calls a function inside of the loop."""
        self.selector.commands.put(function)
        return self._answer()

    def settle(self):
        """Lets the loop run till it would block. Returns for how long it would."""
        self.selector.commands.put(None)
        return self._answer()
