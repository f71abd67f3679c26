from vf.harness import run_in_loop
from vf.conform import batched, check_graph
from vf.common import BaseAdapter, E1

KINDS = ('plain', 'raises', 'adds')


class Transport:
    def pause_reading(self):
        pass
    def resume_reading(self):
        pass
    def get_extra_info(self, name, default = None):
        return default


class Streams(BaseAdapter):
    """A chunk is as long as its value and its content tells which one it is."""
    def __init__(self, driver, kinds):
        BaseAdapter.__init__(self, driver)
        self.kinds = kinds

    def reset(self):
        from scarletio.core.protocols_and_transports import PayloadStream, ReadProtocolBase
        self.driver.clear()
        self.wrong = []
        protocol = ReadProtocolBase(self.loop)
        protocol.connection_made(Transport())
        self.stream = PayloadStream(protocol)
        self.task = None
        self.gate = None
        self.leaving = False
        self.expected = b''
        self.whole = b''
        self.consumed = []
        self.calls = {kind: 0 for kind in self.kinds}
        self.count = 0
        self.failed = False

    def chunk(self, value):
        self.count += 1
        return bytes([96 + self.count]) * value

    def called(self):
        calls = self.calls
        self.calls = {kind: 0 for kind in self.kinds}
        return calls

    def callback(self, kind):
        def callback(stream):
            if stream is not self.stream:
                self.wrong.append('wrong stream')
            self.calls[kind] += 1
            if kind == 'raises':
                raise E1()
            if kind == 'adds':
                stream.add_done_callback(self.callback('plain'))
        return callback

    async def consume(self, mode):
        from scarletio import Future
        if mode == 'whole':
            self.consumed.append(await self.stream)
            return
        async for chunk in self.stream:
            self.consumed.append(chunk)
            self.gate = Future(self.loop)
            await self.gate
            if self.leaving:
                break

    def do_add(self, value):
        chunk = self.chunk(value)
        added = self.stream.add_received_chunk(chunk)
        if added:
            self.expected += chunk
        return added

    def do_settle(self, how):
        stream = self.stream
        if how == 'success':
            settled = stream.set_done_success()
        elif how == 'failed':
            settled = stream.set_done_exception(E1())
        else:
            settled = stream.set_done_cancelled()
        if settled and how != 'success':
            self.failed = True
        return [settled, self.called()]

    def do_callback(self, kind):
        self.stream.add_done_callback(self.callback(kind))
        return self.called()

    def do_start(self, mode):
        from scarletio import Task
        self.whole += b''.join(self.consumed)
        self.consumed = []
        self.task = Task(self.loop, self.consume(mode))
        return '-'

    def do_ask(self):
        self.gate.set_result(None)
        return '-'

    def do_leave(self):
        self.leaving = True
        self.gate.set_result(None)
        return '-'

    def do_cancel(self):
        self.task.cancel()
        return '-'

    def do_drain(self):
        self.driver.drain()
        self.leaving = False
        return self.called()

    def consumer(self):
        from scarletio import CancelledError
        task = self.task
        if task is None:
            return 'none'
        if not task.is_done():
            return 'running'
        try:
            task.get_result()
        except CancelledError:
            return 'cancelled'
        except E1:
            return 'e1'
        except ConnectionError:
            return 'connection'
        except RuntimeError:
            return 'runtime'
        return 'ended'

    def observe(self):
        self.check_wrong()
        stream = self.stream
        consumer = self.consumer()
        aborted = stream.is_aborted()
        size = buffered = 0
        if not (aborted or self.failed):
            size = stream.get_total_size()
            buffered = stream.get_buffer_size()
        whole = self.whole + b''.join(self.consumed)
        got = [len(chunk) for chunk in self.consumed]
        if not self.expected.startswith(whole):
            got = ['mixed up', repr(whole), repr(self.expected)]
        return {'aborted': aborted, 'size': size, 'buffered': buffered, 'consumer': consumer, 'got': got}

    def close(self):
        self.finish([self.task, self.gate])
        self.stream = None


def run(report):
    deep = report.thorough
    @batched
    def main(driver):
        def names(values):
            return '{' + ', '.join(f'"{value}"' for value in values) + '}'
        def part(name, modes, chunks, kinds, callbacks, consumers, ends = ('success', 'failed', 'cancelled'), values = (1, 2)):
            check_graph(
                report, 'N02', 'N02.cfg', Streams(driver, kinds), name = name, walks = 100, constants = {
                    'Chunks': '{' + ', '.join(map(str, values)) + '}', 'MaxChunks': str(chunks), 'Modes': names(modes), 'Ends': names(ends),
                    'Kinds': names(kinds), 'MaxCallbacks': str(callbacks), 'Consumers': str(consumers),
                },
            )
        part('as a whole', ['whole'], 3 + deep, ['plain'], 1, 2)
        part('by chunks', ['chunks'], 4 + deep, ['plain'], 1, 1)
        part('both ways', ['whole', 'chunks'], 2 + deep, ['plain'], 0, 2 + deep)
        part('callbacks', ['chunks'], 1, ['plain', 'raises', 'adds'], 3 + deep, 1, values = [1])
    run_in_loop(main)
    report.assumptions = ['a stream has a single consumer at a time']
