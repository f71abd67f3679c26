import fcntl, os, select, sys, termios
import socket as socket_module

from vf.conform import batched, check_graph
from vf.common import BaseAdapter, E1, outcome
from vf.harness import run_in_loop
from vf.looped import ControlledLoop
from vf.report import Violation

READ, WRITE = 1, 2


class Content:
    """The bytes written never repeat in a short range, so the ones sent can be told apart."""
    def __init__(self):
        self.written = bytearray()
        self.sent = bytearray()
        self.value = 0

    def next(self, size):
        data = bytearray()
        for _ in range(size):
            self.value = self.value % 251 + 1
            data.append(self.value)
        return bytes(data)


class FakeSocket:
    """A socket which takes as much as it is told to."""
    family = socket_module.AF_INET
    type = socket_module.SOCK_STREAM
    proto = socket_module.IPPROTO_TCP
    next_descriptor = 1000

    def __init__(self, wrong):
        FakeSocket.next_descriptor += 1
        self.descriptor = FakeSocket.next_descriptor
        self.room = 0
        self.broken = False
        self.received = None
        self.shut = False
        self.closed = False
        self.sent = bytearray()
        self.wrong = wrong

    def fileno(self):
        return -1 if self.closed else self.descriptor
    def getsockname(self):
        return ('127.0.0.1', 1)
    def getpeername(self):
        return ('127.0.0.1', 2)
    def setsockopt(self, *parameters):
        pass
    def gettimeout(self):
        return 0.0
    def setblocking(self, value):
        pass

    def take(self, data):
        if self.closed:
            raise OSError('sent on a closed socket')
        if self.shut:
            self.wrong.append('sent after shutdown')
        if self.broken:
            raise BrokenPipeError()
        if not self.room:
            raise BlockingIOError()
        data = bytes(data)[: self.room]
        self.room -= len(data)
        self.sent.extend(data)
        return len(data)

    def send(self, data, flags = 0):
        return self.take(data)
    def sendmsg(self, buffers, *parameters):
        return self.take(b''.join([bytes(buffer) for buffer in buffers]))

    def recv(self, size, flags = 0):
        received, self.received = self.received, 'no'
        if self.closed:
            raise OSError('read of a closed socket')
        if received == 'data':
            return b'something'
        if received == 'eof':
            return b''
        if received == 'error':
            raise ConnectionResetError()
        raise BlockingIOError()

    def recv_into(self, buffer, size = 0, flags = 0):
        data = self.recv(len(buffer), flags)
        buffer[:len(data)] = data
        return len(data)

    def shutdown(self, how):
        if self.closed:
            self.wrong.append('shutdown of a closed socket')
        self.shut = True
    def close(self):
        if self.closed:
            self.wrong.append('closed again')
        self.closed = True


class Protocol:
    """Tells what it was told and reacts to it."""
    def __init__(self, adapter, reacts):
        self.adapter = adapter
        self.reacts = reacts
    def told(self, when):
        adapter = self.adapter
        adapter.log.append(when)
        what = self.reacts.get(when)
        if what is not None:
            adapter.react(what)
        return what
    def connection_made(self, transport):
        self.adapter.transport = transport
        if hasattr(transport, 'set_write_buffer_limits'):
            self.adapter.limit(transport)
        self.told('made')
    def connection_lost(self, exception):
        self.told('lost none' if exception is None else 'lost error')
    def data_received(self, data):
        if data != b'something':
            self.adapter.wrong.append(f'received {data!r}')
        self.told('data')
    def eof_received(self):
        return self.told('end') == 'keep'
    def pause_writing(self):
        self.told('stop writing')
    def resume_writing(self):
        self.told('write again')


class Transports:
    unit = 1
    def __init__(self, reacts, high, low):
        self.controlled = ControlledLoop()
        self.selector = self.controlled.selector
        self.loop = self.controlled.loop
        self.reacts = dict(reacts)
        self.high = high
        self.low = low
        self.history = []

    def prepare(self):
        self.log = []
        self.wrong = []
        self.written_eof = False
        self.content = Content()
        self.seen = 0
        self.protocol = Protocol(self, self.reacts)
        self.transport = None
        self.lost = False

    def reset(self):
        self.prepare()
        self.controlled.call(self.create)

    def create(self):
        from scarletio.core.protocols_and_transports.transport_layer import SocketTransportLayer
        self.socket = FakeSocket(self.wrong)
        self.descriptor = self.socket.fileno()
        self.transport = SocketTransportLayer(self.loop, None, self.socket, self.protocol, None, None)
        self.limit(self.transport)

    def limit(self, transport):
        transport.set_write_buffer_limits(high = self.high * self.unit, low = self.low * self.unit)

    def react(self, what):
        if what == 'close':
            self.transport.close()
        elif what == 'abort':
            self.transport.abort()
        elif what == 'pause':
            self.transport.pause_reading()
        elif what == 'eof':
            self.do_write_eof()
        elif what in ('write', 'write much'):
            if not self.written_eof:
                self.do_write(1 if what == 'write' else self.high + 1)

    def do(self, op, args):
        if op == 'cycle':
            result = self.do_cycle(*args)
        else:
            result = self.controlled.call(lambda: getattr(self, 'do_' + op)(*args))
        log, self.log = self.log, []
        sent = len(self.sent())
        sent, self.seen = sent - self.seen, sent
        if sent % self.unit:
            self.wrong.append(f'{sent} bytes were sent')
        return {'log': log, 'sent': sent // self.unit, 'r': result}

    def sent(self):
        return self.socket.sent

    def do_cycle(self, read, room, spurious):
        self.socket.room += room
        self.socket.received = read
        mask = 0
        if read != 'no':
            mask |= READ
        if self.socket.room or spurious or self.socket.broken:
            mask |= WRITE
        if mask:
            self.selector.ready_events = {self.descriptor: mask}
        self.controlled.settle()
        return '-'

    def do_write(self, size):
        data = self.content.next(size * self.unit)
        kept = len(self.content.written)
        # it can be sent at once or be left out if the transport is closed
        self.content.written.extend(data)
        lost = len(self.sent()) if self.lost else None
        try:
            if size % 2:
                self.transport.write(data)
            elif size:
                self.transport.writelines([data[:1], data[1:]])
            else:
                self.transport.write(b'')
        except RuntimeError:
            del self.content.written[kept:]
            return 'refused'
        return '-'

    def do_write_eof(self):
        self.transport.write_eof()
        if not self.transport.is_closing():
            self.written_eof = True
        return '-'
    def do_close(self):
        self.transport.close()
        return '-'
    def do_abort(self, how):
        if how == 'error':
            self.transport.abort(E1())
        else:
            self.transport.abort()
        return '-'
    def do_pause(self):
        return self.transport.pause_reading()
    def do_resume(self):
        return self.transport.resume_reading()
    def do_break(self):
        self.socket.broken = True
        return '-'

    def observe(self):
        return self.controlled.call(self.state)

    def state(self):
        if self.wrong:
            raise Violation(f'{type(self).__name__}: {self.wrong!r}', list(self.history))
        if not self.content.written.startswith(self.sent()):
            raise Violation(
                f'{type(self).__name__}: sent {bytes(self.sent())!r} of {bytes(self.content.written)!r}', list(self.history),
            )
        key = self.selector.keys.get(self.descriptor)
        events = 0 if key is None else key.events
        size = self.transport.get_write_buffer_size()
        return {
            'reading': bool(events & READ), 'writing': bool(events & WRITE), 'closing': self.transport.is_closing(),
            'size': size // self.unit if not size % self.unit else ['fraction', size],
            'shut': self.socket.shut, 'closed': self.socket.closed,
        }

    def close(self):
        def close():
            self.reacts, self.protocol.reacts = self.reacts, {}
            self.transport.abort()
        self.controlled.call(close)
        self.controlled.settle()
        self.selector.keys.clear()
        self.selector.ready_events = {}


def wait_for(descriptor, event):
    """A process being started holds the other end of a pipe too, till it is running."""
    poll = select.poll()
    poll.register(descriptor, 0)
    for _ in range(3000):
        if any(got & event for _, got in poll.poll(10)):
            break


class WritePipes(Transports):
    """The pipe has two slots of a page."""
    unit = 4096
    capacity = 2

    def create(self):
        import scarletio
        from scarletio import Task
        from scarletio.core.protocols_and_transports.unix_pipe_transport_layer import UnixWritePipeTransportLayer
        read_end, write_end = os.pipe()
        fcntl.fcntl(write_end, fcntl.F_SETPIPE_SZ, self.unit * self.capacity)
        os.set_blocking(read_end, False)
        os.set_blocking(write_end, False)
        self.read_end = read_end
        self.descriptor = write_end
        self.pipe = os.fdopen(write_end, 'wb', 0)
        self.broken = False
        self.room = 0
        self.arrived = b''
        self.skip = self.unit * self.capacity
        os.write(write_end, b'0' * self.skip)
        self.inside = self.skip
        self.task = Task(self.loop, self.make(UnixWritePipeTransportLayer))

    async def make(self, type_):
        await type_(self.loop, self.pipe, self.protocol)

    def inside_of_pipe(self):
        if not self.broken:
            buffer = bytearray(4)
            fcntl.ioctl(self.read_end, termios.FIONREAD, buffer)
            self.inside = int.from_bytes(buffer, sys.byteorder)
        return self.inside

    def empty(self, size):
        while size > 0:
            try:
                data = os.read(self.read_end, size)
            except BlockingIOError:
                break
            if not data:
                break
            size -= len(data)
            skipped = min(self.skip, len(data))
            self.skip -= skipped
            self.arrived += data[skipped:]

    def sent(self):
        # what is in the pipe is checked when it is read
        return self.arrived + self.content.written[len(self.arrived) : len(self.arrived) + self.inside_of_pipe() - self.skip]

    def do_cycle(self, read, room, spurious):
        if not self.broken:
            self.empty(room * self.unit)
        self.room = self.capacity * self.unit - self.inside_of_pipe()
        mask = 0
        if read != 'no':
            mask |= READ
        if self.room or spurious or self.broken:
            mask |= WRITE
        if mask:
            self.selector.ready_events = {self.descriptor: mask}
        self.controlled.settle()
        return '-'

    def do_break(self):
        self.inside_of_pipe()
        self.broken = True
        os.close(self.read_end)
        wait_for(self.descriptor, select.POLLERR)
        return '-'

    def state(self):
        if self.transport is None:
            return {'reading': False, 'writing': False, 'closing': False, 'size': 0, 'shut': False, 'closed': False}
        self.socket = self.pipe
        self.pipe.shut = False
        return Transports.state(self)

    def close(self):
        if self.transport is None:
            self.controlled.settle()
        if not self.broken:
            self.empty(1 << 20)
            self.controlled.call(lambda: Transports.state(self))
        Transports.close(self)
        if not self.broken:
            os.close(self.read_end)
        self.pipe.close()


class ReadPipes(Transports):
    def __init__(self, reacts):
        Transports.__init__(self, reacts, 1, 1)

    def create(self):
        from scarletio import Task
        from scarletio.core.protocols_and_transports.unix_pipe_transport_layer import UnixReadPipeTransportLayer
        self.descriptor, self.write_end = os.pipe()
        self.pipe = os.fdopen(self.descriptor, 'rb', 0)
        self.fed = b''
        self.received = b''
        self.ended = False
        self.protocol.data_received = self.receive
        self.task = Task(self.loop, self.make(UnixReadPipeTransportLayer))

    async def make(self, type_):
        await type_(self.loop, None, self.pipe, self.protocol)

    def receive(self, data):
        # each chunk is told
        received = self.received + data
        if not self.fed.startswith(received):
            self.wrong.append(f'received {received!r} of {self.fed!r}')
        self.log.append(received.count(b'.') - self.received.count(b'.'))
        self.received = received
        self.protocol.told('data')

    def do(self, op, args):
        if op == 'cycle':
            if len(self.received) < len(self.fed) or self.ended:
                self.selector.ready_events = {self.descriptor: READ}
            self.log = []
            self.controlled.settle()
            return self.log
        return self.controlled.call(lambda: getattr(self, 'do_' + op)(*args))

    def do_feed(self):
        self.content.value += 1
        chunk = b'%d.' % self.content.value
        os.write(self.write_end, chunk)
        self.fed += chunk
        return '-'
    def do_end(self):
        os.close(self.write_end)
        wait_for(self.descriptor, select.POLLHUP)
        self.ended = True
        return '-'

    def state(self):
        if self.wrong:
            raise Violation(f'{type(self).__name__}: {self.wrong!r}', list(self.history))
        key = self.selector.keys.get(self.descriptor)
        events = 0 if key is None else key.events
        return {
            'reading': bool(events & READ), 'closed': self.pipe.closed,
            'closing': self.transport is not None and self.transport.is_closing(),
        }

    def close(self):
        if self.transport is None:
            self.controlled.settle()
        self.controlled.call(self.transport.close)
        self.controlled.settle()
        self.selector.keys.clear()
        self.selector.ready_events = {}
        if not self.ended:
            os.close(self.write_end)
        self.pipe.close()


class FakeDatagramSocket(FakeSocket):
    type = socket_module.SOCK_DGRAM
    proto = socket_module.IPPROTO_UDP
    def getpeername(self):
        raise OSError('not connected')
    def prepare(self, room, fails, received):
        self.room = room
        self.fails = fails
        self.received = received
        self.sent = []
    def sendto(self, data, *parameters):
        if self.closed:
            raise OSError('sent on a closed socket')
        if self.room > 0:
            self.room -= 1
            name = parameters[-1][0]
            if not bytes(data).startswith(name.encode() + b':'):
                self.wrong.append(f'sent {data!r} to {name!r}')
            self.sent.append(bytes(data))
            return len(data)
        if self.fails:
            self.fails = False
            raise ConnectionRefusedError()
        raise BlockingIOError()
    def send(self, data, flags = 0):
        raise OSError('not connected')
    def recvfrom(self, size, flags = 0):
        received, self.received = self.received, 'no'
        if self.closed:
            raise OSError('read of a closed socket')
        if received == 'error':
            raise ConnectionRefusedError()
        if received in ('blocked', 'no'):
            raise BlockingIOError()
        return received.encode(), (received, 1)


class DatagramProtocol(Protocol):
    def datagram_received(self, data, address):
        if data != address[0].encode():
            self.adapter.wrong.append(f'received {data!r} from {address!r}')
        self.told(data.decode())
    def error_received(self, exception):
        self.told('failed')


class Datagrams(Transports):
    unit = 10
    def prepare(self):
        Transports.prepare(self)
        self.protocol = DatagramProtocol(self, self.reacts)
        self.count = 0
        self.expected = []

    def create(self):
        from scarletio.core.protocols_and_transports.transport_layer import DatagramSocketTransportLayer
        self.socket = FakeDatagramSocket(self.wrong)
        self.socket.prepare(0, False, 'no')
        self.descriptor = self.socket.fileno()
        self.transport = DatagramSocketTransportLayer(self.loop, None, self.socket, self.protocol, None, None)
        self.limit(self.transport)

    def do(self, op, args):
        sent = []
        if op == 'cycle':
            read, room, fails = args
            self.socket.prepare(room, fails, read)
            mask = (READ if read != 'no' else 0) | (WRITE if room >= 0 else 0)
            self.selector.ready_events = {self.descriptor: mask} if mask else {}
            self.controlled.settle()
        else:
            self.socket.prepare(0, False, 'no')
            self.controlled.call(lambda: getattr(self, 'do_' + op)(*args))
        numbers = [int(data.split(b':')[1]) for data in self.socket.sent]
        if any(number <= last for number, last in zip(numbers, [self.last, *numbers])):
            self.wrong.append(f'sent {numbers!r} after {self.last!r}')
        if numbers:
            self.last = numbers[-1]
        sent = [data.split(b':')[0].decode() for data in self.socket.sent]
        log, self.log = self.log, []
        return {'log': log, 'sent': sent}

    last = 0
    def reset(self):
        self.last = 0
        Transports.reset(self)

    def do_send(self, name, how):
        self.socket.prepare(1 if how == 'takes' else 0, how == 'fails', 'no')
        self.count += 1
        data = bytearray(b'%s:%07d:' % (name.encode(), self.count))
        self.transport.send_to(data, (name, 1))
        # it is the transport's own from now on
        data[:] = bytes(len(data))

    def state(self):
        self.socket.shut = False
        state = Transports.state(self)
        del state['shut']
        return state
    def sent(self):
        return b''


class Addressed(BaseAdapter):
    def __init__(self, driver, tasks, addresses):
        BaseAdapter.__init__(self, driver)
        self.names = tasks
        self.addresses = addresses

    def reset(self):
        from scarletio.core import DatagramAddressedReadProtocol, ReadProtocolBase
        self.driver.clear()
        self.protocol = DatagramAddressedReadProtocol(self.loop, self.create)
        self.protocol.connection_made(Drains.Transport())
        self.tasks = {}
        self.made = []
        self.by_address = {}
        self.count = dict.fromkeys(self.addresses, 0)

    def create(self):
        from scarletio.core import ReadProtocolBase
        protocol = ReadProtocolBase(self.loop)
        self.made.append(protocol)
        return protocol

    def do_receive(self, address):
        count = len(self.made)
        self.protocol.datagram_received(b'something', (address, 1))
        if len(self.made) > count:
            self.by_address[address] = self.made[-1]
        return '-'
    def do_wait(self, name, address, timed):
        from scarletio import Task
        parameters = [] if address == 'any' else [(address, 1)]
        keyword_parameters = {'timeout': 1.0} if timed else {}
        self.tasks[name] = Task(self.loop, self.protocol.wait_for_receive(*parameters, **keyword_parameters)), address
        return '-'
    def do_cancel(self, name):
        self.tasks[name][0].cancel()
        return '-'
    def do_run(self):
        self.driver.drain()
        return '-'
    def do_pass(self):
        self.driver.advance(2.0)
        self.driver.settle()
        return '-'
    def observe(self):
        tasks = {}
        names = {id(protocol): address for address, protocol in self.by_address.items()}
        for name in self.names:
            if name not in self.tasks:
                tasks[name] = ['idle']
                continue
            task, address = self.tasks[name]
            if not task.is_done():
                tasks[name] = ['runs']
                continue
            if task.is_cancelled():
                tasks[name] = ['cancelled']
                continue
            result = task.get_result()
            if result is None:
                tasks[name] = ['timeout']
                continue
            if address == 'any':
                (address, _), result = result
                if result is not self.by_address.get(address):
                    address = ['wrong protocol', address]
            else:
                address = names.get(id(result), repr(result))
            tasks[name] = ['got', address]
        count = {
            address: self.by_address[address].get_size() // 9 if address in self.by_address else 0
            for address in self.addresses
        }
        return {'known': [*self.by_address], 'count': count, 'tasks': tasks}
    def close(self):
        self.finish([task for task, address in self.tasks.values()])


class Drains(BaseAdapter):
    class Transport:
        def __init__(self):
            self.paused = self.closing = False
        def pause_reading(self):
            self.paused = True
        def resume_reading(self):
            self.paused = False
        def is_closing(self):
            return self.closing
        def get_extra_info(self, name, default = None):
            return default
        def write(self, data):
            pass

    def __init__(self, driver, tasks, kind):
        BaseAdapter.__init__(self, driver)
        self.names = tasks
        self.kind = kind

    def reset(self):
        from scarletio.core import ReadWriteProtocolBase
        from scarletio.web_common.http_protocol import HttpReadWriteProtocol
        self.driver.clear()
        protocol = (HttpReadWriteProtocol if self.kind == 'http' else ReadWriteProtocolBase)(self.loop)
        self.protocol = protocol
        self.transport = Drains.Transport()
        protocol.connection_made(self.transport)
        self.tasks = {}
        self.floods = 0

    def do_stop(self):
        self.protocol.pause_writing()
        if self.kind == 'http' and all(task.is_done() for task in self.tasks.values()):
            # as a connection is upgraded
            self.protocol = self.protocol.isekai_into(type(self.protocol))
        return '-'
    def do_again(self):
        self.protocol.resume_writing()
        return '-'
    def do_flood(self):
        self.floods += 1
        self.protocol.data_received(b'a' * 140000)
        return '-'
    def do_starve(self):
        # a read which needs more is given up
        read = self.protocol.read_exactly(1 << 30)
        read.send(None)
        self.protocol.cancel_current_reader()
        read.close()
        return '-'
    def do_lose(self, how):
        self.transport.closing = True
        self.protocol.connection_lost(None if how == 'none' else E1())
        return '-'
    def do_drain(self, name):
        from scarletio import Task
        self.tasks[name] = Task(self.loop, self.protocol.drain())
        return '-'
    def do_cancel(self, name):
        self.tasks[name].cancel()
        return '-'
    def do_run(self):
        self.driver.drain()
        return '-'
    def observe(self):
        tasks = {}
        for name in self.names:
            end = outcome(self.tasks.get(name))
            tasks[name] = {'none': 'idle', 'pending': 'runs', 'result': 'ok', 'error': end[-1]}.get(end[0], end[0])
        return {'paused': self.transport.paused, 'tasks': tasks}
    def close(self):
        self.finish(self.tasks.values())


def strings(values):
    return '{' + ', '.join(f'"{value}"' for value in values) + '}'


def run(report):
    deep = report.thorough
    @batched
    def main():
        def part(
            name, ops, reacts = (), sizes = (1, 3), rooms = (1, 2, 5), size = 6, high = 3, low = 1, reads = (),
            kind = 'socket',
        ):
            type_ = Transports if kind == 'socket' else WritePipes
            check_graph(
                report, 'N03', 'N03.cfg', type_(reacts, high, low), name = name, walks = 100, constants = {
                    'Kind': f'"{kind}"', 'Sizes': '{' + ', '.join(map(str, sizes)) + '}',
                    'Rooms': '{' + ', '.join(map(str, rooms)) + '}', 'MaxSize': str(size), 'High': str(high),
                    'Low': str(low), 'Reads': strings(reads), 'Ops': strings(ops),
                    'Reacts': '{' + ', '.join(f'<<"{when}", "{what}">>' for when, what in reacts) + '}',
                },
            )
        part('writing', ['write', 'eof', 'close'], sizes = (0, 1, 2, 4), rooms = (1, 2, 3, 7), size = 7 + 2 * deep)
        part('failing', ['write', 'eof', 'close', 'abort', 'break'], size = 5 + deep)
        part(
            'reading', ['write', 'close', 'abort', 'pause', 'resume'], sizes = (2, ), rooms = (1, 9), size = 4,
            reads = ('data', 'eof', 'error', 'blocked'),
        )
        part('half closed', ['write', 'eof', 'close', 'abort'], [('end', 'keep'), ('data', 'write')], size = 4, reads = ('data', 'eof'))
        for what in ('close', 'abort', 'pause', 'write much', 'eof'):
            part(
                f'made: {what}', ['write', 'close', 'abort', 'pause', 'resume'], [('made', what), ('end', 'write much')],
                sizes = (1,), rooms = (1, 9), size = 4, reads = ('data', 'eof'),
            )
        for what in ('close', 'abort', 'write', 'write much', 'eof'):
            part(
                f'write again: {what}', ['write', 'eof', 'close', 'abort', 'break'],
                [('write again', what), ('lost none', 'write'), ('lost error', 'close')],
                sizes = (1, 4), rooms = (1, 2, 9), size = 5,
            )
        for what in ('close', 'abort', 'eof'):
            part(
                f'stop writing: {what}', ['write', 'eof', 'close', 'abort'], [('stop writing', what), ('data', what)],
                sizes = (1, 4), rooms = (1, 9), size = 5, reads = ('data',),
            )
        part(
            'write pipe', ['write', 'eof', 'close', 'abort', 'break'], sizes = (0, 1, 2, 4), rooms = (1, 2), size = 5 + deep,
            kind = 'write pipe', reads = ['eof'],
        )
        for what in ('close', 'abort', 'write much'):
            part(
                f'write pipe: {what}', ['write', 'eof', 'close', 'abort'],
                [('made', what), ('write again', what), ('lost none', 'write')], rooms = (1, 2), size = 4,
                kind = 'write pipe',
            )
        for react in ('none', 'made: close', 'made: pause', 'data: close', 'data: pause'):
            when, _, what = react.partition(': ')
            check_graph(
                report, 'N03P', 'N03P.cfg', ReadPipes([(when, what)]), name = f'read pipe: {react}', walks = 100,
                constants = {'MaxFeeds': str(4 + 2 * deep), 'React': f'"{react}"'},
            )
        for when, what in (('-', '-'), ('made', 'close'), ('failed', 'close'), ('stop writing', 'abort'), ('write again', 'close'), ('a', 'abort')):
            check_graph(
                report, 'N03G', 'N03G.cfg', Datagrams([(when, what)], 2, 1), name = f'datagrams: {when}: {what}', walks = 50,
                constants = {
                    'Addresses': strings('ab'), 'MaxBuffer': str(3 + deep), 'High': '2', 'Low': '1', 'Ops': strings(['close', 'abort']),
                    'React': f'<<"{when}", "{what}">>',
                },
            )
    main()

    @batched
    def drains(driver):
        for kind in ('core', 'http'):
            tasks = 'ab' if kind == 'http' or not deep else 'abc'
            check_graph(
                report, 'N03D', 'N03D.cfg', Drains(driver, tasks, kind), name = f'draining: {kind}', walks = 100,
                constants = {'Tasks': strings(tasks)},
            )
        check_graph(
            report, 'N03A', 'N03A.cfg', Addressed(driver, 'st', 'ab'), name = 'waiting for datagrams', walks = 100,
            constants = {'Addresses': strings('ab'), 'Tasks': strings('st'), 'MaxData': str(2 + deep)},
        )
    run_in_loop(drains)
    report.assumptions = ['data given to a transport is not changed afterwards']
