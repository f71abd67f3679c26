"""What the checks of web sockets share: an in-memory connection, and an adapter of one side of it."""
import base64, hashlib

from .common import BaseAdapter
from .harness import Clock

KEY = '258EAFA5-E914-47DA-95CA-C5AB0DC85B11'
CLOSE_TIMEOUT = 10.0


def to_bytes(data):
    return b''.join(bytes([byte]) * count for byte, count in data)


def to_runs(data):
    runs = []
    while data:
        rest = data.lstrip(data[:1])
        runs.append([data[0], len(data) - len(rest)])
        data = rest
    return runs


def mask_data(mask, data):
    length = len(data)
    return (int.from_bytes(data, 'big') ^ int.from_bytes((mask * (length // 4 + 1))[:length], 'big')).to_bytes(length, 'big')


def write_frame(frame, masked, turn):
    payload = to_bytes(frame['d'])
    if frame['op'] == 8:
        code = frame['n']
        payload = b'' if code == -1 else b'\x03' if code == -2 else code.to_bytes(2, 'big') + payload
    head = bytes([frame['fin'] << 7 | frame['rsv'] << 4 | frame['op']])
    length = len(payload)
    if length < 126:
        lengths = [length]
    elif length < 65536:
        lengths = [126, *length.to_bytes(2, 'big')]
    else:
        lengths = [127, *length.to_bytes(8, 'big')]
    if masked:
        lengths[0] |= 128
    head += bytes(lengths)
    if masked:
        mask = ((b'\0\0\0\0', b'\xff\x01\x80\x7f', b'abcd')[turn % 3])
        payload = mask_data(mask, payload)
        head += mask
    return head + payload


def read_frames(data, masked):
    """Reads the frames written by the tested side. Returns what is wrong as well."""
    frames = []
    while data:
        if len(data) < 2:
            return frames, 'half of a frame'
        first, second = data[:2]
        data = data[2:]
        length = second & 127
        size = {126: 2, 127: 8}.get(length, 0)
        if size:
            length = int.from_bytes(data[:size], 'big')
            if length < (126, 126, 126, 126, 126, 126, 126, 126, 65536)[size]:
                return frames, 'length not minimal'
            data = data[size:]
        if second >> 7 != masked:
            return frames, 'wrong masking'
        if masked:
            mask, data = data[:4], data[4:]
        if len(data) < length:
            return frames, 'half of a frame'
        payload, data = data[:length], data[length:]
        if masked:
            payload = mask_data(mask, payload)
        if first >> 4 != 8:
            return frames, f'head {first:x}'
        frames.append((first & 15, payload))
    return frames, None


class Transport:
    def __init__(self, loop, is_ssl):
        self.loop = loop
        self.is_ssl = is_ssl
        self.data = bytearray()
        self.paused = False
        self.closing = False
        self.lost = False
        self.wrote_eof = False
        self.late = 0

    def set_protocol(self, protocol):
        self.protocol = protocol
    def get_protocol(self):
        return self.protocol
    def get_extra_info(self, name, default = None):
        return default
    def is_closing(self):
        return self.closing
    def pause_reading(self):
        pass
    def resume_reading(self):
        pass
    def can_write_eof(self):
        return not self.is_ssl
    def write_eof(self):
        self.wrote_eof = True

    def write(self, data):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError(data)
        if self.lost or self.closing:
            return
        if self.wrote_eof:
            raise RuntimeError('Cannot write after eof.')
        self.data += data

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def lose(self, exception):
        if not self.lost:
            self.lost = self.closing = True
            self.protocol.connection_lost(exception)

    def close(self):
        if not self.closing:
            self.closing = True
            if not self.paused:
                self.loop.call_soon(self.lose, None)

    def abort(self):
        self.closing = True
        self.loop.call_soon(self.lose, None)

    def pause(self):
        self.paused = True
        self.protocol.pause_writing()

    def resume(self):
        self.paused = False
        if self.closing:
            self.loop.call_soon(self.lose, None)
        else:
            self.protocol.resume_writing()


def patch_reporting():
    """In one place reporting an exception is awaited."""
    from scarletio.web_socket import web_socket_common_protocol as module
    async def write_exception_async(*args, **kwargs):
        pass
    module.write_exception_async = write_exception_async


class Side(BaseAdapter):
    ws = None

    def __init__(self, driver, role, max_size, ids, ssl = True):
        BaseAdapter.__init__(self, driver)
        self.role = role
        self.client = role == 'client'
        self.max_size = max_size
        self.ids = ids
        self.turn = 0
        self.ssl = ssl
        patch_reporting()

    def reset(self):
        self.close()
        Clock.now = 1000.0
        self.turn += 1
        self.wrong = []
        self.tasks = {}
        self.returning = False
        self.transport = Transport(self.loop, self.ssl and self.turn % 3 == 0)
        if self.client:
            self.open_client()
        else:
            self.open_server()
        self.driver.settle()
        self.transport.data.clear()
        self.emitted = []
        self.finished = {}
        if not self.ws.open:
            self.wrong.append('cannot be opened')

    def open_client(self):
        from scarletio.http_client import HTTPClient
        from scarletio.http_client.connector_base import ConnectorBase
        from scarletio.web_common.http_protocol import HttpReadWriteProtocol
        from scarletio.web_socket import WebSocketClient
        transport = self.transport
        class Connector(ConnectorBase):
            __slots__ = ()
            async def create_connection(self, request):
                protocol = HttpReadWriteProtocol(self.loop)
                transport.set_protocol(protocol)
                protocol.connection_made(transport)
                return protocol
        client = HTTPClient(self.loop, connector = Connector(self.loop))
        task = self.loop.create_task(WebSocketClient(
            self.loop, ('wss' if self.transport.is_ssl else 'ws') + '://a.test/', http_client = client, close_timeout = CLOSE_TIMEOUT, max_size = self.max_size,
        ))
        self.driver.settle()
        lines = bytes(transport.data).decode().split('\r\n')
        key = next(line.partition(':')[2].strip() for line in lines if line.lower().startswith('sec-websocket-key:'))
        accept = base64.b64encode(hashlib.sha1((key + KEY).encode()).digest()).decode()
        transport.protocol.data_received((
            'HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n'
            f'Sec-WebSocket-Accept: {accept}\r\n\r\n'
        ).encode())
        self.driver.settle()
        self.ws = task.get_result()
        self.http_client = client

    def open_server(self):
        from scarletio import Future
        from scarletio.web_socket import WebSocketServer
        from scarletio.web_socket.web_socket_server_protocol import WebSocketServerProtocol
        class Listening:
            sockets = ()
        self.gate = gate = Future(self.loop)
        async def handler(web_socket):
            await gate
        server = object.__new__(WebSocketServer)
        server.loop = self.loop
        server.handler = handler
        server.web_sockets = set()
        server.close_connection_task = None
        server.server = Listening
        server.protocol_parameters = (
            handler, 'a.test', 80, self.transport.is_ssl, None, [], None, None, None, None,
            {'close_timeout': CLOSE_TIMEOUT, 'max_size': self.max_size},
        )
        self.server = server
        self.ws = ws = WebSocketServerProtocol(server)
        self.transport.set_protocol(ws)
        ws.connection_made(self.transport)
        ws.data_received((
            'GET / HTTP/1.1\r\nHost: a.test\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n'
            'Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n'
        ).encode())

    # ---- what happens

    def do(self, op, args):
        result = BaseAdapter.do(self, op, args)
        none = self.result('none')
        return {'r': result, 'out': self.emitted, 'fin': {key: self.finished.get(key, none) for key in self.ids}}

    def update(self):
        self.driver.settle()
        data = bytes(self.transport.data)
        self.transport.data.clear()
        frames, wrong = read_frames(data, self.client)
        if wrong is not None:
            self.wrong.append(wrong)
        self.emitted = [self.look_at_frame(*frame) for frame in frames]
        self.finished = {}
        for key, (kind, task) in list(self.tasks.items()):
            if task.is_done():
                del self.tasks[key]
                self.finished[key] = self.outcome(kind, task)

    def look_at_frame(self, operation, payload):
        if operation != 8:
            return {'op': operation, 'n': 0, 'd': to_runs(payload)}
        if not payload:
            return {'op': 8, 'n': -1, 'd': []}
        return {'op': 8, 'n': int.from_bytes(payload[:2], 'big'), 'd': to_runs(payload[2:])}

    def outcome(self, kind, task):
        if task.is_cancelled():
            return self.result('ended' if kind == 'ping pending' else 'cancelled')
        exception = task.get_exception()
        if exception is not None:
            return self.fault(kind, exception)
        return self.value(kind, task.get_result())

    def value(self, kind, value):
        if kind == 'receive':
            if type(value) is str:
                return self.result('text', 0, to_runs(value.encode('utf-8', 'surrogatepass')))
            if type(value) is bytes:
                return self.result('binary', 0, to_runs(value))
            return self.result(f'{type(value).__name__} {value!r}')
        if value is not None:
            return self.result(f'returned {value!r}')
        return self.result('done')

    def fault(self, kind, exception):
        from scarletio.web_common import ConnectionClosed, WebSocketProtocolError
        from scarletio.web_common.exceptions import get_close_reason
        if type(exception) is ConnectionClosed:
            if kind == 'ping pending':
                return self.result('ended')
            code, reason = exception.code, exception.reason
            return self.result('closed', code, [[0, 0]] if reason == get_close_reason(code) else to_runs(reason.encode()))
        if kind == 'receive no wait' and type(exception) is IndexError:
            return self.result('error')
        if kind in ('ping', 'pong', 'close') and type(exception) is WebSocketProtocolError:
            return self.result('error')
        return self.result(f'{kind}: {exception!r}')

    def result(self, kind, code = 0, data = ()):
        return {'k': kind, 'n': code, 'd': list(data)}

    def start(self, key, kind, coroutine):
        if key in self.tasks:
            self.wrong.append(f'{key} is still running')
        opened = self.ws.open
        task = self.loop.create_task(coroutine)
        self.update()
        if task.is_done():
            return self.outcome(kind, task)
        self.tasks[key] = ('ping pending' if kind == 'ping' and opened else kind, task)
        return self.result('pending')

    def do_burst(self, frames, end):
        self.turn += 1
        transport = self.transport
        data = b''.join(write_frame(frame, frame['mask'] != self.client, self.turn + index) for index, frame in enumerate(frames))
        if end == 'eof' and self.turn % 2:
            half = write_frame({'op': 9, 'fin': True, 'rsv': 0, 'n': 0, 'd': [[1, 5]]}, not self.client, 0)
            data += half[: 1 + self.turn // 2 % (len(half) - 1)]
        turn = self.turn // 2
        if end in ('lost', 'reset') or not turn % 4:
            pieces = [data]
        elif len(data) > 300:
            at = (1, 2, 3, 9, 10, 12, 14, 150, len(data) - 1)[turn % 9]
            pieces = [data[:at], data[at:-5], data[max(at, len(data) - 5):]]
        elif turn % 4 == 1:
            pieces = [data[index : index + 1] for index in range(len(data))]
        else:
            at = turn % (len(data) + 1)
            pieces = [data[:at], data[at:]]
        protocol = transport.protocol
        for index, piece in enumerate(pieces):
            if index and turn % 3 and not (end == 'eof' and transport.is_ssl):
                self.driver.settle()
            if piece and not transport.closing:
                protocol.data_received(piece)
        if end == 'eof' and not transport.closing:
            if not protocol.eof_received():
                transport.close()
        elif end in ('lost', 'reset'):
            transport.lose(ConnectionResetError() if end == 'reset' else None)
        self.update()
        return self.result('none')

    def do_receive(self, key):
        async def receive():
            return await self.ws.receive()
        return self.start(key, 'receive', receive())

    def do_receive_no_wait(self):
        try:
            value = self.ws.receive_no_wait()
        except BaseException as exception:
            result = self.fault('receive no wait', exception)
        else:
            result = self.value('receive', value)
        self.update()
        return result

    def do_send(self, key, kind, data):
        self.turn += 1
        data = to_bytes(data)
        if kind == 'text':
            data = data.decode()
        else:
            data = (bytes, bytearray, memoryview)[self.turn % 3](data)
        return self.start(key, 'send', self.ws.send(data))

    def bytes_like(self, data):
        self.turn += 1
        data = to_bytes(data)
        mode = self.turn % 4
        return data if not mode else bytearray(data) if mode == 1 else memoryview(data) if mode == 2 else data.decode('latin-1') if data.isascii() else data

    def do_ping(self, key, data):
        return self.start(key, 'ping', self.ws.ping(self.bytes_like(data)))

    def do_pong(self, key, data):
        return self.start(key, 'pong', self.ws.pong(self.bytes_like(data)))

    def do_close(self, key, code, reason):
        self.turn += 1
        if not self.client and code == 1000 and not reason and not self.returning and self.turn % 2 and not self.ws.closed:
            self.returning = True
            task = self.ws.handler_task
            async def wait():
                self.gate.set_result(None)
                await task
            return self.start(key, 'close', wait())
        return self.start(key, 'close', self.ws.close(code, to_bytes(reason).decode()))

    def do_pause(self):
        self.transport.pause()
        self.update()
        return self.result('none')

    def do_resume(self):
        self.transport.resume()
        self.update()
        return self.result('none')

    def do_cancel(self, key):
        task = self.tasks[key][1]
        self.tasks[key] = ('cancelled', task)
        task.cancel()
        self.update()
        return self.result('none')

    def do_expire(self):
        for _ in range(8):
            self.driver.settle()
            self.driver.advance(CLOSE_TIMEOUT + 0.1)
        self.update()
        return self.result('none')

    def observe(self):
        self.check_wrong()
        ws = self.ws
        if ws.closed and ws.open:
            self.wrong.append('open and closed')
        if ws.closed and not self.transport.lost:
            self.wrong.append('its transport is still there')
        for kind, task in self.tasks.values():
            if task.is_done():
                self.wrong.append('a task is done')
        self.check_wrong()
        return {'state': 'closed' if ws.closed else 'open' if ws.open else 'closing', 'code': ws.close_code}

    def close(self):
        ws, self.ws = self.ws, None
        if ws is None:
            return
        if not self.transport.lost:
            self.transport.lose(None)
        self.driver.settle()
        tasks = [task for kind, task in self.tasks.values()]
        if not self.client and ws.handler_task is not None:
            tasks.append(ws.handler_task)
        tasks.extend(task for task in (ws.transfer_data_task, ws.close_connection_task) if task is not None)
        self.finish(tasks)
        self.tasks = {}
        self.driver.clear()
