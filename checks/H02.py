import gc
from functools import cache

from vf.harness import Clock, run_in_loop
from vf.conform import batched, check_graph
from vf.common import BaseAdapter, tla

KEEP = {
    'short': ['Keep-Alive: timeout=1'], 'long': ['Keep-Alive: timeout=3'], 'max': ['Keep-Alive: timeout=3, max=2'],
    'close': ['Connection: close'], 'old': [], 'default': [], 'endless': [],
}
TICK = 1.25


class Transport:
    """Like a socket's transport."""
    def __init__(self, adapter):
        self.adapter = adapter
        self.closed = False
        self.tokens = []
        self.uploading = False
        self.hold = False

    def start(self, protocol):
        self.protocol = protocol
        protocol.connection_made(self)

    def get_extra_info(self, name, default = None):
        return default

    def is_closing(self):
        return self.closed

    def pause_reading(self):
        pass

    def resume_reading(self):
        pass

    def write(self, data):
        data = bytes(data)
        if self.closed:
            return
        if data.startswith((b'GET /', b'POST /')):
            if self.uploading:
                self.adapter.wrong.append('a request starts while an other is written')
            self.tokens.append(data.split(b' ')[1][1:].decode())
            self.uploading = data.startswith(b'POST')
            if self.uploading:
                self.hold = True
                self.protocol.pause_writing()
        elif self.uploading:
            if data.endswith(b'\r\n0\r\n\r\n') or data == b'0\r\n\r\n':
                self.uploading = False
        else:
            self.adapter.wrong.append(f'stray data {data[:30]!r}')

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def resume(self):
        if self.hold and not self.closed:
            self.hold = False
            self.protocol.resume_writing()

    def receive(self, data):
        if not self.closed:
            self.protocol.data_received(data)

    def eof(self):
        if not self.closed and not self.protocol.eof_received():
            self.close()

    def _close(self, exception):
        if not self.closed:
            self.closed = True
            self.adapter.loop.call_soon(self.protocol.connection_lost, exception)

    def close(self):
        self._close(None)

    def abort(self):
        self._close(None)

    def reset(self):
        self._close(ConnectionResetError())


class User:
    def __init__(self):
        self.phase = 'none'
        self.task = None
        self.response = None
        self.token = None
        self.conn = None


class Pool(BaseAdapter):
    def __init__(self, driver, slots, force = False):
        BaseAdapter.__init__(self, driver)
        self.slots = slots
        self.force = force

    connector = None

    @cache
    def connector_type(self):
        from scarletio import Future
        from scarletio.http_client.connector_base import ConnectorBase
        from scarletio.web_common.http_protocol import HttpReadWriteProtocol
        adapter = self
        class Connector(ConnectorBase):
            __slots__ = ()
            async def create_connection(self, request):
                waiter = Future(self.loop)
                token = request.url.path[1:]
                adapter.pending[token] = waiter
                try:
                    transport = await waiter
                finally:
                    del adapter.pending[token]
                protocol = HttpReadWriteProtocol(self.loop)
                transport.start(protocol)
                return protocol
        return Connector

    def reset(self):
        from scarletio.http_client import HTTPClient
        from scarletio.http_client.proxy import Proxy
        import ssl
        self.driver.clear()
        Clock.now = 1000.0
        self.wrong = []
        self.pending = {}
        self.connector = self.connector_type()(self.loop, force_close = self.force)
        self.client = HTTPClient(self.loop, connector = self.connector)
        self.transports = []
        self.users = [User() for _ in range(self.slots)]
        self.count = 0
        self.context = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        self.proxy = Proxy('http://proxy.test')
        self.tasks = []

    async def upload(self):
        yield b'x' * 70000
        yield b'y'

    def holder(self, token):
        for number, transport in enumerate(self.transports, 1):
            if token in transport.tokens:
                return number
        return 0

    def update(self):
        self.driver.settle()
        for user in self.users:
            task = user.task
            if task is not None and task.is_done():
                user.task = None
                # raising here would keep our frame, and so the users, alive
                if task.is_cancelled() or task.get_exception() is not None:
                    user.phase = 'failed'
                else:
                    user.response = task.get_result()

    def do_request(self, slot, key, upload):
        user = self.users[slot - 1]
        self.count += 1
        user.token = token = f'r{self.count:05}'
        url = {
            'a': 'http://a.test/', 's': 'https://a.test/', 't': 'https://a.test/', 'p': 'http://a.test:81/',
            'v': 'http://a.test/', 'h': 'http://b.test/',
        }[key] + token
        parameters = {}
        if key == 't':
            parameters['ssl_context'] = self.context
        if key == 'v':
            parameters['proxy'] = self.proxy
        if upload:
            parameters['data'] = self.upload()
        from scarletio import Task
        async def request():
            return await self.client.request2('POST' if upload else 'GET', url, **parameters)
        user.task = Task(self.loop, request())
        user.phase = 'connecting'
        self.update()
        user.conn = self.holder(token)
        if user.conn:
            user.phase = 'sent'
        return user.conn

    def do_created(self, slot):
        user = self.users[slot - 1]
        transport = Transport(self)
        self.transports.append(transport)
        self.pending[user.token].set_result(transport)
        self.update()
        user.conn = self.holder(user.token)
        if user.conn:
            user.phase = 'sent'
        return user.conn

    def do_fails(self, slot):
        self.pending[self.users[slot - 1].token].set_exception(OSError())
        self.update()
        return '-'

    def do_cancel(self, slot):
        user = self.users[slot - 1]
        user.task.cancel()
        user.task = None
        self.users[slot - 1] = User()
        del user
        self.update()
        return '-'

    def do_uploaded(self, slot):
        self.transports[self.users[slot - 1].conn - 1].resume()
        self.update()
        return '-'

    def do_respond(self, slot, info, how):
        user = self.users[slot - 1]
        transport = self.transports[user.conn - 1]
        body = user.token.encode()
        version = 'HTTP/1.0' if info == 'old' else 'HTTP/1.1'
        lines = list(KEEP[info])
        status = '200 OK'
        chunked = info not in ('endless', 'old') and how not in ('broken', 'empty') and self.count % 2
        if how == 'upgrade':
            status = '101 Switching Protocols'
            lines.append('Upgrade: websocket')
            lines.append('Connection: ' + ('Upgrade', 'keep-alive, Upgrade')[self.count % 2])
        elif how == 'broken':
            lines.append('Transfer-Encoding: chunked')
            body = b'2\r\n' + body[:2] + b'xy'
        elif how == 'empty':
            status = '204 No Content'
            body = b''
        elif chunked:
            lines.append('Transfer-Encoding: chunked')
            body = b'2\r\n' + body[:2] + b'\r\n4\r\n' + body[2:] + b'\r\n0\r\n\r\n'
        elif info != 'endless':
            lines.append('Content-Length: 6')
        parts = [('\r\n'.join([f'{version} {status}', *lines]) + '\r\n\r\n').encode()]
        cut = 7 if chunked else 6 if info == 'endless' else 2
        user.rest = body[cut:]
        if how == 'part':
            parts.append(body[:cut])
        elif how != 'upgrade':
            parts.append(body)
        if how == 'more':
            parts.append(b'HTTP')
        if self.count % 3:
            parts = [b''.join(parts)]
        for part in parts:
            transport.receive(part)
            if self.count % 2:
                self.update()
        self.update()
        if user.phase == 'failed':
            pass
        elif user.response is None:
            user.phase = 'no response'
        elif how == 'part':
            user.phase = 'body'
        elif how == 'upgrade':
            user.phase = 'upgraded'
        else:
            self.conclude(user, how)
        return '-'

    def conclude(self, user, how = None):
        """The response is to be over, reads it."""
        from scarletio import Task
        task = Task(self.loop, user.response.read())
        self.driver.settle()
        if not task.is_done():
            user.phase = 'unfinished'
            self.tasks.append(task)
        else:
            if task.is_cancelled() or task.get_exception() is not None:
                user.phase = 'failed'
            else:
                body = task.get_result()
                user.phase = 'ok' if body == (None if how == 'empty' else user.token.encode()) else f'read {body!r}'

    def do_rest(self, slot, more):
        user = self.users[slot - 1]
        self.transports[user.conn - 1].receive(user.rest + b'HTTP' if more else user.rest)
        self.conclude(user)
        return '-'

    def do_restDropped(self, conn):
        transport = self.transports[conn - 1]
        transport.receive(transport.rest)
        self.update()
        return '-'

    def lose(self, conn, name):
        transport = self.transports[conn - 1]
        getattr(transport, name)()
        self.update()
        for user in self.users:
            if user.conn == conn and user.phase == 'body':
                self.conclude(user)
        return '-'

    def do_eof(self, conn):
        return self.lose(conn, 'eof')

    def do_reset(self, conn):
        return self.lose(conn, 'reset')

    def do_junk(self, conn):
        self.transports[conn - 1].receive(b'HTTP/1.1 408 Request Timeout\r\n\r\n')
        self.update()
        return '-'

    def do_leave(self, slot, how):
        user = self.users[slot - 1]
        response = user.response
        user.response = None # frames kept alive by exceptions may refer to the user
        self.users[slot - 1] = User()
        if response is not None:
            if how == 'close':
                response.close()
            elif how == 'release':
                response.release()
            elif how == 'detach':
                response.connection.detach()
            elif how == 'break':
                from scarletio import Task
                async def leave(response):
                    async for chunk in response.payload_stream:
                        break
                Task(self.loop, leave(response))
                self.driver.settle()
            elif user.phase == 'body':
                self.transports[user.conn - 1].rest = user.rest
        self.update()
        del user, response
        if how == 'drop':
            gc.collect(1)
        self.update()
        return '-'

    def do_tick(self):
        Clock.now += TICK
        self.update()
        return '-'

    def do_shut(self):
        self.connector.close()
        self.update()
        for user in self.users:
            if user.phase == 'body':
                self.conclude(user)
            elif user.phase == 'upgraded':
                user.phase = 'failed'
        return '-'

    def observe(self):
        self.check_wrong()
        return {
            'open': [not transport.closed for transport in self.transports],
            'users': [user.phase for user in self.users],
        }

    def close(self):
        self.connector.close()
        for user in self.users:
            if user.task is not None:
                user.task.cancel()
            if user.response is not None:
                user.response.close()
        self.driver.settle()
        self.users = []
        for transport in self.transports:
            transport.close()
        self.driver.settle()
        self.client = self.connector = None
        self.driver.clear()


def run(report):
    deep = report.thorough
    @batched
    def main(driver):
        base = {
            'Keys': ['a'], 'Slots': [1, 2], 'MaxConns': 2, 'MaxRequests': 3, 'Infos': ['short'], 'MaxTime': 2,
            'Uploads': [False], 'Force': False, 'Endings': ['whole'], 'Extras': [],
        }
        parts = [
            ('life', {'Infos': ['short', 'long'], 'MaxTime': 3 + deep, 'MaxRequests': 3 + deep}),
            ('keys', {'Keys': ['a', 's'], 'Infos': ['long'], 'MaxConns': 2 + deep}),
            ('ports', {'Keys': ['a', 'p', 'h'], 'Slots': [1], 'Infos': ['long']}),
            ('contexts', {'Keys': ['s', 't'], 'Slots': [1], 'Infos': ['long']}),
            ('proxies', {'Keys': ['a', 'v'], 'Slots': [1], 'Infos': ['long']}),
            ('limits', {'Infos': ['max', 'close', 'old', 'default'], 'MaxRequests': 4, 'Slots': [1], 'MaxTime': 1, 'Endings': ['whole', 'empty', 'broken']}),
            ('unfit', {'Infos': ['short', 'default'], 'Extras': ['junk', 'eof', 'shut', 'fails'], 'MaxTime': 1,
                       'MaxRequests': 2 + deep}),
            ('parts', {'Infos': ['short', 'endless'], 'Endings': ['whole', 'part', 'more', 'upgrade'],
                       'MaxTime': 1, 'Extras': ['eof', 'shut'], 'MaxRequests': 2}),
            ('uploads', {'Infos': ['short', 'default'], 'Endings': ['whole', 'part'], 'Uploads': [True, False],
                       'MaxTime': 1, 'Extras': ['eof', 'shut'], 'MaxRequests': 2}),
            ('forced', {'Force': True, 'Endings': ['whole', 'part']}),
        ]
        for name, changes in parts:
            constants = {**base, **changes}
            adapter = Pool(driver, len(constants['Slots']), constants['Force'])
            check_graph(report, 'H02', 'H02.cfg', adapter,
                constants = {key: tla(value) for key, value in constants.items()}, name = name, walks = 20, walk_length = 40)
    run_in_loop(main)
