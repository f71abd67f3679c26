import base64
from functools import cache
from urllib.parse import unquote

from vf.common import BaseAdapter, tla
from vf.conform import batched, check_graph
from vf.harness import Clock, run_in_loop

ORIGINS = {
    'a': ('http', 'a.test', 80), 'b': ('http', 'b.test', 80), 's': ('https', 'a.test', 443), 'p': ('http', 'a.test', 8080), 't': ('https', 'b.test', 8),
}
SCHEMES = {name: origin[0] for name, origin in ORIGINS.items()}
HOST_OF = {name: origin[1] for name, origin in ORIGINS.items()}
DEFAULTS = {'http': 80, 'https': 443}
SEGMENTS = {'odd': 'é %+&/?#', 'at': 'x:y@z'}
SEGMENT_TOKENS = {value: key for key, value in SEGMENTS.items()}
QUERIES = {'q': 'q=1', 'odd': 'k%26=%C3%A9%2B'}
BYTES = b'some data to be sent' * 10


def quoted(segment):
    return ''.join(char if char.isalnum() and char.isascii() or char in '.:@' else ''.join(f'%{byte:02X}' for byte in char.encode()) for char in segment)


class Server:
    """The other end of a connection, reads requests."""
    def __init__(self, adapter, key):
        self.adapter = adapter
        self.key = key
        self.closed = False
        self.data = b''

    def start(self, protocol):
        self.protocol = protocol
        protocol.connection_made(self)

    def get_extra_info(self, name, default = None):
        return default
    def is_closing(self):
        return self.closed
    def pause_reading(self):
        pass
    def resume_reading(self):
        pass

    def write(self, data):
        if not self.closed:
            self.data += bytes(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def request(self):
        """Takes a whole request if there is one."""
        head, end, rest = self.data.partition(b'\r\n\r\n')
        if not end:
            return None
        first, *lines = head.decode().split('\r\n')
        headers = {}
        for line in lines:
            name, _, value = line.partition(':')
            headers.setdefault(name.strip().lower(), []).append(value.strip())
        if 'transfer-encoding' in headers:
            body = b''
            while True:
                size, end, rest = rest.partition(b'\r\n')
                if not end:
                    return None
                size = int(size, 16)
                if len(rest) < size + 2:
                    return None
                body += rest[:size]
                rest = rest[size + 2:]
                if not size:
                    break
        else:
            size = int(headers.get('content-length', ['0'])[0])
            if len(rest) < size:
                return None
            body, rest = rest[:size], rest[size:]
        self.data = rest
        return first, headers, body

    def respond(self, data):
        if not self.closed:
            self.protocol.data_received(data)

    def _close(self):
        if not self.closed:
            self.closed = True
            self.adapter.loop.call_soon(self.protocol.connection_lost, None)
    def close(self):
        self._close()
    def abort(self):
        self._close()


class Redirects(BaseAdapter):
    def __init__(self, driver):
        BaseAdapter.__init__(self, driver)
        self.turn = 0
    client = None

    @cache
    def connector_type(self):
        from scarletio.http_client.connector_base import ConnectorBase
        from scarletio.web_common.http_protocol import HttpReadWriteProtocol
        adapter = self
        class Connector(ConnectorBase):
            __slots__ = ()
            async def create_connection(self, request):
                key = ('https' if request.is_secure() else 'http', request.host, request.port)
                server = Server(adapter, key)
                adapter.servers.append(server)
                protocol = HttpReadWriteProtocol(self.loop)
                server.start(protocol)
                return protocol
        return Connector

    def reset(self):
        from scarletio.http_client import HTTPClient
        self.close()
        Clock.now = 1000.0
        self.wrong = []
        self.servers = []
        self.connector = self.connector_type()(self.loop)
        self.client = HTTPClient(self.loop, connector = self.connector)
        self.task = None
        self.sent = None
        self.result = None

    def do_request(self, method, origin, data, query, auth, host, function, limit):
        from scarletio import Task
        from scarletio.web_common import FormData, URL
        from scarletio.web_common.basic_authorization import BasicAuthorization
        self.turn += 1
        scheme, name, port = ORIGINS[origin]
        location = name if DEFAULTS[scheme] == port else f'{name}:{port}'
        headers = {}
        parameters = {}
        if limit != 3:
            parameters['redirects'] = limit
        if auth == 'header':
            headers[('Authorization', 'authorization')[self.turn % 2]] = 'Token mine'
        elif auth == 'parameter':
            parameters['authorization'] = BasicAuthorization('me', 'mine')
        if host == 'given':
            headers['Host'] = 'given.test'
        if query == 'q':
            parameters['query'] = {'q': 1}
        self.reference = None
        if data == 'bytes':
            parameters['data'] = BYTES
        elif data == 'typed':
            headers['Content-Type'] = 'x/y'
            headers['Content-Length'] = str(len(BYTES))
            parameters['data'] = BYTES
        elif data == 'chunked':
            headers['Transfer-Encoding'] = 'chunked'
            parameters['data'] = BYTES
        elif data == 'fields':
            parameters['data'] = {'f': 'x&', 'g': 'y'}
        elif data == 'form':
            form = FormData()
            form.add_field('f', BYTES, file_name = 'name')
            form.add_field('g', 'y')
            parameters['data'] = form
        user = 'me:mine@' if auth == 'url' else ''
        url = f'{scheme}://{user}{location}/d/s#fragment'
        given = dict(headers)
        request = self.client.request if function == 1 else self.client.request2
        async def run():
            return await request(method, url, headers, **parameters)
        self.task = Task(self.loop, run())
        self.started = (method, URL(f'{scheme}://{user}{location}/d/s').extend_query(parameters.get('query')).value_encoded)
        self.update()
        if headers != given:
            self.wrong.append('headers of the user are changed')
        return '-'

    def update(self):
        self.driver.settle()
        found = [(server, request) for server in self.servers if (request := server.request()) is not None]
        if len(found) > 1:
            self.wrong.append('many requests')
        for server in self.servers:
            if server.data and not server.closed:
                self.wrong.append(f'half of a request: {server.data[:50]!r}')
        self.sent = found[0] if found else None

    def do_respond(self, status, location, cookie):
        self.turn += 1
        server = self.sent[0]
        method = self.sent[1][0].split(' ')[0]
        lines = [f'HTTP/1.1 {status} Status']
        kind, origin, path, query = location['kind'], location['origin'], location['path'], location['query']
        target = '/'.join(quoted(SEGMENTS.get(segment, segment)) for segment in path)
        if kind not in ('relative', 'query'):
            target = '/' + target
        if query != '-':
            target += '?' + QUERIES[query]
        if origin != '-':
            scheme, name, port = ORIGINS[origin]
            authority = ('you:yours@' if kind == 'login' else '') + (name if DEFAULTS[scheme] == port else f'{name}:{port}')
            target = ('' if kind == 'network' else scheme + ':') + '//' + authority + ('' if target == '/' and self.turn % 2 else target)
        if self.turn % 3 == 0:
            target += '#part'
        if kind == 'bad':
            target = ('ftp://a.test/x', 'mailto:x@y.zz', 'ftp://b.test', 'ws://a.test/x')[self.turn % 4]
        if kind != 'missing':
            lines.append(f'{"URI" if kind == "uri" else ("Location", "location")[self.turn % 2]}: {target}')
        if cookie != '-':
            lines.append(f'Set-Cookie: c={cookie}; Path=/')
        body = (b'', b'body')[self.turn // 2 % 2]
        lines.append(f'Content-Length: {len(body)}')
        head = '\r\n'.join(lines).encode() + b'\r\n\r\n'
        self.sent = None
        if method == 'HEAD':
            body = b''
        if self.turn % 5 and status in (301, 302, 303, 307):
            server.respond(head + body)
        else:
            server.respond(head)
            self.update_keeping()
            server.respond(body) if body else None
        self.update_keeping()
        return '-'

    def update_keeping(self):
        before = self.sent
        self.update()
        if before is not None:
            if self.sent is not None:
                self.wrong.append('an other request')
            self.sent = before

    def do_cancel(self):
        self.task.cancel()
        self.update()
        self.task = None
        self.sent = None
        self.left()
        return '-'

    def left(self):
        keys = [server.key for server in self.servers if not server.closed]
        if len(keys) > len(set(keys)):
            self.wrong.append(f'connections are kept: {keys}')

    def look_at_request(self):
        server, (first, headers, body) = self.sent
        method, target, version = first.split(' ')
        path, mark, query = target.partition('?')
        scheme, name, port = server.key
        origin = next((key for key, value in ORIGINS.items() if value == server.key), repr(server.key))
        location = name if DEFAULTS[scheme] == port else f'{name}:{port}'
        hosts = headers.get('host')
        auth = headers.get('authorization', ['none'])
        mine = ('Token mine', 'Basic ' + base64.b64encode(b'me:mine').decode())
        yours = 'Basic ' + base64.b64encode(b'you:yours').decode()
        cookies = headers.get('cookie', ['-'])
        kind = headers.get('content-type', ['-'])
        if 'transfer-encoding' in headers and 'content-length' in headers:
            self.wrong.append('both content-length and transfer-encoding')
        if not body:
            data = 'none' if not {'content-length', 'transfer-encoding', 'content-type'} & set(headers) else f'none with {headers}'
        elif body == BYTES:
            data = 'typed' if kind == ['x/y'] else 'chunked' if 'transfer-encoding' in headers else 'bytes'
        elif body == b'f=x%26&g=y' and kind == ['application/x-www-form-urlencoded']:
            data = 'fields'
        elif kind[0].startswith('multipart/form-data; boundary='):
            parts = body.split(b'--' + kind[0].partition('=')[2].strip('"').encode())
            data = 'form' if len(parts) == 4 and parts[1].endswith(b'\r\n\r\n' + BYTES + b'\r\n') and parts[2].endswith(b'\r\n\r\ny\r\n') and parts[3] == b'--\r\n' else repr(body)
        else:
            data = f'{kind} {body!r}'
        return {
            'phase': 'sent', 'origin': origin, 'method': method, 'path': self.segments(path), 'query': self.query(query if mark else None), 'data': data,
            'auth': 'none' if auth == ['none'] else 'mine' if len(auth) == 1 and auth[0] in mine else 'login' if auth == [yours] else repr(auth),
            'host': 'auto' if hosts == [location] else 'given' if hosts == ['given.test'] else repr(hosts),
            'cookie': cookies[0].removeprefix('c=') if len(cookies) == 1 else repr(cookies),
        }

    def segments(self, path):
        return [SEGMENT_TOKENS.get(text, text) for text in map(unquote, path[1:].split('/'))]

    def query(self, text):
        return '-' if text is None else next((key for key, value in QUERIES.items() if value == text), repr(text))

    def look_at_url(self, url):
        origin = (url.scheme, url.host, url.port)
        return {'origin': next((key for key, value in ORIGINS.items() if value == origin), repr(origin)), 'path': self.segments(url.raw_path)}

    def observe(self):
        self.check_wrong()
        task = self.task
        if task is None:
            return {'phase': 'idle', 'origin': '-', 'path': [], 'past': 0, 'status': 0}
        if self.sent is not None:
            if task.is_done():
                self.wrong.append('done before a response')
                self.check_wrong()
            return self.look_at_request()
        if not task.is_done():
            return {'phase': 'waiting'}
        exception = task.get_exception()
        if exception is not None:
            if type(exception) is not ConnectionError:
                raise exception
            self.left()
            information, history = exception.strerror, exception.filename # as it has 3 parameters
            if (information.method, information.url.value_encoded) != self.started:
                self.wrong.append(f'other request is told of: {information!r}')
            self.check_wrong()
            last = history[-1]
            return {'phase': 'failed', **self.look_at_url(last.url), 'past': len(history), 'status': last.status}
        response = task.get_result()
        read = self.loop.create_task(response.read())
        self.driver.settle()
        if not read.is_done():
            self.wrong.append('the response is not read')
        elif read.get_exception() is not None or read.get_result() not in (b'', b'body', None):
            self.wrong.append(f'the response is read as {read!r}')
        self.left()
        self.check_wrong()
        return {'phase': 'done', **self.look_at_url(response.url), 'past': len(response.history), 'status': response.status}

    def close(self):
        if self.client is not None:
            task, self.task = self.task, None
            if task is not None and not task.is_done():
                task.cancel()
            elif task is not None:
                task.silence()
            self.driver.settle()
            self.client.close()
            self.driver.settle()
            self.driver.clear()
            self.client = None


def location(kind, origin = '-', path = (), query = '-'):
    return {'kind': kind, 'origin': origin, 'path': tuple(path), 'query': query}


MISSING = location('missing')
BASE = {
    'Origins': ['a', 'b'], 'Methods': ['GET'], 'Datas': ['none'], 'Queries': ['-'], 'Auths': ['none'], 'HostHeaders': ['auto'], 'Functions': [1, 2],
    'Limits': [3], 'Statuses': [302, 200], 'Locations': [MISSING, location('absolute', 'b', 'x'), location('rooted', path = 'y')], 'Cookies': ['-'],
    'MaxRequests': 1, 'HostOf': HOST_OF, 'Lead': SCHEMES,
}


@batched
def run(report):
    deep = report.thorough

    def main(driver):
        def part(name, **changed):
            values = BASE | changed
            check_graph(
                report, 'H04', 'H04.cfg', Redirects(driver), name = name, walks = 40 if deep else 0, walk_length = 40,
                constants = {key: tla(value) for key, value in values.items()},
            )
        everything = [MISSING] + [location('absolute', origin, ('x', 'y')) for origin in ORIGINS]
        part(
            'places', Origins = list(ORIGINS), Auths = ['none', 'header', 'parameter', 'url'], HostHeaders = ['auto', 'given'],
            Locations = [*everything, location('rooted', path = ('',)), location('login', 'b', 'x'), location('login', 'a', 'x')], Statuses = [307, 200],
            Limits = [3, 4] if deep else [3],
        )
        part(
            'methods', Methods = ['GET', 'HEAD', 'POST', 'PUT', 'OPTIONS', 'DELETE'], Datas = ['none', 'bytes', 'typed', 'chunked', 'fields', 'form'],
            Statuses = [200, 204, 300, 301, 302, 303, 304, 307, 404], Origins = ['a'], Limits = [3, 2, 1, 0, 4] if deep else [3, 1, 0], Queries = ['-', 'q'],
        )
        odd = ('..', '.', '', 'x', 'odd', 'at')
        paths = [(), ('x',), ('',), ('..',), ('.',), ('..', ''), ('..', '..', 'x'), ('x', '..'), ('x', '.', 'at', ''), ('odd',), ('x', '..', '..', 'y'), ('x', 'odd', '.')]
        part(
            'resolution', Functions = [1, 2], Origins = ['a', 't'], Limits = [3, 4] if deep else [3],
            Locations = [
                MISSING, *(location('relative', path = path) for path in paths if path and path != ('',)), *(location('rooted', path = path) for path in paths if path),
                *(location('network', origin, path) for origin in 'bt' for path in (('x',), ('',), ('odd', '..'))), location('query', query = 'q'), location('query', query = 'odd'),
                location('relative', path = ('x',), query = 'odd'), location('rooted', path = ('odd', 'at'), query = 'q'), location('uri', 'b', ('odd',), 'q'),
                location('bad', 'a', 'x'), location('absolute', 't', ('',)), location('absolute', 't', ('a', '..', 'odd'), 'odd'),
            ],
            Queries = ['-', 'q'],
        )
        part(
            'cookies', Cookies = ['-', 'c1', 'c2'], Origins = ['a', 'b', 's'], Limits = [3], MaxRequests = 3 if deep else 2, HostOf = HOST_OF,
            Locations = [MISSING, location('absolute', 'b', 'x'), location('absolute', 's', 'x'), location('relative', path = 'y')], Statuses = [302, 200],
        )
    run_in_loop(main)
