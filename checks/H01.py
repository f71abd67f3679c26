import random, zlib

from vf.harness import run_in_loop
from vf.conform import batched, check_graph
from vf.common import BaseAdapter
from vf.report import Violation

PIECES = {
    'short': b'short text', 'zeros': bytes(100000),
    'large': bytes(random.Random(5).choices(range(256), k = 70000)),
}


class Transport:
    def __init__(self):
        self.written = []
        self.paused = False
    def write(self, data):
        self.written.append(bytes(data))
    def writelines(self, datas):
        for data in datas:
            self.write(data)
    def is_closing(self):
        return False
    def pause_reading(self):
        self.paused = True
    def resume_reading(self):
        self.paused = False
    def get_extra_info(self, name, default = None):
        return default
    def close(self):
        pass


def compress(encoding, data):
    if encoding == 'gzip':
        compressor = zlib.compressobj(wbits = 31)
    elif encoding == 'deflate':
        compressor = zlib.compressobj(wbits = 15)
    elif encoding == 'Deflate':
        compressor = zlib.compressobj(wbits = -15)
    else:
        return data
    return compressor.compress(data) + compressor.flush()


class Connection(BaseAdapter):
    def reset(self):
        from scarletio.web_common import HttpReadProtocol, HttpReadWriteProtocol
        self.driver.clear()
        self.transport = Transport()
        self.writer = HttpReadWriteProtocol(self.loop)
        self.writer.connection_made(self.transport)
        self.reader = (HttpReadProtocol, HttpReadWriteProtocol)[len(self.history) % 2](self.loop)
        self.reader.connection_made(Transport())
        self.wire = b''
        self.places = [0] # of positions of the specification in the wire
        self.position = 0
        self.sent = []
        self.outcomes = []
        self.task = None

    def run(self, coroutine):
        from scarletio import Task
        task = Task(self.loop, coroutine)
        self.driver.drain()
        if not task.is_done():
            task.cancel()
            self.driver.drain()
            raise Violation('writing does not end', list(self.history))
        return task.get_result()

    def taken(self):
        written = b''.join(self.transport.written)
        self.transport.written.clear()
        return written

    async def write_body(self, message, pieces, compression, chunked):
        from scarletio.web_common.http_stream_writer import HTTPStreamWriter
        writer = HTTPStreamWriter(self.writer, compression, chunked)
        last = b''
        if pieces and len(self.sent) % 2:
            *pieces, last = pieces
        for piece in pieces:
            await writer.write(piece)
        if last:
            await writer.write_eof(last)
        else:
            await writer.write_eof()
        await writer.write_eof()

    def do_write(self, message):
        from scarletio.utils import IgnoreCaseMultiValueDictionary
        from scarletio.web_common.helpers import HttpVersion
        import http
        opaque = message['body'] == 'opaque'
        if message['framing'] == 'raw':
            head, body = (part.encode() for part in message['writes'])
            shown = '-'
        else:
            encoding = message['encoding']
            damage = message['damage']
            pieces = [PIECES[name] for name in message['writes']] if opaque else [part.encode() for part in message['writes']]
            compression = encoding if encoding in ('gzip', 'deflate') else None
            if damage == 'cut':
                pieces = [compress(encoding, b''.join(pieces))[:-3]]
                compression = None
            elif damage == 'garbage':
                pieces = [b'\xff' * 20]
                compression = None
            elif message['framing'] == 'length' and opaque:
                pieces = [compress(encoding, b''.join(pieces))]
                compression = None
            length = str(sum(map(len, pieces)))
            headers = IgnoreCaseMultiValueDictionary()
            for name, value in message['headers']:
                headers[name] = length if value == '$' else value
            start = message['start']
            version = HttpVersion(*map(int, start[2].split('.')))
            if message['side'] == 'request':
                self.writer.write_http_request(start[0], start[1], headers, version)
            else:
                self.writer.write_http_response(http.HTTPStatus(int(start[0])), headers, version)
            head = self.taken()
            self.run(self.write_body(message, pieces, compression, message['framing'] == 'chunked'))
            body = self.taken()
            if message['framing'] == 'none' and not pieces:
                body = b''
            shown = head.decode()
            if opaque:
                if message['framing'] == 'length':
                    shown = shown.replace(f': {length}\r\n', ': $\r\n')
            else:
                shown += body.decode()
            message = dict(message, length = length)
        start = self.places[-1]
        top = len(shown) if opaque else len(head)
        self.places.extend(range(start + 1, start + top))
        self.places.append(start + len(head))
        start += len(head)
        marks = message['marks'] if opaque else len(body)
        self.places.extend([start + len(body) * mark // marks for mark in range(1, marks + 1)])
        self.wire += head + body
        self.sent.append(message)
        return shown

    async def read(self, how):
        index = 0
        while True:
            message = self.sent[index] if index < len(self.sent) else self.sent[-1]
            request = message['side'] == 'request'
            reader = self.reader
            try:
                read = await (reader.read_http_request() if request else reader.read_http_response())
                task = reader.get_payload_reader_task(read)
                if task is None:
                    body = b''
                else:
                    stream = reader.set_payload_reader(task)
                    if how == 'whole':
                        body = await stream
                    else:
                        body = b''.join([bytes(chunk) async for chunk in stream])
            except GeneratorExit:
                raise
            except Exception as exception:
                self.outcomes.append(['error'])
                return
            self.outcomes.append(self.show(message, read, body))
            index += 1

    def show(self, message, read, body):
        version = f'{read.version.major}.{read.version.minor}'
        if message['side'] == 'request':
            start = [read.method, read.path, version]
        else:
            start = [str(read.status), read.reason, version]
        headers = [[str(name), value] for name, value in read.headers.items()]
        for header, given in zip(headers, message['headers']):
            if given[1] == '$' and header[1] == message['length']:
                header[1] = '$'
        if message['body'] != 'opaque':
            return ['message', start, headers, [body.decode()]]
        if body == b''.join([PIECES[name] for name in message['writes']]):
            pieces = message['writes']
        elif not body:
            pieces = []
        else:
            pieces = ['other', len(body)]
        return ['message', start, headers, pieces]

    def new(self):
        self.driver.drain()
        outcomes = self.outcomes.copy()
        self.outcomes.clear()
        return outcomes

    def do_deliver(self, amount):
        data = self.wire[self.places[self.position] : self.places[self.position + amount]]
        self.position += amount
        self.reader.data_received(data)
        return self.new()

    def do_read(self, how):
        from scarletio import Task
        self.task = Task(self.loop, self.read(how))
        return self.new()

    def do_end(self):
        self.reader.eof_received()
        return self.new()

    def observe(self):
        return {'arrived': self.position, 'waits': self.task is not None and not self.task.is_done()}

    def close(self):
        if self.task is not None:
            self.reader.connection_lost(None)
        self.finish([self.task])


def run(report):
    deep = report.thorough
    @batched
    def main(driver):
        def part(name, messages, maximum, steps, marks = 1):
            check_graph(
                report, 'H01', 'H01.cfg', Connection(driver), name = name, walks = 50, max_length = 100, constants = {
                    'Messages': messages, 'MaxMessages': str(maximum), 'Steps': '{' + ', '.join(map(str, steps)) + '}', 'Marks': str(marks),
                },
            )
        part('single messages', 'Plain', 1, range(1, 60 if deep else 8))
        part('foreign messages', 'Raws', 1, range(1, 30 if deep else 5))
        part('two messages', 'Plain', 2, (1, 7, 50) if deep else (7, 50))
        part('compressed or long messages', 'Opaques', 1, (1, 2, 3, 60), 8)
        if deep:
            part('foreign after an other message', 'Raws', 2, (9, 50))
            part('compressed or long messages after each other', 'Opaques', 2, (50,), 2)
    run_in_loop(main)
