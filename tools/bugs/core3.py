exec(open('/verif/tools/bugs/core1.py').read().split('BUGS = [')[0])
U = 'scarletio/utils/'
C = 'scarletio/web_common/'
P = 'scarletio/core/protocols_and_transports/'
BUGS = [
{
    'id': 'c01_cancelled_function', 'property': 'C01',
    'needs': 'a function of a cycler raises an exception which is not an `Exception`, as `CancelledError`',
    'what_it_breaks': 'the functions after it are not called and the cycler stops',
    'edits': [{
        'file': 'scarletio/core/event_loop/cycler.py',
        'old': """            except BaseException as err:
                write_exception_async(
""",
        'new': """            except Exception as err:
                write_exception_async(
""",
    }],
    'demo': LOOP + '''
from scarletio import Cycler
async def main(loop):
    called = []
    def fails(cycler):
        raise CancelledError
    cycler = Cycler(loop, 0.01, fails, lambda cycler: called.append(cycler))
    await cycles(loop, 40)
    cycler.cancel()
    assert len(called) > 1, called
in_loop(main)
''',
},
{
    'id': 'l01_removed_reader_called', 'property': 'L01',
    'needs': 'a reader is removed by an other callback of the cycle in which it is ready, while the descriptor has a writer too',
    'what_it_breaks': 'the removed reader is called',
    'edits': [{
        'file': 'scarletio/core/event_loop/event_loop.py',
        'old': """            self.selector.modify(file_descriptor, mask, (None, writer))
        else:
""",
        'new': """            self.selector.modify(file_descriptor, mask, (None, writer))
            return (reader is not None)
        else:
""",
    }],
    'demo': LOOP + '''
import socket
async def main(loop):
    called = []
    one, other = socket.socketpair()
    two, another = socket.socketpair()
    loop.add_reader(one, lambda: (called.append('one'), loop.remove_reader(one), loop.remove_reader(two)))
    loop.add_reader(two, lambda: (called.append('two'), loop.remove_reader(one), loop.remove_reader(two)))
    loop.add_writer(one, int)
    loop.add_writer(two, int)
    other.send(b'x')
    another.send(b'x')
    await cycles(loop)
    loop.remove_writer(one)
    loop.remove_writer(two)
    assert len(called) == 1, called
in_loop(main)
''',
},
{
    'id': 'd01_copy_shares', 'property': 'D01',
    'needs': 'a copied dictionary whose key has exactly one value is given an other value of that key',
    'what_it_breaks': 'a copy and its original share the values of a key',
    'edits': [{
        'file': U + 'multi_value_dictionary.py',
        'old': '            setitem(new, key, values.copy())\n',
        'new': '            setitem(new, key, values.copy() if len(values) > 1 else values)\n',
    }],
    'demo': '''
from scarletio import MultiValueDictionary
first = MultiValueDictionary([('a', 1)])
second = first.copy()
second['a'] = 2
assert list(first.items()) == [('a', 1)], first
''',
},
{
    'id': 'd02_nested_iteration', 'property': 'D02',
    'needs': 'a key dies in an outer iteration of a weak key dictionary after an inner iteration of it ended',
    'what_it_breaks': 'the iteration fails as the dictionary changes its size',
    'edits': [{
        'file': U + 'weak_key_dictionary.py',
        'old': '''                yield key
                continue
        
        finally:
            parent._iterating -= 1
''',
        'new': '''                yield key
                continue
        
        finally:
            parent._iterating = 0
''',
    }],
    'demo': '''
from scarletio import WeakKeyDictionary
class Key: pass
keys = [Key() for _ in range(4)]
dictionary = WeakKeyDictionary()
for key in keys:
    dictionary[key] = 1
key = None
count = 0
for key in dictionary.keys():
    list(dictionary.keys())
    if count == 0:
        del keys[2:]
    count += 1
assert count == 2, count
''',
},
{
    'id': 'd03_reversed_extend', 'property': 'D03',
    'needs': 'a reversed sorted list is extended with at least two elements which come after all of its elements',
    'what_it_breaks': 'the list is not sorted any more',
    'edits': [{
        'file': U + 'sorted_list.py',
        'old': '''                        if self[half] > value:
                            bot = half + 1
                        else:
                            top = half
                        continue
                    break
                insert(self, bot, value)
                ln += 1
''',
        'new': '''                        if self[half] > value:
                            bot = half + 1
                        else:
                            top = half
                        continue
                    break
                insert(self, bot, value)
''',
    }],
    'demo': '''
from scarletio import SortedList
elements = SortedList([9, 8], reverse = True)
elements.extend([4, 3, 2, 1, 0])
assert list(elements) == sorted(elements, reverse = True), elements
''',
},
{
    'id': 'z01_offset_of_unicode_names', 'property': 'Z01',
    'needs': 'a file with a name outside of ASCII followed by an other file',
    'what_it_breaks': 'the central directory points to a wrong place for the files after it',
    'edits': [{
        'file': 'scarletio/streaming/zip_streaming/zip_stream.py',
        'old': '            LOCAL_FILE_HEADER_LENGTH + len(file_state.name_binary) + file_state.size_compressed +\n',
        'new': '            LOCAL_FILE_HEADER_LENGTH + len(file_state.name_binary.decode()) + file_state.size_compressed +\n',
    }],
    'demo': LOOP + '''
import io, zipfile
from scarletio.streaming.zip_streaming import ZipStreamFile, stream_zip
async def content(data):
    yield data
async def main(loop):
    files = [ZipStreamFile(name, content(name.encode())) for name in ('\\u00e1', 'b')]
    return b''.join([chunk async for chunk in stream_zip(files)])
data = in_loop(main)
archive = zipfile.ZipFile(io.BytesIO(data))
assert [archive.read(name) for name in archive.namelist()] == ['\\u00e1'.encode(), b'b']
''',
},
{
    'id': 'q01_far_pointers', 'property': 'Q01',
    'needs': 'a message of more than 8 kilobytes with a compression pointer to its far part',
    'what_it_breaks': 'the name is read from a wrong place',
    'edits': [{
        'file': 'scarletio/dns_query/building_and_parsing.py',
        'old': 'index = ((label_length & 0x3f) << 8) | addition',
        'new': 'index = ((label_length & 0x1f) << 8) | addition',
    }],
    'demo': '''
from scarletio.dns_query.building_and_parsing import parse_result_data
def record(name, data):
    return name + b'\\0\\1\\0\\1\\0\\0\\0\\0' + len(data).to_bytes(2, 'big') + data
data = (1).to_bytes(2, 'big') + b'\\x80\\0\\0\\0\\0\\3\\0\\0\\0\\0'
data += record(b'\\1a\\0', b'x' * 9000)
place = len(data)
data += record(b'\\1b\\0', b'y')
data += record((0xc000 | place).to_bytes(2, 'big'), b'z')
result, error = parse_result_data(data)
assert error is None, error
assert [r.labels for r in result.answers] == [(b'a',), (b'b',), (b'b',)]
''',
},
{
    'id': 'n01_read_after_short', 'property': 'N01',
    'needs': 'at most n bytes are read where the end of the stream comes first, the first piece having been read in part before',
    'what_it_breaks': 'the read returns nothing instead of the rest',
    'edits': [{
        'file': P + 'protocol.py',
        'old': """                if self._at_eof:
                    self._offset = 0
                    raise EOFError(b'')
""",
        'new': """                if self._at_eof:
                    self._offset = n
                    raise EOFError(b'')
""",
    }],
    'demo': LOOP + '''
from scarletio.core import ReadProtocolBase
async def main(loop):
    protocol = ReadProtocolBase(loop)
    protocol.data_received(b'abcd')
    protocol.eof_received()
    assert await protocol.read(2) == b'ab'
    assert await protocol.read(5) == b'cd'
    assert protocol.is_at_eof()
    assert protocol.get_size() == 0
in_loop(main)
''',
},
{
    'id': 'n02_callback_after_failure', 'property': 'N02',
    'needs': 'a done callback is added to a stream which failed already',
    'what_it_breaks': 'the callback is never called',
    'edits': [{
        'file': P + 'payload_stream.py',
        'old': '''        if self._flags & STREAM_FLAG_DONE_ANY:
            self._run_done_callback(callback)
''',
        'new': '''        if self.is_success() or self.is_aborted():
            self._run_done_callback(callback)
''',
    }],
    'demo': LOOP + '''
from scarletio.core.protocols_and_transports.payload_stream import PayloadStream
from scarletio.core import ReadProtocolBase
async def main(loop):
    stream = PayloadStream(ReadProtocolBase(loop))
    stream.set_done_exception(ConnectionError())
    called = []
    stream.add_done_callback(called.append)
    assert called == [stream]
in_loop(main)
''',
},
{
    'id': 'n03_resumed_late', 'property': 'N03',
    'needs': 'a low limit of zero',
    'what_it_breaks': 'the protocol is never resumed once it was paused',
    'edits': [{
        'file': P + 'transport_layer.py',
        'old': 'if (not self._protocol_paused) or (self.get_write_buffer_size() > self._low_water):',
        'new': 'if (not self._protocol_paused) or (self.get_write_buffer_size() >= self._low_water):',
    }],
    'demo': LOOP + '''
import socket
from scarletio.core.protocols_and_transports.transport_layer import SocketTransportLayer
log = []
class Protocol:
    def connection_made(self, transport): pass
    def connection_lost(self, exception): pass
    def data_received(self, data): pass
    def eof_received(self): return False
    def pause_writing(self): log.append('pause')
    def resume_writing(self): log.append('resume')
async def main(loop):
    one, other = socket.socketpair()
    one.setblocking(False)
    other.setblocking(False)
    transport = SocketTransportLayer(loop, None, one, Protocol(), None, None)
    transport.set_write_buffer_limits(high = 1000, low = 0)
    await cycles(loop)
    size = 4000000
    transport.write(b'x' * size)
    while size:
        try:
            size -= len(other.recv(100000))
        except BlockingIOError:
            await cycles(loop, 1)
    await cycles(loop)
    assert log == ['pause', 'resume'], log
    transport.abort()
    await cycles(loop)
    other.close()
in_loop(main)
''',
},
{
    'id': 'h01_compressed_nothing', 'property': 'H01',
    'needs': 'a chunked and compressed body with a write the compressor gives no output for',
    'what_it_breaks': 'an empty chunk ends the body early',
    'edits': [{
        'file': C + 'http_stream_writer.py',
        'old': '''        compressor = self.compressor
        if (compressor is not None):
            chunk = compressor.compress(chunk)
        
        if not chunk:
            return
''',
        'new': '''        if not chunk:
            return
        
        compressor = self.compressor
        if (compressor is not None):
            chunk = compressor.compress(chunk)
''',
    }],
    'demo': LOOP + '''
from scarletio.web_common.http_stream_writer import HTTPStreamWriter
class Transport:
    written = b''
    def is_closing(self): return False
    def write(self, data): self.written += data
class Protocol:
    transport = Transport()
    def get_transport(self): return self.transport
    async def _drain_helper(self): pass
async def main(loop):
    writer = HTTPStreamWriter(Protocol(), 'gzip', True)
    for _ in range(3):
        await writer.write(b'x')
    await writer.write_eof()
in_loop(main)
assert Protocol.transport.written.count(b'0\\r\\n\\r\\n') == 1, Protocol.transport.written
''',
},
{
    'id': 'h02_lost_reused', 'property': 'H02',
    'needs': 'a pooled connection of which the transport is gone without an end of file or an exception',
    'what_it_breaks': 'the dead connection is given to a request',
    'edits': [{
        'file': 'scarletio/http_client/protocol_basket.py',
        'old': """            if (protocol.get_transport() is None):
                continue
""",
        'new': """            if (protocol.get_transport() is None) and not available:
                continue
""",
    }],
    'demo': '''
from scarletio.http_client.protocol_basket import ProtocolBasket
class Protocol:
    closed = False
    transport = object()
    def get_transport(self): return self.transport
    def close(self): self.closed = True
one, two = Protocol(), Protocol()
basket = ProtocolBasket(None)
basket.add_available_protocol(one, 0.0, 10.0, 1)
basket.add_available_protocol(two, 1.0, 10.0, 1)
one.transport = None
assert basket.pop_available_protocol(2.0)[0] is two
''',
},
{
    'id': 'h03_expiry_missed', 'property': 'H03',
    'needs': 'three cookies expiring at different times, the latest set last',
    'what_it_breaks': 'the second one is sent after it expired',
    'edits': [{
        'file': C + 'cookiejar.py',
        'old': '                next_expiration = min(next_expiration, when)\n',
        'new': '                next_expiration = when\n',
    }],
    'demo': '''
from http.cookies import SimpleCookie
from scarletio.web_common import cookiejar, URL
now = 1000.0
cookiejar.LOOP_TIME = lambda: now
jar = cookiejar.CookieJar()
url = URL('http://example.com/')
for index in (1, 2, 3):
    cookie = SimpleCookie()
    cookie[f'c{index}'] = 'x'
    cookie[f'c{index}']['max-age'] = str(index * 10)
    jar.update_cookies(cookie, url)
sent = []
for _ in range(3):
    now += 9.0 if now == 1000.0 else 10.0
    sent.append(sorted(jar.filter_cookies(url)))
assert sent == [['c1', 'c2', 'c3'], ['c2', 'c3'], ['c3']], sent
''',
},
{
    'id': 'u01_bare_key', 'property': 'U01',
    'needs': 'an encoded URL with a query item without equals sign before an other with one',
    'what_it_breaks': 'the two items are read as a single one',
    'edits': [{
        'file': C + 'url/url_query.py',
        'old': "query_string.find('=', item_start_index, item_end_index)",
        'new': "query_string.find('=', item_start_index)",
    }],
    'demo': '''
from scarletio.web_common import URL
url = URL('http://example.com/?k&a=b', encoded = True)
assert list(url.query.items()) == [('k', ''), ('a', 'b')], url.query
''',
},
{
    'id': 'w01_decoder_not_reset', 'property': 'W01',
    'needs': 'a fragmented text with a character cut at the end of a fragment and invalid data after it, then a fragmented text on an other connection',
    'what_it_breaks': 'the later text gets the rest of the invalid one',
    'edits': [{
        'file': 'scarletio/web_socket/web_socket_common_protocol.py',
        'old': '''            except:
                DECODER.reset()
                raise
''',
        'new': '''            except:
                raise
''',
    }],
    'demo': LOOP + '''
from scarletio.web_common.web_socket_frame import WebSocketFrame
from scarletio.web_socket.web_socket_common_protocol import WebSocketCommonProtocol as P
class Reader:
    max_size = 1000
    def __init__(self, *parts):
        last = len(parts) - 1
        self.frames = [WebSocketFrame(i == last, 1 if i == 0 else 0, part) for i, part in enumerate(parts)]
    async def read_data_frame(self, max_size):
        return self.frames.pop(0)
async def main(loop):
    try:
        await P.read_message(Reader(b'\\xc3', b'a'))
    except UnicodeDecodeError:
        pass
    else:
        raise AssertionError
    assert await P.read_message(Reader(b'a', b'b')) == 'ab'
in_loop(main)
''',
},
{
    'id': 'w02_second_close_frame', 'property': 'W02',
    'needs': 'the connection fails because of what the peer sent, and is closed then',
    'what_it_breaks': 'an other close frame is sent',
    'edits': [{
        'file': 'scarletio/web_socket/web_socket_common_protocol.py',
        'old': '''            # Write the close frame without draining the write buffer.
            self.state = WEB_SOCKET_STATE_CLOSING
            
''',
        'new': '''            # Write the close frame without draining the write buffer.
''',
    }],
    'demo': '''
from scarletio.web_socket.web_socket_common_protocol import WebSocketCommonProtocol, WEB_SOCKET_STATE_OPEN, WEB_SOCKET_STATE_CLOSING
class Protocol:
    transfer_data_task = None
    state = WEB_SOCKET_STATE_OPEN
    extensions = None
    is_client = False
    close_connection_task = object()
    written = 0
    _serialize_close = staticmethod(WebSocketCommonProtocol._serialize_close)
    def write_web_socket_frame(self, frame, client_side):
        self.written += 1
protocol = Protocol()
WebSocketCommonProtocol.fail_connection(protocol, 1002)
WebSocketCommonProtocol.fail_connection(protocol, 1002)
assert protocol.written == 1, protocol.written
assert protocol.state == WEB_SOCKET_STATE_CLOSING
''',
},
]
