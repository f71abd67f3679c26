from vf.harness import run_in_loop
from vf.conform import batched, check_graph
from vf.common import BaseAdapter, E1

LIMIT = 131072


class Transport:
    def __init__(self, wrong):
        self.paused = False
        self.wrong = wrong
    def pause_reading(self):
        if self.paused:
            self.wrong.append('paused twice')
        self.paused = True
    def resume_reading(self):
        if not self.paused:
            self.wrong.append('resumed twice')
        self.paused = False
    def get_extra_info(self, name, default = None):
        return default
    def is_closing(self):
        return False
    def close(self):
        pass


class Reading(BaseAdapter):
    """`unit` is how many bytes a byte of the specification is."""
    def __init__(self, driver, kind, unit = 1):
        BaseAdapter.__init__(self, driver)
        self.kind = kind
        self.unit = unit
        self.alphabet = {value: bytes([96 + value]) * unit for value in range(1, 4)}

    def reset(self):
        import scarletio
        from scarletio.core import protocols_and_transports as module
        self.driver.clear()
        self.wrong = []
        protocol_type = getattr(module, self.kind)
        self.protocol = protocol_type(self.loop)
        self.transport = Transport(self.wrong)
        self.protocol.connection_made(self.transport)
        self.task = None

    def encode(self, piece):
        return b''.join([self.alphabet[value] for value in piece])

    def decode(self, data):
        if not isinstance(data, (bytes, bytearray)):
            return repr(data)
        unit = self.unit
        decoded = [data[index] - 96 for index in range(0, len(data), unit)]
        if self.encode(decoded) != data:
            return ['mixed up', len(data)]
        return decoded

    def result(self):
        self.driver.drain()
        task = self.task
        if task is None:
            return ['none']
        if not task.is_done():
            return ['waits']
        self.task = None
        try:
            return ['returns', self.decode(task.get_result())]
        except E1:
            return ['error', 'e1']
        except ConnectionError:
            return ['error', 'connection']

    def do_read(self, kind, x):
        from scarletio import Task
        protocol = self.protocol
        if kind == 'all':
            coroutine = protocol.read()
        elif kind == 'once':
            coroutine = protocol.read_once()
        elif kind == 'read':
            coroutine = protocol.read(x * self.unit)
        elif kind == 'exactly':
            coroutine = protocol.read_exactly(x * self.unit)
        else:
            coroutine = protocol.read_until(self.encode(x))
        self.task = Task(self.loop, coroutine)
        return self.result()

    def do_receive(self, piece):
        data = self.encode(piece)
        if self.kind == 'DatagramMergerReadProtocol':
            self.protocol.datagram_received(data, ('1.2.3.4', 5))
        else:
            self.protocol.data_received(data)
        return self.result()

    def do_end(self, how):
        if how == 'eof':
            self.protocol.eof_received()
        else:
            self.protocol.connection_lost(None)
        return self.result()

    def do_fail(self, how):
        if how == 'set':
            self.protocol.set_exception(E1())
        else:
            self.protocol.connection_lost(E1())
        return self.result()

    def do_cancel(self):
        self.protocol.cancel_current_reader()
        return self.result()

    def observe(self):
        self.check_wrong()
        size = self.protocol.get_size()
        return {
            'waits': self.task is not None, 'at_eof': self.protocol.is_at_eof(), 'paused': self.transport.paused,
            'size': size // self.unit if not size % self.unit else ['fraction', size],
        }

    def close(self):
        if self.task is not None:
            self.protocol.cancel_current_reader()
        self.finish([self.task])
        self.protocol = None


def sequence(values):
    return '<<' + ', '.join(map(str, values)) + '>>'


def sequences(values):
    return '{' + ', '.join(map(sequence, values)) + '}'


def words(length, alphabet = 2):
    words = [()]
    for _ in range(length):
        words = [(*word, value) for word in words for value in range(1, alphabet + 1)]
    return words


ENDS = {'end': ('eof', 'lost'), 'fail': ('set', 'lost'), 'cancel': ('-',)}


def run(report):
    deep = report.thorough
    @batched
    def main(driver):
        def part(name, kind, pieces, size, exact, boundaries, ends, unit = 1, limit = 1000):
            check_graph(
                report, 'N01', 'N01.cfg', Reading(driver, kind, unit), name = name, walks = 100, constants = {
                    'Pieces': sequences(pieces), 'MaxSize': str(size), 'Exact': '{' + ', '.join(map(str, exact)) + '}',
                    'Boundaries': sequences(boundaries), 'Limit': str(limit),
                    'Ends': '{' + ', '.join(f'<<"{key}", "{value}">>' for key in ends for value in ENDS[key]) + '}',
                },
            )
        small = [*words(1), *words(2)]
        part(
            'all kinds of reads', 'ReadProtocolBase', [*words(1, 1), *words(2)] if not deep else small, 5 + deep,
            [0, 1, 2, 3], [(), (1,), (1, 2), (1, 1)], ['end', 'fail', 'cancel'],
        )
        part(
            'long boundaries', 'ReadProtocolBase', [*small, (1, 1, 2), (1, 1, 1)], 6 + deep, [1],
            [(1, 1, 2), (1, 2, 1), (1, 1, 1, 2), (1, 2, 1, 1)], ['end'],
        )
        part(
            'long pieces', 'ReadWriteProtocolBase', [word for word in words(4) if word[0] == 1] + words(1), 7 + deep, [2, 4],
            [(1, 1), (1, 2)], ['end'],
        )
        part('exact', 'DatagramMergerReadProtocol', [(1,), (2, 1), (1, 2, 2)], 8 + 2 * deep, [1, 2, 3, 5], [], ['end'])
        part(
            'large', 'ReadProtocolBase', [(1,), (2,), (1, 2)], 5, [1, 2, 4], [], ['end', 'cancel'], LIMIT // 2, 2,
        )
    run_in_loop(main)
    report.assumptions = [
        'a read is cancelled by cancelling the current reader of the protocol',
        'reading of the transport is paused over 128 KiB of unread data',
    ]
