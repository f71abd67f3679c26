import io, random, struct, zipfile, zlib
from datetime import datetime, timezone

from vf.conform import batched, check_graph
from vf.report import Violation

NAMES = {
    'a': 'a', 'a(0)': 'a (0)', 'a(1)': 'a (1)', 'a(01)': 'a (01)', 'a(2)': 'a (2)', 'a(1)(5)': 'a (1) (5)', 'a(1)(1)': 'a (1) (1)',
    'a.b': 'a.b', 'a(1).b': 'a (1).b', 'a.b(1)': 'a.b (1)', 'a.b.c': 'a.b.c', 'a(1).b.c': 'a (1).b.c', 'a(1)(1).b': 'a (1) (1).b',
    'd/a': 'd/a', 'd/a(1)': 'd/a (1)', 'd.b/a': 'd.b/a', 'd(1)/a': 'd (1)/a', '.b': '.b', '(1)': ' (1)', 'a.': 'a.', 'a(1).': 'a (1).',
    'line': 'a\nb.c', 'line(1)': 'a\nb (1).c', 'unicode': 'mákos bögre.txt', 'unicode(1)': 'mákos bögre (1).txt', 'space': 'a b', 'long': 'q' * 300,
}
TOKENS = {value: key for key, value in NAMES.items()}
TIMES = {
    'low': datetime(1980, 1, 1, 0, 0, 0, tzinfo = timezone.utc), 'mid': datetime(2024, 2, 29, 12, 31, 58, tzinfo = timezone.utc),
    'high': datetime(2107, 12, 31, 23, 59, 58, tzinfo = timezone.utc),
}
TIME_TOKENS = {value.timetuple()[:6]: key for key, value in TIMES.items()}
CHUNKS = {
    's': b'x', 't': b'a text which is there again and again; ' * 40, 'r': random.Random(5).randbytes(40_000), 'z': bytes(70_000), 'n': b'',
}


class Archives:
    def __init__(self, deduplicated):
        self.deduplicated = deduplicated
        self.history = []

    def reset(self):
        import scarletio.streaming.zip_streaming as module
        from scarletio.streaming.zip_streaming import zip_stream
        self.module = module
        self.stream_zip = zip_stream.stream_zip
        self.resource = zip_stream.create_zip_stream_resource
        self.files = []
        self.many = 0
        self.names = []
        self.turn = 0

    def do(self, op, args):
        return getattr(self, 'do_' + op)(*args)

    def do_add(self, name, chunks, method, time):
        self.files.append((name, chunks, method, time))
        self.read = self.read_archive()
        given, got = NAMES[name], self.read[-1][0]
        return 'kept' if given == got else 'renamed'

    def do_add_many(self, count):
        self.many = count
        self.read = self.read_archive()
        return '-'

    async def produce(self, chunks):
        for chunk in chunks:
            yield CHUNKS[chunk]

    def stream(self):
        files = [
            self.module.ZipStreamFile(
                NAMES[name], self.produce(chunks), compression_method = {'stored': 0, 'deflated': 8}[method], modified_at = TIMES[time],
            ) for name, chunks, method, time in self.files
        ]
        files.extend(
            self.module.ZipStreamFile(f'many_{index}', self.produce('s'), modified_at = TIMES['mid']) for index in range(self.many)
        )
        self.turn += 1
        keywords = {} if self.deduplicated else {'name_deduplicator': None}
        # through the function or its resource
        function = self.stream_zip if self.turn % 2 else self.resource
        return function(files if self.turn % 3 else iter(files), **keywords).__aiter__()

    def collect(self):
        parts = []
        iterator = self.stream()
        while True:
            step = iterator.__anext__()
            try:
                step.send(None)
            except StopIteration as stop:
                parts.append(bytes(stop.value))
            except StopAsyncIteration:
                break
            else:
                raise Violation('streaming an archive waits for something', list(self.history))
        return b''.join(parts)

    def read_archive(self):
        data = self.collect()
        try:
            with zipfile.ZipFile(io.BytesIO(data)) as archive:
                infos = archive.infolist()
                bad = archive.testzip()
                if bad is not None:
                    raise Violation(f'{bad!r} is corrupt in the archive', list(self.history))
                read = [(info.orig_filename, archive.read(info), info) for info in infos]
                if archive.comment:
                    raise Violation('the archive has a comment', list(self.history))
        except (zipfile.BadZipFile, zlib.error, EOFError, OSError, NotImplementedError, UnicodeError) as exception:
            raise Violation(f'the archive cannot be read: {type(exception).__name__}: {exception}', list(self.history))
        self.follow(data, read)
        return [
            (name, content, {0: 'stored', 8: 'deflated'}.get(info.compress_type, '?'), TIME_TOKENS.get(tuple(info.date_time), str(info.date_time)))
            for name, content, info in read
        ]

    def follow(self, data, read):
        """Reads the archive from its start, as who receives it as a stream does."""
        def wrong(what):
            raise Violation(f'read as a stream: {what}', list(self.history))
        position = 0
        for name, content, info in read:
            if info.header_offset != position:
                wrong(f'{name!r} starts at {position} but the directory tells {info.header_offset}')
            (
                signature, version, flags, method, time, date, crc, packed, unpacked, name_length, extra_length
            ) = struct.unpack_from('<4sHHHHHLLLHH', data, position)
            position += 30
            if signature != b'PK\3\4' or method != info.compress_type or not flags & 8 or flags != info.flag_bits:
                wrong(f'wrong local header {signature!r} {method} {flags}')
            if (date >> 9) + 1980 != info.date_time[0] or (date >> 5 & 15, date & 31) != info.date_time[1:3] or (
                time >> 11, time >> 5 & 63, (time & 31) * 2) != info.date_time[3:]:
                wrong('the modification time differs')
            raw = data[position : position + name_length]
            if raw.decode('utf8' if flags & 0x800 else 'cp437') != name:
                wrong(f'the name {raw!r} differs from {name!r}')
            position += name_length + extra_length
            if method:
                decompressor = zlib.decompressobj(-15)
                got = decompressor.decompress(data[position:])
                if not decompressor.eof:
                    wrong('unfinished deflate stream')
                length = len(data) - position - len(decompressor.unused_data)
            else:
                length = info.compress_size
                got = data[position : position + length]
            position += length
            if got != content:
                wrong('other content')
            descriptor = struct.unpack_from('<4sLQQ', data, position)
            position += 24
            if descriptor != (b'PK\7\x08', zlib.crc32(content), length, len(content)):
                wrong(f'wrong data descriptor {descriptor!r}')
            if (info.CRC, info.compress_size, info.file_size) != (zlib.crc32(content), length, len(content)):
                wrong('the directory differs from the content')
        # directory, its zip64 end, locator, its end
        start = position
        for name, content, info in read:
            if data[position : position + 4] != b'PK\1\2':
                wrong('no directory entry')
            position += 46 + sum(struct.unpack_from('<HHH', data, position + 28))
        size = position - start
        signature, length, _, _, disk, disk_start, on_disk, total, told_size, told_start = struct.unpack_from('<4sQHHLLQQQQ', data, position)
        count = len(read)
        if (signature, length, disk, disk_start, on_disk, total, told_size, told_start) != (b'PK\6\6', 44, 0, 0, count, count, size, start):
            wrong('the zip64 end of the directory does not match it')
        end = position
        position += 56
        if struct.unpack_from('<4sLQL', data, position) != (b'PK\6\7', 0, end, 1):
            wrong('the locator does not match')
        position += 20
        short = min(count, 0xffff)
        if struct.unpack_from('<4sHHHHLLH', data, position) != (b'PK\5\6', 0, 0, short, short, 0xffffffff, 0xffffffff, 0):
            wrong('the end of the directory does not match')
        if position + 22 != len(data):
            wrong(f'{len(data) - position - 22} more bytes')

    def observe(self):
        read = self.read
        if self.many:
            if [name for name, *_ in read] != [f'many_{index}' for index in range(self.many)]:
                raise Violation('many files are not in the archive in order', list(self.history))
            return {'names': [], 'contents': [], 'methods': [], 'times': [], 'count': len(read)}
        names = [name for name, *_ in read]
        if self.deduplicated and len(set(names)) != len(names):
            raise Violation(f'a name is there more times: {names!r}', list(self.history))
        if names[:len(self.names)] != self.names:
            raise Violation(f'earlier names changed from {self.names!r} to {names!r}', list(self.history))
        self.names = names
        contents = []
        for (_, chunks, _, _), (_, content, _, _) in zip(self.files, read):
            chunks = ''.join(chunks).replace('n', '')
            contents.append(chunks if content == b''.join(CHUNKS[chunk] for chunk in chunks) else 'other content')
        return {
            'names': [self.shown(name) for name in names], 'contents': contents,
            'methods': [method for _, _, method, _ in read], 'times': [time for *_, time in read], 'count': len(read),
        }
    def shown(self, name):
        token = TOKENS.get(name, 'other')
        return token if token in self.tokens else 'other'

    def close(self):
        pass


def quoted(strings):
    return '{' + ', '.join(f'"{string}"' for string in strings) + '}'

def chunked(contents):
    return '{' + ', '.join('<<' + ', '.join('""' if c == 'n' else f'"{c}"' for c in content) + '>>' for content in contents) + '}'


CHUNKS[''] = b''


def run(report):
    deep = report.thorough
    def part(names, contents, files, deduplicated = True, methods = ('stored',), times = ('mid',), many = (), walks = 50):
        adapter = Archives(deduplicated)
        adapter.tokens = names
        check_graph(
            report, 'Z01', 'Z01.cfg', adapter, name = f'{" ".join(names)} {" ".join(contents)}'[:60], walks = walks,
            max_length = files, walk_length = files,
            constants = {
                'Names': quoted(names), 'Contents': chunked(contents), 'Methods': quoted(methods), 'Times': quoted(times),
                'MaxFiles': str(files), 'Deduplicated': str(deduplicated).upper(), 'Many': '{' + ', '.join(map(str, many)) + '}',
            },
        )
    def main():
        part(['a', 'a(1)', 'a(1)(5)', 'a(0)', 'a(01)'], ['s'], 4)
        part(['a', 'a(1)', 'a(2)'], ['s'], 5 + deep)
        part(['a.b', 'a(1).b', 'a(1)(1).b', 'a.b(1)', 'a.b.c'], ['s'], 3 + deep)
        part(['a', 'd/a', 'd(1)/a', 'd/a(1)', 'd.b/a'], ['s'], 3 + deep)
        part(['.b', '(1)', 'a.', 'line', 'unicode', 'a(1).', 'line(1)', 'unicode(1)', 'long'], ['s'], 3)
        part(['a', 'unicode', 'a.b'], ['s'], 3, False)
        part(['a'], ['', 'n', 's', 't', 'r', 'sts', 'tnz', 'rst'], 2, methods = ('stored', 'deflated'))
        part(['a', 'unicode'], ['n', 'ts'], 2, methods = ('stored', 'deflated'), times = tuple(TIMES))
        part(['a', 'unicode'], ['s'], 1, many = (65534, 65535, 65536, 70000) if deep else (65536,), walks = 2)
    batched(main)()
    report.assumptions = [
        'names are text that UTF-8 can encode to at most 65535 bytes and that holds no NUL', 'modification times are of the years 1980 to 2107, compared to 2 seconds',
    ]
