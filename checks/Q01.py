from vf.conform import batched, check_graph
from vf.report import Violation


class Counted(bytes):
    """Counts how many times it is read."""
    left = 0
    def __getitem__(self, index):
        self.left -= 1
        if self.left < 0:
            raise Violation(f'parsing {len(self)} bytes does not end: {bytes(self)!r}')
        return bytes.__getitem__(self, index)


class Messages:
    def __init__(self, counts):
        self.counts = counts
        self.history = []

    def reset(self):
        from scarletio import dns_query
        from scarletio.dns_query import building_and_parsing
        self.module = dns_query
        self.code = building_and_parsing
        self.body = b''
        self.flags = 0

    def do(self, op, args):
        return getattr(self, 'do_' + op)(*args)

    def message(self):
        return b''.join(n.to_bytes(2, 'big') for n in (4660, self.flags, *self.counts)) + self.body

    def parse(self, data):
        counted = Counted(data)
        counted.left = 10 * len(data) ** 2 + 2000
        try:
            result, error = self.code.parse_result_data(counted)
        except Violation as violation:
            raise Violation(violation.what, list(self.history)) from None
        if error is not None:
            if result is not None:
                raise Violation('both a result and an error', list(self.history))
            if not isinstance(error, self.module.ResponseParsingError) or ' message = ' not in repr(error):
                raise Violation(f'the error is not described: {error!r}', list(self.history))
            return {'ok': False}
        return {
            'ok': True, 'id': result.transaction_id, 'verified': result.data_verified, 'truncated': result.truncated,
            'recursion': result.recursion_available, 'code': result.response_code,
            'questions': [
                {'labels': self.labels(q.labels), 'type': q.resource_record_type, 'class': q.class_code} for q in result.questions or ()
            ],
            'answers': self.records(result.answers), 'authorities': self.records(result.authority_resource_records),
            'additional': self.records(result.additional_resource_records),
        }
    def labels(self, labels):
        return [list(label) for label in labels or ()]
    def records(self, records):
        for record in records or ():
            # these never fail, whatever the data is
            for parser in (self.code.parse_ip_v4_data, self.code.parse_ip_v6_data):
                value = parser(record.data)
                size = 4 if parser is self.code.parse_ip_v4_data else 16
                expected = int.from_bytes(record.data, 'big') if len(record.data or b'') == size else None
                if value != expected:
                    raise Violation(f'{record.data!r} is parsed to the address {value!r}', list(self.history))
            name = self.code.parse_domain_name_pointer_data(record.data)
            if record.resource_record_type == 12:
                plain, expected = self.named(record.data or b'')
                if plain and name != expected:
                    raise Violation(f'{record.data!r} is named {name!r} instead of {expected!r}', list(self.history))
        return [
            {
                'labels': self.labels(r.labels), 'type': r.resource_record_type, 'class': r.class_code,
                'duration': list(r.validity_duration.to_bytes(4, 'big')), 'data': list(r.data or b''),
            } for r in records or ()
        ]
    def named(self, data):
        """Whether it is surely a name of letters or surely no name, and the name."""
        labels = []
        index = 0
        while True:
            if index >= len(data):
                return True, None
            length = data[index]
            if length == 0:
                return all(label.isalnum() and label.isascii() for label in labels), b'.'.join(labels).decode('latin1') or None
            if length > 63 or index + 1 + length > len(data):
                return True, None
            labels.append(data[index + 1 : index + 1 + length])
            index += 1 + length

    def do_append(self, *token):
        self.body += bytes(token)
        return '-'
    def do_flags(self, flags):
        self.flags = flags
        return '-'
    def do_cut(self, length):
        return self.parse(self.message()[:length])
    def do_trailing(self, *token):
        return self.parse(self.message() + bytes(token))

    def do_query(self, identifier, recursion, verification, verified, questions, records):
        from scarletio.dns_query.query import Query
        from scarletio.dns_query.question import Question
        from scarletio.dns_query.resource_record import ResourceRecord
        configuration = type('Configuration', (), {'option_set_verified_data_in_requests': verified})
        query = Query(
            identifier, recursion, verification,
            tuple(Question(self.given(q['labels']), q['type'], q['class']) for q in questions) or None,
            tuple(
                ResourceRecord(
                    self.given(r['labels']), r['type'], r['class'], int.from_bytes(bytes(r['duration']), 'big'), bytes(r['data']) or None,
                ) for r in records
            ) or None,
        )
        data = self.code.build_query_data(query, configuration)
        result = self.parse(data)
        parsed, error = self.code.parse_result_data(data)
        if error is None and (parsed.questions != query.questions or parsed.additional_resource_records != query.additional_resource_records):
            raise Violation('what is parsed is not equal to what was built', list(self.history))
        return {'bytes': list(data), 'parsed': result}
    def given(self, labels):
        return tuple(bytes(label) for label in labels) or None

    def observe(self):
        return self.parse(self.message())

    def close(self):
        pass


def sequence(values):
    return '<<' + ', '.join(sequence(v) if isinstance(v, (list, tuple, bytes)) else str(v) for v in values) + '>>'

def group(values):
    return '{' + ', '.join(sequence(v) if isinstance(v, (list, tuple, bytes)) else str(v) for v in values) + '}'


END = b'\0\1\0\1'
def record(type_, data_length):
    return type_.to_bytes(2, 'big') + b'\0\1' + b'\0\0\1\x2c' + data_length.to_bytes(2, 'big')


def run(report):
    deep = report.thorough
    def part(counts, tokens, length, flags = (), cuts = True, names = ([],), kinds = (1,), datas = ([],), questions = 0, additional = 0):
        check_graph(
            report, 'Q01', 'Q01.cfg', Messages(counts), name = f'{counts} {len(tokens)} tokens', walks = 2 if questions else 20, max_length = 400,
            constants = {
                'Counts': sequence(counts), 'Flags': group(flags), 'Tokens': group(tokens), 'MaxTokens': str(length), 'Cuts': str(cuts).upper(),
                'Names': group(names), 'Kinds': group(kinds), 'Datas': group(datas), 'MaxQuestions': str(questions),
                'MaxAdditional': str(additional),
            },
        )
    def main():
        # every string of these bytes
        part((1, 0, 0, 0), [[b] for b in (0, 1, 12, 14, 192)] + [END], 5 + deep, cuts = False)
        part((1, 0, 0, 0), [[b] for b in (0, 2, 63, 64, 128, 191, 192, 255, 13)] + [END], 4, cuts = False)
        # names made of whole labels and jumps
        part(
            (1, 1, 0, 0), [b'\1a\0' + END, b'\2bc\1a\0' + END, b'\1d', b'\0', b'\xc0\x0c', b'\xc0\x0f', b'\xc0\0', b'\xc0\x0d', record(1, 4) + b'\1\2\3\4'],
            4 + deep,
        )
        part((2, 0, 0, 0), [b'\1a', b'\0', b'\xc0\x0c', b'\xc0\x0e', b'\xc0\x13', b'\xc0\x15', END], 5 + deep)
        # records
        part(
            (0, 1, 1, 0), [b'\0' + record(16, 0), b'\1a\0' + record(12, 3), b'\xc0\x0c' + record(12, 2), b'\xc0\x0c' + record(12, 4), b'\0' + record(28, 16),
            b'\1b\0', b'\1b\xc0\x0c', b'\2\3', bytes(range(16))], 4 + deep,
        )
        part(
            (1, 0, 1, 1), [b'\1a\0' + END, b'\xc0\x0c', b'\0', record(41, 2), record(1, 0), record(12, 2), b'\xc0\x0d', b'\xc0\x1f'],
            5 + deep,
        )
        part((0, 2, 0, 0), [b'\1a\0' + record(12, 5), b'\2bc\xc0\x0c', b'\xc0\x19', b'\xc0\x1a', b'\0' + record(1, 65535), b'\0' + record(2, 256), bytes(256)], 5, cuts = False)
        # far jumps
        long = b'\x3f' + b'x' * 63
        part((2, 0, 0, 0), [long * 4 + b'\1a\0' + END, long * 3 + b'\x05yyyyy\1a\0' + END, b'\1b', b'\xc1\x0c', b'\xc1\x08', b'\xc0\xcc', b'\xc1\0', END], 4, cuts = False)
        part((2, 0, 0, 0), [long * 16 + b'\1a\0' + END, b'\xc4\x0c', b'\xc3\xcc', b'\xc8\x0c', b'\xff\xff', END], 3, cuts = False)
        far = bytes(range(256)) * 48 + bytes(6)
        part(
            (0, 3, 0, 0), [b'\0' + record(16, len(far)) + far, b'\1a\0' + record(16, 0), b'\xf0\x1d' + record(16, 0), b'\xd0\x1d' + record(16, 0)], 3,
            cuts = False,
        )
        # flags
        part((0, 0, 0, 0), [b'\0'], 1, flags = [2 ** b for b in range(16)] + list(range(16)) + [65535] + [65535 - 2 ** b for b in range(16)])
        # queries
        part(
            (0, 0, 0, 1), [b'\0'], 0, names = ([], [b'a'], [b'example', b'x' * 63], [b'a', b'bc', b'd']), kinds = (1, 28, 12), datas = ([], b'\1\2', b'x' * 300),
            questions = 1, additional = 1,
        )
        part((0, 0, 0, 1), [b'\0'], 0, names = ([], [b'a', b'bc']), kinds = (1, 257), datas = (b'\0',), questions = 2, additional = 1)
    batched(main)()
    report.assumptions = [
        'a name which jumps elsewhere than to before where it was being read from is malformed',
        'whole names of pointer records are told uncompressed, other data as they are in the message',
    ]
