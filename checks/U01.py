import re
from datetime import datetime
from urllib.parse import unquote_to_bytes

from vf.common import tla
from vf.conform import batched, check_graph
from vf.report import Violation

PUNCTUATION = '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~ '
TEXTS = {f'c{ord(char)}': f'a{char}b' for char in PUNCTUATION}
TEXTS |= {f'd{ord(char)}': char for char in PUNCTUATION if char != '.'}
TEXTS |= {
    'two': 'é', 'two8': 'ő', 'two9': 'ș', 'three': '日本', 'three8': '⁈', 'four': '🙈🙉', 'mixed': 'é%ő+日 🙈/&', 'percent': '%41', 'percents': '%%25',
    'pair': 'a=b&c=d', 'plus': '1+1 = 2', 'nul': '\x00', 'control': 'a\r\nb', 'del': '\x7f', 'long': 'ő+' * 200, 'null': 'null', 'true': 'true',
    'false': 'false', 'int': '-12', 'float': '2.5', 'date': '2020-02-03T04:05:06',
}
TYPED = {'null': None, 'true': True, 'false': False, '-12': -12, '2.5': 2.5, '2020-02-03T04:05:06': datetime(2020, 2, 3, 4, 5, 6)}
HOSTS = {
    'name': 'a.test', 'subs': 'x.y.example.com', 'dot': 'a.test.', 'idn': 'ű.test', 'idns': 'x.ű.bücher.example', 'local': 'localhost', 'v4': '127.0.0.1',
    'v4e': '8.8.4.4', 'v6': '[::1]', 'v6e': '[2001:db8::8:800:200c:417a]',
}
TOKENS = {text: token for token, text in (TEXTS | HOSTS).items()}
PLAIN = re.compile('[a-zA-Z0-9_\\-.~\u00a1-\uffff]*')
UNRESERVED = '[A-Za-z0-9\\-._~]'
PCHAR = f"(?:{UNRESERVED}|[!$&'()*+,;=:@]|%[0-9A-Fa-f]{{2}})"
SHAPE = re.compile('(?:([^:/?#]+):)?(?://([^/?#]*))?([^?#]*)(?:\\?([^#]*))?(?:#(.*))?', re.S)
LEGAL = {
    'user': re.compile(f"(?:{UNRESERVED}|[!$&'()*+,;=]|%[0-9A-Fa-f]{{2}})*"), 'host': re.compile(r"[A-Za-z0-9\-.]+|\[[0-9a-fA-F:]+\]"),
    'path': re.compile(f'(?:{PCHAR}|/)*'), 'query': re.compile(f'(?:{PCHAR}|[/?])*'), 'fragment': re.compile(f'(?:{PCHAR}|[/?#])*'),
}


def text_of(token):
    return TEXTS.get(token, token)


def token_of(text):
    return TOKENS.get(text, text)


def none_of(token):
    return None if token == '-' else text_of(token)


def shown(text):
    return '-' if text is None else token_of(text)


class Refused(Exception):
    pass


def decoded(text):
    return unquote_to_bytes(text).decode('utf-8')


def split(text):
    """What an other implementation sees in an encoded url."""
    scheme, authority, path, query, fragment = SHAPE.fullmatch(text).groups()
    parts = {'scheme': scheme, 'user': None, 'password': None, 'host': None, 'port': None, 'path': path, 'query': query, 'fragment': fragment}
    if authority is not None:
        information, at, host = authority.rpartition('@')
        if at:
            parts['user'], _, parts['password'] = information.partition(':')
        found = re.fullmatch('(.*?)(?::([0-9]+))?', host)
        parts['host'], parts['port'] = found.groups()
    for name, pattern in LEGAL.items():
        if parts[name] is not None and not pattern.fullmatch(parts[name]):
            raise Refused(f'illegal {name}: {parts[name]!r}')
    return parts


def understood(text, keys):
    parts = split(text)
    query = {key: [] for key in keys}
    for pair in (parts['query'] or '').split('&'):
        if pair:
            key, _, value = pair.replace('+', ' ').partition('=')
            query.setdefault(token_of(decoded(key)), []).append(token_of(decoded(value)))
    host = parts['host']
    return {
        'scheme': parts['scheme'] or '-', 'user': token_of(decoded(parts['user'] or '')) or '-', 'password': token_of(decoded(parts['password'] or '')) or '-',
        'host': '-' if host is None else token_of(host if host.startswith('[') else host.encode().decode('idna')),
        'port': -1 if parts['port'] is None else int(parts['port']),
        'path': [token_of(decoded(segment)) for segment in parts['path'].split('/')[1:]] if parts['path'].strip('/') else [],
        'query': query, 'fragment': '-' if parts['fragment'] is None else token_of(decoded(parts['fragment'])),
    }


class Urls:
    def __init__(self, keys):
        self.keys = keys
        self.history = []
        self.turn = 0

    def reset(self):
        from scarletio.web_common import URL
        self.type = URL
        self.url = URL('http://a.test')
        self.before = None
        self.seen = {}

    def do(self, op, args):
        old, self.before = self.url, self.parts(self.url)
        try:
            result = getattr(self, 'do_' + op)(*args)
        except ValueError:
            result = 'ValueError'
        if self.parts(old) != self.before:
            raise Violation(f'{op} changed the url it was called on: {self.before!r} -> {self.parts(old)!r}', list(self.history))
        return result

    def write(self, scheme, user, password, host, port, path, query, fragment, style):
        def encode(text, safe):
            result = []
            for char in text_of(text):
                if style == 'decoded' or (style != 'full' and re.fullmatch(f'{UNRESERVED}|[{safe}]', char)):
                    result.append(char)
                elif char == ' ' and style in ('plus', 'open') and safe in ('!', key_safe, value_safe):
                    result.append('+')
                else:
                    result.extend(f'%{byte:02x}' if style == 'lower' else f'%{byte:02X}' for byte in char.encode())
            return ''.join(result)
        def pair(key, value):
            if style == 'open':
                # without an equals sign if there is no value, and all is left as it is what may be so
                return encode(key, key_safe) + ('=' + encode(value, value_safe) if value else '')
            return encode(key, '!') + '=' + encode(value, '!')
        key_safe = "!$'()*,;:@/?"
        value_safe = key_safe + '='
        built = '' if scheme == '-' else scheme + ':'
        if host != '-':
            built += '//'
            if user != '-' or password != '-':
                built += ('' if user == '-' else encode(user, "!$&'()*+,;=")) + ('' if password == '-' else ':' + encode(password, "!$&'()*+,;=")) + '@'
            name = HOSTS.get(host, host)
            built += name if style == 'decoded' or name.startswith('[') else name.encode('idna').decode()
            if port >= 0:
                built += f':{port}'
        built += ''.join('/' + encode(segment, "!$&'()*+,;=:@") for segment in path)
        if query:
            built += '?' + '&'.join(pair(*item) for item in query)
        if fragment != '-':
            built += '#' + encode(fragment, "!$&'()*+,;=:@/?")
        return built

    def do_read(self, scheme, user, password, host, port, path, query, fragment, style):
        texts = [user, password, fragment, *path, *(item for pair in query for item in pair)]
        if style == 'decoded' and not all(PLAIN.fullmatch(text_of(text)) for text in texts):
            style = 'minimal'
        text = self.write(scheme, user, password, host, port, path, query, fragment, style)
        self.url = self.type(text, encoded = style != 'decoded')
        return '-'

    def do_with_scheme(self, scheme):
        self.url = self.url.with_scheme(scheme)
        return '-'
    def do_with_user(self, user):
        self.url = self.url.with_user(none_of(user))
        return '-'
    def do_with_password(self, password):
        self.url = self.url.with_password(none_of(password))
        return '-'
    def do_with_host(self, host):
        self.url = self.url.with_host(HOSTS.get(host, host))
        return '-'
    def do_with_bad_host(self):
        self.turn += 1
        self.url = self.url.with_host(('', 'a b', 'a.test/x', 'a.test:80', 'u@a.test', 'a.test?x', '-', '[1::2::3]')[self.turn % 8])
        return '-'
    def do_with_port(self, port):
        self.url = self.url.with_port(None if port == -1 else port)
        return '-'
    def do_origin(self):
        self.url = self.url.origin()
        return '-'
    def do_relative(self):
        self.url = self.url.relative()
        return '-'
    def do_with_fragment(self, fragment):
        self.url = self.url.with_fragment(none_of(fragment))
        return '-'
    def do_divide(self, segments):
        self.url = self.url / '/'.join(map(text_of, segments))
        return '-'
    def do_with_name(self, segments):
        self.url = self.url.with_name('/'.join(map(text_of, segments)))
        return '-'
    def do_parent(self):
        self.url = self.url.parent
        return '-'

    def do_join(self, path, query, fragment):
        other = self.type(self.write('http', '-', '-', 'name', -1, path, query, fragment, 'minimal'), encoded = True)
        self.url = self.url.join(other)
        return '-'

    def give(self, pairs, form):
        pairs = [(text_of(key), text_of(value)) for key, value in pairs]
        if form == 'text' and all(PLAIN.fullmatch(item) for pair in pairs for item in pair):
            return '&'.join('='.join(pair) if pair[1] else pair[0] for pair in pairs)
        if form == 'typed':
            pairs = [(key, TYPED.get(value, value)) for key, value in pairs]
        if form == 'list':
            return pairs
        if not pairs:
            return None
        given = {}
        for key, value in pairs:
            given.setdefault(key, []).append(value)
        return {key: values[0] if len(values) == 1 else values if form == 'dict' else tuple(values) for key, values in given.items()}

    def do_with_query(self, pairs, form):
        self.url = self.url.with_query(self.give(pairs, form))
        return '-'
    def do_extend_query(self, pairs, form):
        self.url = self.url.extend_query(self.give(pairs, form))
        return '-'

    def parts(self, url):
        query = {key: [] for key in self.keys}
        if url.query is not None:
            for key in url.query.keys():
                query[token_of(key)] = [token_of(value) for value in url.query.get_all(key)]
        path = [token_of(part) for part in url.parts or ()]
        return {
            'scheme': url.scheme or '-', 'user': shown(url.user or None), 'password': shown(url.password or None), 'host': shown(url.host),
            'port': -1 if url.port is None else url.port, 'path': [] if path == [''] else path, 'query': query,
            'fragment': shown(url.fragment), 'absolute': url.is_absolute(), 'name': token_of(url.name), 'default': url.is_default_port(),
        }

    def observe(self):
        url = self.url
        seen = self.parts(url)
        text = url.value_encoded
        again = self.type(text, encoded = True)
        if self.parts(again) != seen:
            raise Violation(f'{text!r} is read again as {self.parts(again)!r}, was {seen!r}', list(self.history))
        if again != url or not again == url or hash(again) != hash(url):
            raise Violation(f'{text!r} is not equal to the same url', list(self.history))
        try:
            other = understood(text, self.keys)
            parts = split(text)
        except (Refused, UnicodeError) as error:
            raise Violation(f'{text!r} is not a legal url: {error!r}', list(self.history))
        for name, value in other.items():
            if value != seen[name] and not (name == 'port' and value == -1):
                raise Violation(f'in {text!r} {name} means {value!r}, but should be {seen[name]!r}', list(self.history))
        raw = {
            'host': url.raw_host, 'path': url.raw_path, 'query': url.raw_query_string or None, 'fragment': url.raw_fragment, 'user': url.raw_user or '',
            'password': url.raw_password or '',
        }
        for name, value in raw.items():
            expected = parts[name]
            if (expected or '' if name in ('user', 'password') else expected or '/' if name == 'path' else expected) != value:
                raise Violation(f'in {text!r} {name} is {parts[name]!r}, but shown as {value!r}', list(self.history))
        key = repr({name: value for name, value in seen.items() if name != 'port'}) + f' {url._port}'
        known = self.seen.setdefault(key, url)
        if len(self.seen) > 50:
            self.seen.clear()
        for key_, url_ in self.seen.items():
            if url_ == url and key_ != key:
                raise Violation(f'{url!r} == {url_!r}, but their parts are {key} and {key_}', list(self.history))
        return seen

    def close(self):
        pass


BASE = {
    'Schemes': ['http'], 'Users': ['-'], 'Passwords': ['-'], 'Hosts': ['name'], 'Ports': [-1], 'Paths': [()], 'Names': [], 'Keys': ['k'],
    'Pairs': [()], 'Forms': [], 'Fragments': ['-'], 'Styles': ['minimal'], 'Ops': [], 'MaxPath': 3, 'MaxValues': 2, 'OnlyStart': True,
}


@batched
def run(report):
    deep = report.thorough

    def part(name, **changed):
        values = BASE | changed
        walks = values.pop('walks', 0)
        keys = list(values['Keys'])
        check_graph(
            report, 'U01', 'U01.cfg', Urls(keys), name = name, walks = walks * (4 if deep else 1), walk_length = 60,
            constants = {key: tla(value) for key, value in values.items()},
        )

    part(
        'authority', Schemes = ['https', 'ws', 'ftp'], Users = ['-', 'a', 'c58'], Passwords = ['-', 'c64', 'two8'], Hosts = list(HOSTS) if deep else ['name', 'dot', 'idn', 'v6'],
        Ports = [-1, 8, 80, 65535], Fragments = ['-', 'f'], Ops = ['scheme', 'user', 'host', 'port', 'origin'],
    )
    part('hosts', Hosts = list(HOSTS), Ports = [-1, 80, 443, 8], Schemes = ['http', 'https'], Ops = ['host', 'port', 'read', 'scheme'], Styles = ['minimal', 'decoded'])
    names = [('a',), ('..',), ('.',), ('',), ('b', 'c'), ('..', 'd'), ('.', 'a'), ('plus',), ('a', '..', '..'), ('a', '')]
    part(
        'paths', Names = names, Paths = [(), ('a', 'b'), ('a', '..', 'b'), ('..', 'a', '.'), ('a', ''), ('mixed', '..', '..', 'b', '.', 'a', 'c'), ('c47',), ('a', '', 'b')],
        Pairs = [(), (('k', 'a'),)], Fragments = ['-', 'f'], Ops = ['path', 'join', 'read', 'origin'], Hosts = ['name'], MaxPath = 4 if deep else 3,
        Styles = ['minimal', 'full', 'decoded'],
    )
    part(
        'queries', Keys = ['k', 'pair', 'mixed'], Ops = ['query', 'extend', 'read', 'fragment'], Forms = ['dict', 'list', 'text', 'typed', 'tuple'],
        Pairs = [
            (), (('k', 'a'),), (('k', 'pair'),), (('pair', 'plus'),), (('mixed', 'mixed'), ('k', 'null')), (('k', 'a'), ('mixed', ''), ('k', 'true')), (('k', ''), ('mixed', 'a')),
            (('pair', 'int'), ('pair', 'float')), (('pair', ''),), (('mixed', 'c61'), ('k', 'date')),
        ],
        Fragments = ['-', 'mixed'], Styles = ['minimal', 'full', 'plus', 'lower', 'decoded', 'open'], MaxValues = 3 if deep else 2,
    )
    texts = list(TEXTS)
    for name, changed in (
        ('texts as names', {'Users': ['-', *texts], 'Passwords': ['-', 'a'], 'Ops': ['user', 'read']}),
        ('texts as passwords', {'Users': ['-', 'a'], 'Passwords': ['-', *texts], 'Ops': ['user', 'read']}),
        ('texts in paths', {'Names': [(text,) for text in texts if text not in ('c47', 'd47', 'mixed')], 'Paths': [(text,) for text in texts], 'MaxPath': 1, 'Ops': ['path', 'read']}),
        ('texts in fragments', {'Fragments': ['-', *texts], 'Ops': ['fragment', 'read']}),
        ('texts as keys', {'Keys': texts, 'Pairs': [((text, 'a'),) for text in texts], 'Forms': ['dict'], 'Ops': ['query', 'read'], 'MaxValues': 1}),
        ('texts as values', {'Pairs': [(('k', text),) for text in texts], 'Forms': ['dict', 'list', 'text', 'typed'], 'Ops': ['query', 'read'], 'MaxValues': 1}),
    ):
        part(name, Styles = ['minimal', 'full', 'lower', 'plus', 'decoded', 'open'], **changed)
