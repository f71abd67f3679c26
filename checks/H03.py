import pickle
from datetime import datetime, timezone

from vf.common import EPSILON
from vf.conform import batched, check_graph
from vf.harness import Clock
from vf.report import Violation

WALL = 1700000000.0
MONOTONIC = 1000.5


def start_clocks(wall = WALL):
    Clock.now = MONOTONIC
    Clock.wall = wall - MONOTONIC


def wall_time():
    return Clock.now + Clock.wall


def date_of(moment):
    return datetime.fromtimestamp(moment, timezone.utc).strftime('%a, %d %b %Y %H:%M:%S GMT')


class Jars:
    def __init__(self, names, domains, unsafe):
        self.names = names
        self.domains = domains
        self.unsafe = unsafe
        self.history = []
        self.turn = 0

    def reset(self):
        from scarletio.web_common import CookieJar
        start_clocks()
        self.jar = CookieJar(self.unsafe) if self.unsafe else CookieJar()

    def do(self, op, args):
        return getattr(self, 'do_' + op)(*args)

    def url(self, scheme, ip, host, path):
        from scarletio.web_common import URL
        if ip and ':' in host:
            host = f'[{host}]'
        self.turn += 1
        if self.turn % 3 == 0:
            host = host.upper()
        return URL(f'{scheme}://{host}{path}')

    def do_set(self, name, value, ip, host, at, style, domain, path, secure, life):
        from http.cookies import SimpleCookie
        cookies = SimpleCookie()
        how = life[0]
        if style == 'none' and not path and not secure and how == 'none' and self.turn % 2:
            cookies = {name: value}
        else:
            cookies[name] = value
            cookie = cookies[name]
            if style != 'none':
                cookie['domain'] = {'plain': domain, 'dot': '.' + domain, 'trailing': domain + '.', 'upper': domain.upper()}[style]
            if path:
                cookie['path'] = path
            if secure:
                cookie['secure'] = True
            if 'age' in how:
                cookie['max-age'] = {'negative age': '-5', 'bad age': 'soon', 'bad age and date': 'soon', 'huge age': '9' * 400}.get(how, str(life[1]))
            if how == 'age and date':
                cookie['expires'] = date_of(wall_time() + 1)
            elif how == 'past date':
                cookie['expires'] = date_of(wall_time() - 100)
            elif how == 'bad date':
                cookie['expires'] = 'Wed, 31-Feb-2023 10:00:00 GMT'
            elif 'date' in how:
                cookie['expires'] = date_of(wall_time() + life[1])
        if host:
            self.jar.update_cookies(cookies, self.url('http', ip, host, at))
        else:
            self.jar.update_cookies(cookies)
        return '-'

    def do_request(self, scheme, ip, host, path):
        filtered = self.jar.filter_cookies(self.url(scheme, ip, host, path))
        sent = {name: morsel.value for name, morsel in filtered.items()}
        pairs = [pair.partition('=') for pair in filtered.output(header = '', sep = ';').split(';')] if filtered else []
        if {pair[0].strip(): pair[2] for pair in pairs} != sent:
            raise Violation(f'unexpected header: {filtered.output()!r}', list(self.history))
        return {name: sent.pop(name, '-') for name in self.names} | sent

    def do_approach(self):
        Clock.now += 1 - EPSILON
        return '-'
    def do_arrive(self):
        Clock.now += EPSILON
        return '-'
    def do_clear(self):
        self.jar.clear()
        return '-'
    def do_pickle(self):
        self.jar = pickle.loads(pickle.dumps(self.jar))
        return '-'

    def observe(self):
        shown = {domain: {name: '-' for name in self.names} for domain in self.domains}
        for cookie in self.jar:
            shown.setdefault(cookie['domain'], {})[cookie.key] = cookie.value
        return shown

    def close(self):
        start_clocks()


class Dates:
    def __init__(self):
        self.history = []
        self.turn = 0

    def reset(self):
        start_clocks()

    def do(self, op, args):
        return getattr(self, 'do_' + op)(*args)

    def do_expires(self, texts, parsed):
        from http.cookies import SimpleCookie
        from scarletio.web_common import CookieJar, URL
        self.turn += 1
        between = (' ', '-', ', ', '/')[self.turn % 4]
        moment = datetime(*parsed, tzinfo = timezone.utc).timestamp() if parsed else 4000000000.0
        start_clocks(moment - 2)
        jar = CookieJar()
        cookies = SimpleCookie()
        cookies['n'] = '1'
        cookies['n']['expires'] = between.join(texts)
        url = URL('http://bb.aa/')
        jar.update_cookies(cookies, url)
        Clock.now += 1.5
        before = 'n' in jar.filter_cookies(url)
        Clock.now += 0.5
        after = 'n' in jar.filter_cookies(url)
        return {
            (True, True): 'does not expire', (True, False): 'expires then', (False, False): 'expires before',
        }.get((before, after), 'comes back')

    def observe(self):
        return '-'

    def close(self):
        start_clocks()


def names_of(values):
    return '{' + ', '.join(f'"{v}"' for v in values) + '}'


def run(report):
    deep = report.thorough
    def part(name, sets, requests, names, domains, unsafe, histories, walks):
        check_graph(
            report, 'H03', 'H03.cfg', Jars(names, domains, unsafe), name = f'{name}, unsafe: {unsafe}', walks = walks,
            constants = {
                'Sets': sets, 'Requests': requests, 'Names': names_of(names), 'Domains': names_of(domains),
                'Safe': 'FALSE' if unsafe else 'TRUE', 'Histories': 'TRUE' if histories else 'FALSE',
                'Advances': 'TRUE' if histories else 'FALSE',
            },
        )
    def main():
        every = ['', 'bb.aa', 'cc.bb.aa', 'xbb.aa', 'aa', 'localhost', '3.4', '1.2.3.4', '::1']
        for unsafe in (False, True):
            part('domains', 'DomainSets', 'DomainRequests', ['n'], every, unsafe, False, 0)
        part('paths', 'PathSets', 'PathRequests', ['n'], ['bb.aa'], False, False, 0)
        part('one name', 'HistorySets', 'HistoryRequests', ['n'], ['bb.aa', 'cc.bb.aa'], False, True, 300)
        part('two names', 'NamesSets', 'HistoryRequests', ['n', 'm'], ['', 'bb.aa', 'cc.bb.aa'], False, True, 300)
        check_graph(report, 'H03D', 'H03D.cfg', Dates(), name = 'dates', walks = 0)
    batched(main)()
