import copy, gc, operator, weakref

from vf.conform import batched, check_graph
from vf.report import Violation


class Object:
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return self.name


class Equal(Object):
    """Equal to every object of the same name, so also to the one which has died."""
    def __eq__(self, other):
        return isinstance(other, Equal) and other.name == self.name
    def __hash__(self):
        return hash(self.name)


class Unhashable(Object):
    __hash__ = None
    def __eq__(self, other):
        return self is other


class Containers:
    def __init__(self, type_, keys, values, objects, object_type):
        self.type = type_
        self.keys = keys
        self.values = values
        self.names = objects
        self.object_type = object_type
        self.history = []

    def reset(self):
        self.objects = {name: self.object_type(name) for name in self.names}
        self.iterators = {}
        self.copies = []
        self.container = self.type()
        self.broken = set()
        self.turn = 0

    def do(self, op, args):
        structural = op in ('delete', 'pop', 'popitem', 'clear')
        before = self.content(self.container) if op in ('set', 'setdefault', 'update', 'combine') else None
        result = getattr(self, 'do_' + op)(*args)
        if before is not None:
            after = self.content(self.container)
            structural = [before[key] == '-' for key in before] != [after[key] == '-' for key in before]
        if structural:
            self.broken.update(self.iterators)
        return result

    def real(self, name):
        """The object of the name, if it is one."""
        if name == 'null':
            return None
        if name in self.names:
            return self.objects[name]
        return name
    def shown(self, object_):
        if object_ is None:
            return 'null'
        if isinstance(object_, Object):
            if object_ is not self.objects.get(object_.name):
                return 'an other object'
            return object_.name
        return object_

    def do_die(self, name):
        reference = weakref.ref(self.objects[name])
        del self.objects[name]
        if reference() is not None:
            raise Violation(f'{name} is kept alive by {gc.get_referrers(reference())!r}'[:400], list(self.history))
        return '-'
    def do_revive(self, name):
        self.objects[name] = self.object_type(name)
        return '-'

    def do_open(self, number, what):
        self.iterators[number] = self.open(what), what
        return '-'
    def open(self, what):
        container = self.container
        return iter(container.values() if what == 'values' else container.items() if what == 'items' else container.keys())
    def yielded(self, value, what):
        if what == 'items':
            return [self.shown(value[0]), self.shown(value[1])]
        return self.shown(value)
    def do_next(self, number):
        iterator, what = self.iterators[number]
        broken = number in self.broken
        self.broken.discard(number)
        try:
            value = next(iterator)
        except StopIteration:
            del self.iterators[number]
            return 'any' if broken else 'end'
        except RuntimeError:
            if not broken:
                raise
            del self.iterators[number]
            return 'any'
        value = self.yielded(value, what)
        if broken:
            del self.iterators[number]
            iterator.close()
            if value == 'an other object':
                return value
            return 'any'
        return value
    def do_close(self, number):
        self.broken.discard(number)
        self.iterators.pop(number)[0].close()
        return '-'

    def content(self, container):
        content = dict.fromkeys(self.keys, '-')
        for key, value in container.items():
            content[self.shown(key)] = self.shown(value)
            key = value = None
        return content
    def raw_length(self, container):
        return dict.__len__(container)
    def make_copy(self, how):
        if how == 'copy':
            return self.container.copy()
        if how == 'new':
            return self.type(self.container)
        return copy.copy(self.container)
    def do_copy(self, how):
        copied = self.make_copy(how)
        shown = self.content(copied)
        self.copies = self.copies[-2:]
        # the objects die in the copy too
        self.copies.append((copied, shown))
        return shown
    def check_copies(self):
        for copied, shown in self.copies:
            for key, value in shown.items():
                if self.gone(key) or self.gone(value):
                    shown[key] = '-'
            length = len(copied)
            content = self.content(copied)
            if content != shown or length != sum(value != '-' for value in shown.values()) or self.raw_length(copied) != length:
                raise Violation(
                    f'the content of a copy is {content!r} instead of {shown!r}, its length {length}, {self.raw_length(copied)}', list(self.history),
                )
            # the copy holds what it held, nothing of what comes back under the same name
    def gone(self, name):
        return name in self.names and name not in self.objects

    def observe(self):
        container = self.container
        raw = self.raw_length(container)
        length = len(container)
        self.check_content(container)
        self.check_copies()
        content = self.content(container)
        if not self.iterators:
            if raw != length:
                raise Violation(f'{raw} entries are kept instead of {length}', list(self.history))
        return {
            'c': content, 'length': length, 'open': bool(self.iterators),
            'alive': {name: name in self.objects for name in self.names},
        }

    def close(self):
        for iterator, what in self.iterators.values():
            iterator.close()
        self.iterators.clear()
        self.broken.clear()
        self.copies.clear()
        self.container = None


class Dictionaries(Containers):
    def do_set(self, key, value):
        def set_():
            self.container[self.real(key)] = self.real(value)
            return '-'
        return set_()
    def do_setdefault(self, key, value):
        return self.shown(self.container.setdefault(self.real(key), self.real(value)))
    def do_update(self, key, value, other_key, other_value):
        self.turn += 1
        pairs = [(self.real(key), self.real(value)), (self.real(other_key), self.real(other_value))]
        def update():
            self.container.update(dict(pairs) if self.turn % 3 == 0 else pairs if self.turn % 3 == 1 else self.type(pairs))
            return '-'
        return update()
    def do_delete(self, key):
        try:
            del self.container[self.real(key)]
        except KeyError:
            return 'key error'
        return '-'
    def do_pop(self, key, default):
        try:
            value = self.container.pop(self.real(key), *(['default'] if default else []))
        except KeyError:
            if self.container.pop(self.real(key), None) is not None:
                return 'not none'
            return 'key error'
        return self.shown(value)
    def do_popitem(self):
        try:
            key, value = self.container.popitem()
        except KeyError:
            return 'key error'
        return [self.shown(key), self.shown(value)]
    def do_clear(self):
        self.container.clear()
        return '-'

    def check_content(self, container):
        """Every way of looking at the content tells the same."""
        length = len(container)
        pairs = {}
        for key in self.keys:
            if self.gone(key):
                continue
            real = self.real(key)
            try:
                value = container[real]
            except KeyError:
                contains = False
                value = None
                if container.get(real, 'default') != 'default' or container.get(real) is not None:
                    raise Violation(f'{key} is got while it is not there', list(self.history))
            else:
                contains = True
                pairs[key] = self.shown(value)
                if self.shown(container.get(real, 'default')) != self.shown(value):
                    raise Violation(f'get differs for {key}', list(self.history))
            if (real in container) != contains or (real in container.keys()) != contains:
                raise Violation(f'{key} is there: {real in container}, {real in container.keys()}, {contains}', list(self.history))
            for other in self.values:
                if self.gone(other):
                    continue
                if ((real, self.real(other)) in container.items()) != (contains and pairs[key] == other):
                    raise Violation(f'({key}, {other}) is an item: {(real, self.real(other)) in container.items()}', list(self.history))
            value = real = None
        for other in self.values:
            if not self.gone(other) and (self.real(other) in container.values()) != (other in pairs.values()):
                raise Violation(f'{other} is a value: {self.real(other) in container.values()}', list(self.history))
        ways = [
            sorted(self.shown(key) for key in container), sorted(self.shown(key) for key in container.keys()),
            sorted(pair[0] for pair in self.pairs(container)),
        ]
        if any(way != sorted(pairs) for way in ways):
            raise Violation(f'keys differ: {ways!r}, {sorted(pairs)!r}', list(self.history))
        ways = [sorted(self.shown(value) for value in container.values()), sorted(pair[1] for pair in self.pairs(container))]
        if any(way != sorted(pairs.values()) for way in ways):
            raise Violation(f'values differ: {ways!r}, {sorted(pairs.values())!r}', list(self.history))
        if [length, len(container), len(container.keys()), len(container.values()), len(container.items())] != [len(pairs)] * 5:
            raise Violation(f'length is {length}, {len(container)} instead of {len(pairs)}', list(self.history))
        if bool(container) != bool(pairs):
            raise Violation('wrong truth', list(self.history))
        text = repr(container)
        for key, value in pairs.items():
            if f'{self.real(key)!r}: {self.real(value)!r}' not in text:
                raise Violation(f'{key} is missing from {text}', list(self.history))
        if self.object_type is Unhashable and any(key in self.names for key in self.keys):
            return
        same = {self.real(key): self.real(value) for key, value in pairs.items()}
        other = self.type(same)
        more = dict(same)
        for key in self.keys:
            if key not in pairs and not self.gone(key):
                more[self.real(key)] = next((self.real(v) for v in self.values if not self.gone(v)), None)
        truths = [container == same, container == other, other == container, container == list(same.items()), not (container != same), not (container != other)]
        if len(more) > len(same) and None not in more.values():
            twin = self.type(more)
            truths += [container != more, container != twin, twin != container, not (container == more), not (container == twin)]
        if not all(truths):
            raise Violation(f'comparing gives {truths!r}', list(self.history))

    def pairs(self, container):
        for key, value in container.items():
            yield [self.shown(key), self.shown(value)]


class Maps(Containers):
    """Every key is its own value."""
    def open(self, what):
        return iter(self.container)
    def content(self, container):
        content = dict.fromkeys(self.keys, '-')
        for key in container:
            content[self.shown(key)] = self.shown(key)
            key = None
        return content
    def do_set(self, key, value):
        return '-' if self.container.set(self.real(key)) is self.real(key) else 'an other is given back'
    def do_delete(self, key):
        try:
            del self.container[self.real(key)]
        except KeyError:
            return 'key error'
        return '-'
    def do_pop(self, key, default):
        return self.shown(self.container.pop(self.real(key), 'default'))
    def do_popitem(self):
        # maps cannot pop anything
        for key in self.container:
            break
        else:
            return 'key error'
        name = self.shown(key)
        self.container.pop(key)
        return [name, name]
    def do_clear(self):
        self.container.clear()
        return '-'
    def check_content(self, container):
        there = []
        for key in self.keys:
            if self.gone(key):
                continue
            real = self.real(key)
            contains = real in container
            if contains:
                there.append(key)
            self.check_lookup(container, key, real, contains)
            real = None
        shown = sorted(self.shown(key) for key in container)
        if shown != sorted(there) or len(container) != len(there) or bool(container) != bool(there):
            raise Violation(f'contents differ: {shown!r}, {there!r}, {len(container)}', list(self.history))
        text = repr(container)
        if any(key not in text for key in there):
            raise Violation(f'missing from {text}', list(self.history))
        same = {self.real(key) for key in there}
        other = self.type(same)
        truths = [container == same, container == other, other == container, not (container != same), not (container != other)]
        more = same | set(self.objects.values())
        if len(more) > len(same):
            twin = self.type(more)
            truths += [container != more, container != twin, not (container == more), not (container == twin), twin != container]
        if not all(truths):
            raise Violation(f'comparing gives {truths!r}', list(self.history))
    def check_lookup(self, container, key, real, contains):
        try:
            found = container[real] is real
        except KeyError:
            found = False
        if found != contains or (container.get(real, 5) is real) != contains or (not contains and container.get(real) is not None):
            raise Violation(f'looking {key} up differs', list(self.history))


class Sets(Maps):
    def raw_length(self, container):
        return set.__len__(container)
    def check_lookup(self, container, key, real, contains):
        pass
    def do_set(self, key, value):
        def add():
            self.container.add(self.real(key))
            return '-'
        return add()
    def do_delete(self, key):
        try:
            self.container.remove(self.real(key))
        except KeyError:
            return 'key error'
        return '-'
    def do_pop(self, key, default):
        # not the pop of sets
        contains = self.real(key) in self.container
        self.container.discard(self.real(key))
        return key if contains else 'default'
    def do_popitem(self):
        try:
            key = self.container.pop()
        except KeyError:
            return 'key error'
        return [self.shown(key), self.shown(key)]
    def do_combine(self, name, how, others):
        others = {self.objects[key] for key, there in others.items() if there}
        if how == 'weak':
            others_container = self.type(others)
        elif how == 'list':
            others_container = [*others, *others]
        elif how == 'itself':
            others_container = self.container
        else:
            others_container = others
        container = self.container
        if hasattr(container, name):
            method = getattr(container, name)
        elif name[0] == 'r' and hasattr(container, f'__{name}__'):
            method = lambda other: getattr(type(container), f'__{name}__')(container, other)
        else:
            function = getattr(operator, '__' + name + '__')
            method = lambda other: function(container, other)
        result = method(others_container)
        if name[0] == 'i' and hasattr(operator, '__' + name + '__'):
            return '-' if result is container else 'not itself'
        if result is None:
            return '-'
        if type(result) is bool:
            return result
        if type(result) is not self.type:
            return repr(result)
        if result is container:
            return 'itself'
        self.copies = self.copies[-2:]
        shown = self.content(result)
        self.copies.append((result, shown))
        return shown


COMBINATIONS = [
    'and', 'iand', 'intersection', 'intersection_update', 'rand', 'or', 'ior', 'union', 'update', 'ror', 'sub', 'isub', 'difference',
    'difference_update', 'rsub', 'xor', 'ixor', 'symmetric_difference', 'symmetric_difference_update', 'rxor',
    'eq', 'ne', 'le', 'issubset', 'lt', 'ge', 'issuperset', 'gt', 'isdisjoint',
]


def run(report):
    from scarletio.utils import HybridValueDictionary, WeakItemDictionary, WeakKeyDictionary, WeakMap, WeakSet, WeakValueDictionary
    deep = report.thorough
    def names(values):
        return '{' + ', '.join(f'"{v}"' for v in values) + '}'
    def part(adapter, type_, keys, values, objects, object_type = Object, iterators = 1, what = ('keys', 'values', 'items'), group = ('copy', 'update'), combinations = (), spec_values = None):
        check_graph(
            report, 'D02', 'D02S.cfg' if adapter in (Maps, Sets) else 'D02.cfg', adapter(type_, keys, values, objects, object_type),
            name = f'{type_.__name__}, {object_type.__name__} {"".join(what)} {len(combinations)} {iterators}', walks = 300, walk_length = 50, constants = {
                'Keys': names(keys), 'Values': names(values), 'Objects': names(objects), 'Iterators': names(range(iterators)),
                'What': names(what), 'Combinations': names(combinations), 'Group': names(group),
            },
        )
    def main():
        values = ['x', 'y']
        part(Dictionaries, WeakValueDictionary, ['k', 'l'], values, values)
        part(Dictionaries, WeakValueDictionary, ['k', 'l'], ['x'], ['x'], Unhashable, 2, ['items'])
        part(Dictionaries, HybridValueDictionary, ['k', 'l'], ['x', 'p'], ['x'], Equal)
        part(Dictionaries, HybridValueDictionary, ['k', 'l'], ['x', 'y'], ['x', 'y'], Object, 1, ['values'], ['copy'])
        part(Dictionaries, WeakKeyDictionary, ['x', 'y'], ['1', 'null'], ['x', 'y'], Equal)
        part(Dictionaries, WeakKeyDictionary, ['x', 'y', 'z'], ['1'], ['x', 'y', 'z'], Object, 1, ['keys'], ['copy'])
        part(Dictionaries, WeakItemDictionary, ['x', 'y'], ['v', 'w'], ['x', 'y', 'v', 'w'], Object, 1, ['keys'], ['copy'])
        part(Dictionaries, WeakItemDictionary, ['x', 'y'], ['v'], ['x', 'y', 'v'], Equal)
        part(Maps, WeakMap, 'xyz', 'xyz', 'xyz', Equal, 1)
        part(Sets, WeakSet, 'xyz', 'xyz', 'xyz', Equal, 1 + deep)
        part(Sets, WeakSet, 'xyz', 'xyz', 'xyz', Object, int(deep), combinations = COMBINATIONS)
        part(Sets, WeakSet, 'xy', 'xy', 'xy', Object, 1, combinations = COMBINATIONS)
    batched(main)()
    report.assumptions = [
        'objects die by losing their last reference, not by the cycle collector',
        'an iterator opened before something was added or removed may fail, as the ordinary containers\' ones do',
    ]
