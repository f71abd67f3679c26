import copy, pickle

from vf.conform import batched, check_graph
from vf.report import Violation


def key_error(function):
    try:
        return function()
    except KeyError:
        return 'key error'


class Dictionaries:
    def __init__(self, type_, keys, values):
        self.type = type_
        self.keys = keys
        self.values = values
        self.history = []

    def reset(self):
        self.d = self.type()
        self.copies = []

    def do(self, op, args):
        return getattr(self, 'do_' + op)(*args)

    def build(self, how, pairs):
        from scarletio import MultiValueDictionary
        pairs = [tuple(pair) for pair in pairs]
        if how == 'pairs':
            return pairs
        if how == 'dictionary':
            return dict(pairs)
        return (MultiValueDictionary if how == 'multi' else self.type)(pairs)

    def do_make(self, how, pairs):
        given = self.build(how, pairs)
        before = repr(given)
        self.d = self.type(given)
        if repr(given) != before:
            raise Violation('making a dictionary changed what it was made of', list(self.history))
        if how in ('multi', 'same'):
            self.copies.append((given, list(given.items())))
        return '-'
    def do_set(self, key, value):
        self.d[key] = value
        return '-'
    def do_setdefault(self, key, value):
        return self.d.setdefault(key, value)
    def do_extend(self, how, pairs):
        self.d.extend(self.build(how, pairs))
        return '-'
    def do_get(self, key):
        return key_error(lambda: self.d[key])
    def do_delete(self, key):
        def delete():
            del self.d[key]
            return '-'
        return key_error(delete)
    def do_pop_one(self, key, default):
        self.turn = not getattr(self, 'turn', False)
        pop = self.d.pop if self.turn else self.d.pop_one
        return key_error(lambda: pop(key, 'default') if default else pop(key))
    def do_pop_all(self, key, default):
        return key_error(lambda: self.d.pop_all(key, 'default') if default else self.d.pop_all(key))
    def do_popitem(self):
        return key_error(lambda: list(self.d.popitem()))
    def do_clear(self):
        self.d.clear()
        return '-'
    def do_copy(self, how):
        d = self.d
        if how == 'copy':
            copied = d.copy()
        elif how == 'new':
            copied = self.type(d)
        elif how == 'pairs':
            copied = self.type(list(d.items()))
        elif how == 'shallow':
            copied = copy.copy(d)
        elif how == 'deep':
            copied = copy.deepcopy(d)
        else:
            copied = pickle.loads(pickle.dumps(d))
        shown = self.show(copied)
        if type(copied) is not type(d) or not (copied == d) or copied != d:
            raise Violation(f'{how}: not equal to its original', list(self.history))
        # changing an other copy changes neither
        twin = copied.copy()
        for key in self.keys:
            twin[key] = 'more'
            twin.pop_one(key)
        if self.show(copied) != shown:
            raise Violation(f'{how}: changing a copy changed its original', list(self.history))
        self.copies = self.copies[-3:]
        self.copies.append((copied, list(copied.items())))
        return shown
    def do_equals(self, how, pairs):
        other = self.build(how, pairs)
        results = [self.d == other, self.d != other]
        if how != 'pairs' and [other == self.d, other != self.d] != results and type(other) is not dict:
            raise Violation('equality is not symmetric', list(self.history))
        return results

    def show(self, d):
        items = d.items()
        values = d.values()
        pairs = [list(pair) for pair in items]
        if not (
            len(items) == len(pairs) and len(values) == len(pairs) and [pair[1] for pair in pairs] == list(values) and
            list(d) == list(d.keys()) and bool(d) == bool(pairs) and len(d.keys()) == len(d)
        ):
            raise Violation(f'views disagree: {pairs!r}, {list(values)!r}, {list(d)!r}, {len(items)}, {len(values)}', list(self.history))
        for key in self.keys:
            if (key in d.keys()) != (key in d):
                raise Violation(f'{key!r} is in {"keys" if key in d.keys() else "dictionary"} only', list(self.history))
        def all_of(key):
            got = d.get_all(key)
            if got is None:
                if d.get_all(key, 5) != 5:
                    raise Violation('default is not given back')
                return []
            shown = got.copy()
            got.append('changed')
            got.pop(0)
            return shown
        return {
            'pairs': pairs, 'length': len(d), 'keys': [str(key) for key in d],
            'all': {key: all_of(key) for key in self.keys},
            'has': {key: key in d for key in self.keys},
            'one': {key: d.get_one(key, '-') if key.islower() else d.get(key, '-') for key in self.keys},
            'last': [list(pair) for pair in d.kwargs().items()],
            'pair': {key: {value: (key, value) in items for value in self.values} for key in self.keys},
            'value': {value: value in values for value in self.values},
        }

    def observe(self):
        for copied, content in self.copies:
            if list(copied.items()) != content:
                raise Violation('a copy changed with its original', list(self.history))
        return self.show(self.d)

    def close(self):
        pass


def run(report):
    from scarletio import IgnoreCaseMultiValueDictionary, MultiValueDictionary
    deep = report.thorough
    def names(values):
        return '{' + ', '.join(f'"{v}"' for v in values) + '}'
    def part(type_, keys, values, pairs, given):
        check_graph(
            report, 'D01', 'D01.cfg', Dictionaries(type_, keys, values), name = f'{type_.__name__} {keys} {values}', walks = 200,
            constants = {
                'Keys': names(keys), 'Values': names(values), 'MaxPairs': str(pairs), 'MaxGiven': str(given),
                'FoldsCase': 'FALSE' if type_ is MultiValueDictionary else 'TRUE',
            },
        )
    def main():
        part(MultiValueDictionary, 'aA', 'xyz', 4 + deep, 1)
        part(MultiValueDictionary, 'ab', 'xy', 4, 2 + deep)
        part(IgnoreCaseMultiValueDictionary, 'aA', 'xyz', 4, 2)
        part(IgnoreCaseMultiValueDictionary, 'aAb', 'xy', 3 + deep, 2)
        if deep:
            part(IgnoreCaseMultiValueDictionary, 'aAbB', 'xy', 3, 1)
    batched(main)()
    report.assumptions = ['operators the dictionaries inherit unchanged from `dict` (`|`, `|=`) are not used']
