import functools

from vf.conform import batched, check_graph
from vf.report import Violation


@functools.total_ordering
class Element:
    def __init__(self, order, tag):
        self.order = order
        self.tag = tag
    def __eq__(self, other):
        return self.order == other.order
    def __gt__(self, other):
        return self.order > other.order
    __hash__ = None
    def __repr__(self):
        return f'{self.order}{self.tag}'


class SortedLists:
    def __init__(self, orders, keyed):
        self.orders = orders
        self.keyed = keyed
        self.history = []

    def reset(self):
        from scarletio.utils import SortedList
        self.type = SortedList
        self.list = SortedList()
        self.copies = []
        self.turn = 0

    def do(self, op, args):
        return getattr(self, 'do_' + op)(*args)

    def elements(self, given):
        return [Element(*element) for element in given]

    def do_make(self, given, reverse):
        elements = self.elements(given)
        self.turn += 1
        self.list = self.type(iter(elements) if self.turn % 2 else elements, reverse = reverse)
        return '-'
    def do_add(self, element):
        self.list.add(Element(*element))
        return '-'
    def do_remove(self, element):
        self.list.remove(Element(*element))
        return '-'
    def do_extend(self, how, given):
        elements = self.elements(given)
        if how == 'iterator':
            elements = iter(elements)
        elif how != 'list':
            elements = self.type(elements, reverse = how == 'descending')
        self.list.extend(elements)
        return '-'
    def do_extend_itself(self):
        self.list.extend(self.list)
        return '-'

    # keys are in the order of the elements
    def key(self, element):
        return element.order * 10 if self.keyed else -1 / (element.order + 1)
    def do_get(self, order):
        return self.shown(self.list.get(self.key(Element(order, '-')), self.key, 'default'))
    def do_pop(self, order):
        return self.shown(self.list.pop(self.key(Element(order, '-')), self.key, 'default'))
    def shown(self, element):
        return [element.order, element.tag] if isinstance(element, Element) else element
    def do_set_reverse(self, value):
        self.list.reverse = value
        return '-'
    def do_resort(self, index, order):
        changed = self.list[index - 1]
        # it might be in the list many times
        list.__setitem__(self.list, index - 1, Element(order, changed.tag))
        self.list.resort()
        return '-'
    def do_delete_at(self, index):
        del self.list[index - 1]
        return '-'
    def do_copy(self):
        copied = self.list.copy()
        shown = self.show(copied)
        copied.add(Element(0, 'more'))
        copied.reverse = not copied.reverse
        kept = self.list.copy()
        self.copies = self.copies[-2:] + [(kept, self.show(kept))]
        return shown

    def show(self, list_):
        shown = [self.shown(element) for element in list_]
        at = {}
        for order in self.orders:
            element = Element(order, 'sought')
            keyed = list_.keyed_relative_index(self.key(element), self.key)
            position = list_.relative_index(element)
            if keyed != position:
                raise Violation(f'positions differ: {keyed}, {position}', list(self.history))
            try:
                index = list_.index(element)
            except ValueError:
                index = -1
            at[order] = [position, element in list_, index, list_.count(element)]
        if len(list_) != len(shown):
            raise Violation('wrong length', list(self.history))
        at = [at[order] for order in self.orders]
        return {'list': shown, 'reversed': list_.reverse, 'at': at}

    def observe(self):
        for copied, shown in self.copies:
            if self.show(copied) != shown:
                raise Violation('a copy changed with its original', list(self.history))
        return self.show(self.list)

    def close(self):
        pass


def run(report):
    deep = report.thorough
    def part(orders, tags, length, given, keyed):
        check_graph(
            report, 'D03', 'D03.cfg', SortedLists(range(1, orders + 1), keyed), name = f'{orders} orders, {length} long', walks = 400,
            constants = {
                'Orders': f'1..{orders}', 'Tags': '{' + ', '.join(f'"{t}"' for t in tags) + '}',
                'MaxLength': str(length), 'MaxGiven': str(given),
            },
        )
    def main():
        part(4, 'x', 4 + deep, 2, True)
        part(2, 'xy', 3 + deep, 2, False)
        part(6, 'x', 6, 1, True) if deep else part(3, 'x', 5, 1, True)
    batched(main)()
    report.assumptions = ['which one of several equal elements is replaced, removed or found is not prescribed']
