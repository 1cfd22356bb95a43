"""Mixin methods of collections.abc.Sequence and MutableSequence, as documented.
Analysed, never run: classes of the repository inherit them."""


def __contains__(self, value):
    for v in self:
        if v == value:
            return True
    return False


def __reversed__(self):
    return iter([self[i] for i in range(len(self) - 1, -1, -1)])


def count(self, value):
    n = 0
    for v in self:
        if v == value:
            n += 1
    return n


def append(self, value):
    self.insert(len(self), value)


def clear(self):
    try:
        while True:
            self.pop()
    except IndexError:
        pass


def reverse(self):
    n = len(self)
    for i in range(n // 2):
        self[i], self[n - i - 1] = self[n - i - 1], self[i]


def extend(self, values):
    if values is self:
        values = list(values)
    for v in values:
        self.append(v)


def pop(self, index=-1):
    v = self[index]
    del self[index]
    return v


def remove(self, value):
    del self[self.index(value)]


def __iadd__(self, values):
    self.extend(values)
    return self


class Range:
    """range(start, stop, step) with its attributes"""

    def __init__(self, start, stop, step, items):
        self.start = start
        self.stop = stop
        self.step = step
        self.items = items

    def __iter__(self):
        return iter(self.items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __contains__(self, x):
        return x in self.items

    def __reversed__(self):
        return reversed(self.items)

    def index(self, x):
        return self.items.index(x)
