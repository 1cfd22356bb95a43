"""Uses of a default list.  Analysed, never run: each builds one from what it holds (key, value pairs in the order stored),
does one operation, and says what a list of it then is, what its length is and what the operation gave."""


def build(cls, fac, pairs):
    d = cls(fac) if fac is not None else cls()
    for k, v in pairs:
        d[k] = v
    return d


def seen(d, r):
    return tuple(d), len(d), r


def nothing(cls, fac, pairs):
    return seen(build(cls, fac, pairs), None)


def get(cls, fac, pairs, i):
    d = build(cls, fac, pairs)
    return seen(d, d[i])


def put(cls, fac, pairs, i, x):
    d = build(cls, fac, pairs)
    d[i] = x
    return seen(d, None)


def delete(cls, fac, pairs, i):
    d = build(cls, fac, pairs)
    del d[i]
    return seen(d, None)


def insert(cls, fac, pairs, i, x):
    d = build(cls, fac, pairs)
    d.insert(i, x)
    return seen(d, None)


def append(cls, fac, pairs, x):
    d = build(cls, fac, pairs)
    d.append(x)
    return seen(d, None)


def extend(cls, fac, pairs, x, y):
    d = build(cls, fac, pairs)
    d.extend([x, y])
    return seen(d, None)


def concat(cls, fac, pairs, x, y):
    d = build(cls, fac, pairs)
    d += [x, y]
    return seen(d, None)


def pop(cls, fac, pairs):
    d = build(cls, fac, pairs)
    r = d.pop()
    return seen(d, r)


def pop_at(cls, fac, pairs, i):
    d = build(cls, fac, pairs)
    r = d.pop(i)
    return seen(d, r)


def reverse(cls, fac, pairs):
    d = build(cls, fac, pairs)
    d.reverse()
    return seen(d, None)


def backwards(cls, fac, pairs):
    d = build(cls, fac, pairs)
    return seen(d, tuple(reversed(d)))


def clear(cls, fac, pairs):
    d = build(cls, fac, pairs)
    d.clear()
    return seen(d, None)


def index(cls, fac, pairs, x):
    d = build(cls, fac, pairs)
    return seen(d, d.index(x))


def remove(cls, fac, pairs, x):
    d = build(cls, fac, pairs)
    d.remove(x)
    return seen(d, None)


def contains(cls, fac, pairs, x):
    d = build(cls, fac, pairs)
    return seen(d, x in d)


def count(cls, fac, pairs, x):
    d = build(cls, fac, pairs)
    return seen(d, d.count(x))


def equals(cls, fac, pairs, other):
    d = build(cls, fac, pairs)
    return seen(d, d == other)


def equals_alike(cls, fac, pairs, others):
    d = build(cls, fac, pairs)
    return seen(d, d == build(cls, fac, others))


def read(cls, fac, pairs, a, b, c):
    d = build(cls, fac, pairs)
    r = d[a:b:c]
    return seen(d, (tuple(r), len(r)))


def read_then_default(cls, fac, pairs, a, b, c, x):
    d = build(cls, fac, pairs)
    r = d[a:b:c]
    e = r[len(r) + 1]
    r[0] = x
    return seen(d, e)


def assign(cls, fac, pairs, a, b, c, xs):
    d = build(cls, fac, pairs)
    d[a:b:c] = xs
    return seen(d, None)


def assign_self(cls, fac, pairs, a, b):
    d = build(cls, fac, pairs)
    d[a:b] = d
    return seen(d, None)


def remove_slice(cls, fac, pairs, a, b, c):
    d = build(cls, fac, pairs)
    del d[a:b:c]
    return seen(d, None)


def new_default(cls, fac, pairs, other, i):
    d = build(cls, fac, pairs)
    d.default_factory = other
    return seen(d, d[i])
