"""Mixin methods of collections.abc.Mapping and MutableMapping, as documented.
Analysed, never run: classes of the repository inherit them."""


def keys(self):
    return [k for k in self]


def values(self):
    return [self[k] for k in self]


def items(self):
    return [(k, self[k]) for k in self]


def get(self, key, default=None):
    try:
        return self[key]
    except KeyError:
        return default


def __contains__(self, key):
    try:
        self[key]
    except KeyError:
        return False
    else:
        return True


def pop(self, key, *default):
    try:
        value = self[key]
    except KeyError:
        if default:
            return default[0]
        raise
    else:
        del self[key]
        return value


def setdefault(self, key, default=None):
    try:
        return self[key]
    except KeyError:
        self[key] = default
    return default


def update(self, other=(), **kwds):
    if hasattr(other, "keys"):
        for key in other.keys():
            self[key] = other[key]
    else:
        for key, value in other:
            self[key] = value
    for key, value in kwds.items():
        self[key] = value
