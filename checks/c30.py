"""C30: defaultlist behaves as an endless list of defaults."""
import itertools

from checks.values import pack
from sa import cli, jobs, terms as t
from sa.cli import fact
from sa.terms import NONE, mk, num, seq, string, var

TECHNIQUE = "abstract interpretation of the default list's operations on every small pattern of stored positions with symbolic elements; one step of a history each"
NOTE = (
    "Whatever the history, a default list is a set of stored positions with elements; each operation is decided from every pattern of up to four positions with the elements "
    "symbolic, so histories of any length follow while lists stay that short.  Positions are compared up to trailing defaults, lengths only where a list's is determined.  "
    "Longer lists, slice bounds below the list's beginning and steps of zero are not covered."
)
RULE = (
    "Uses of defaultlist (sa/models/dlclients.py) are run abstractly: build one holding symbolic elements at given positions, do one operation, look at it as a list.  "
    "Required: what a Python list padded with the default gives for that operation - same elements at the same positions (up to trailing defaults), same value read, "
    "IndexError or ValueError exactly where a list raises it."
)
MOD = "coinflip._randtests.common.collections"
CLIENTS = "coinflip_sa_dlclients"
X, Y, Z = var("x", "real"), var("y", "real"), var("z", "real")
SIZE = 4


class Padded(list):
    """a list followed by defaults"""

    def __init__(self, xs, default):
        super().__init__(xs)
        self.default = default

    def pad(self, n):
        while len(self) < n:
            self.append(self.default)


def short(xs, default):
    xs = list(xs)
    while xs and xs[-1] is default:
        xs.pop()
    return xs


def bounds(n, a, b, c):
    """the positions slice a:b:c of an endless list of length n stands for; None if a bound is below the beginning"""
    step = 1 if c is None else c
    for x in (a, b):
        if x is not None and x < -n:
            return None
    a = None if a is None else a + n if a < 0 else a
    b = None if b is None else b + n if b < 0 else b
    if step > 0:
        return range(0 if a is None else a, n if b is None else b, step)
    return range(n - 1 if a is None else a, -1 if b is None else b, step)


def op_get(p, i):
    n = len(p)
    if i < -n:
        raise IndexError
    p.pad(i + 1)
    return p[i]


def op_put(p, i, x):
    if i < -len(p):
        raise IndexError
    p.pad(i + 1)
    p[i] = x


def op_delete(p, i):
    if i < -len(p):
        raise IndexError
    p.pad(i + 1)
    del p[i]


def op_insert(p, i, x):
    p.pad(i)
    p.insert(i, x)


def op_pop(p):
    return p.pop()


def op_pop_at(p, i):
    if i < -len(p):
        raise IndexError
    p.pad(i + 1)
    return p.pop(i)


def op_read(p, a, b, c):
    r = bounds(len(p), a, b, c)
    return [p[i] if i < len(p) else p.default for i in r]


def op_assign(p, a, b, c, xs):
    r = bounds(len(p), a, b, c)
    if c in (None, 1):
        p.pad(max(r.start, r.stop))
        p[r.start : max(r.start, r.stop)] = xs
    else:
        if len(r) != len(xs):
            raise ValueError
        p.pad(max(list(r) + [-1]) + 1)
        for i, x in zip(r, xs):
            p[i] = x


def op_remove_slice(p, a, b, c):
    gone = set(bounds(len(p), a, b, c))
    p[:] = [x for i, x in enumerate(p) if i not in gone]


def patterns(size=SIZE):
    """stored positions, in the order they were stored"""
    out = []
    for n in range(size + 1):
        for s in itertools.combinations(range(size), n):
            out.append(s if len(out) % 2 else s[::-1])
    return out


class Case:
    def __init__(self, texts=False):
        self.I = I = cli.start(mods=(MOD, CLIENTS, "coinflip_sa_seqmixins"))
        I.own_dlist = True
        self.cls = cli.attr(I, MOD, "defaultlist")
        self.texts = texts

    def element(self, k):
        return string("abcdefgh"[k]) if self.texts else var("v%d" % k, "real")

    def padded(self, keys, default):
        n = max(keys, default=-1) + 1
        return Padded([self.element(k) if k in keys else default for k in range(n)], default)

    def run(self, use, fac, keys, args):
        """(tuple of the list, its length, result) or the exception's classes or None"""
        I = self.I
        pairs = seq(*[seq(num(k), self.element(k)) for k in keys])
        o = cli.run(I, cli.attr(I, CLIENTS, use), [self.cls, fac, pairs] + list(args))
        for g, cls, pos in o.ends:
            c = t.const(t.aspoly(g))
            if c == 1:
                return cls
            if c != 0:
                return None
        v = o.value
        if v is None or v.op not in ("tup", "seq") or len(v.args) != 3:
            return None
        whole, n = items(v.args[0]), t.const(t.aspoly(v.args[1])) if v.args[1].op in ("num", "poly") else None
        if whole is None or n is None:
            return None
        return whole, int(n), v.args[2]


def items(v):
    return list(v.args) if v.op in ("tup", "seq") else None


def say(xs, default):
    return "[%s]" % ", ".join("-" if x is default else show(x) for x in xs)


def show(x):
    if x.op == "str":
        return x.args[0]
    c = t.const(t.aspoly(x)) if x.op in ("num", "poly") else None
    return str(x) if c is None else str(int(c))


def norm(x):
    return t.aspoly(x) if x.op in ("num", "var", "poly") else x


def surely(x, y):
    """True if the same, False if different for sure, None if unread"""
    x, y = norm(x), norm(y)
    if x is y:
        return True
    good = ("num", "var", "str", "none", "poly", "tup", "seq", "bool")
    return False if x.op in good and y.op in good and not any(z.op in ("unknown", "app", "ite", "libcall") for z in cli.leaves_of(x)) else None


def same(got, want):
    if len(got) != len(want):
        return None if any(x.op not in ("num", "var", "str", "none", "poly") for x in got) else False
    vs = [surely(a, b) for a, b in zip(got, want)]
    return False if False in vs else None if None in vs else True


FACS = (("None", NONE, NONE), ("int", mk("builtin", "int"), num(0)))


def obligation(case, out, name, use, keys, f, args, model, pos, result="none", text=""):
    """one operation from one pattern"""
    fname, fac, default = FACS[f]
    p = case.padded(keys, default)
    start = say(p, default)
    try:
        want = model(p)
    except (IndexError, ValueError) as e:
        want = e
    got = case.run(use, fac, keys, args)
    head = "%s, default %s: %s" % (start, fname, text)
    where = MOD + ".defaultlist" + ("." + pos if pos else "")
    if got is None:
        out.append(fact(name, None, head + " is not understood", where))
        return
    if isinstance(want, Exception):
        cls = type(want).__name__
        if isinstance(got, list):
            out.append(fact(name, cls in got, "%s raises %s" % (head, got[0]), where))
        else:
            out.append(fact(name, False, "%s does not raise %s" % (head, cls), where))
        return
    if isinstance(got, list):
        good = name == "insert" and "IndexError" in got and args[0] is not None and t.const(t.aspoly(args[0])) < -len(case.padded(keys, default))
        out.append(fact(name, bool(good), "%s raises %s" % (head, got[0]), where))
        return
    whole, n, r = got
    ok = same(short(whole, default), short(p, default))
    out.append(fact(name, ok, "%s leaves %s%s" % (head, say(whole, default), "" if ok else ", not " + say(p, default)), where))
    out.append(fact("length", n == len(whole), "%s, length %d" % (head, n), where))
    if result == "none":
        return
    if result == "list":
        r = items(r)
        xs = None if r is None else items(r[0]) if len(r) == 2 else None
        if xs is None:
            out.append(fact(name, None, head + " gives something not understood", where))
            return
        ok = same(xs, want)
        out.append(fact(name, ok, "%s gives %s%s" % (head, say(xs, default), "" if ok else ", not " + say(want, default)), where))
    elif result == "tuple":
        xs = items(r)
        ok = None if xs is None else same(xs, want)
        out.append(fact(name, ok, "%s gives %s" % (head, "?" if xs is None else say(xs, default)), where))
    else:
        ok = surely(r, want)
        out.append(fact(name, ok, "%s gives %s%s" % (head, show(r), "" if ok else ", not " + show(want)), where))


def opt(x):
    return NONE if x is None else num(x)


def shown(a, b, c):
    return "[%s:%s%s]" % ("" if a is None else a, "" if b is None else b, "" if c is None else ":%d" % c)


def single(keys):
    """operations on single positions"""

    def run(conds):
        out = []
        case = Case()
        for f in (0, 1):
            o = lambda *a, **k: obligation(case, out, a[0], a[1], keys, f, a[2], a[3], a[4], **k)
            n = max(keys, default=-1) + 1
            o("holds", "nothing", [], lambda p: None, "__iter__", text="as built")
            for i in range(-n - 1, n + 3):
                o("get", "get", [num(i)], lambda p: op_get(p, i), "__getitem__", result="value", text="reading %d" % i)
                o("set", "put", [num(i), X], lambda p: op_put(p, i, X), "__setitem__", text="setting %d" % i)
                o("delete", "delete", [num(i)], lambda p: op_delete(p, i), "__delitem__", text="deleting %d" % i)
                o("pop", "pop_at", [num(i)], lambda p: op_pop_at(p, i), "__delitem__", result="value", text="popping %d" % i)
                o("insert", "insert", [num(i), X], lambda p: op_insert(p, i, X), "insert", text="inserting at %d" % i)
            o("pop", "pop", [], op_pop, "__delitem__", result="value", text="popping")
            o("append", "append", [X], lambda p: p.append(X), "insert", text="appending x")
            o("append", "extend", [X, Y], lambda p: p.extend([X, Y]), "insert", text="extending by x, y")
            o("append", "concat", [X, Y], lambda p: p.extend([X, Y]), "insert", text="adding x, y")
            o("reverse", "reverse", [], lambda p: p.reverse(), "__setitem__", text="reversing")
            o("reverse", "backwards", [], lambda p: list(reversed(p)), "__getitem__", result="tuple", text="read backwards")
            o("clear", "clear", [], lambda p: p.clear(), "__delitem__", text="clearing")
            other = 1 - f
            for i in (0, n - 1, n, n + 2):
                if i >= 0 and i not in keys:
                    d = FACS[other][2]
                    got = case.run("new_default", FACS[f][1], keys, [FACS[other][1], num(i)])
                    ok = None if got is None else False if isinstance(got, list) else surely(got[2], d)
                    out.append(fact("default", ok, "%s: reading %d after the default became %s" % (say(case.padded(keys, FACS[f][2]), FACS[f][2]), i, FACS[other][0]), MOD + ".defaultlist.default_factory"))
        out.append(info())
        return out

    return run


def info():
    return dict(name="#functions", verdict="info", detail=[MOD + ".defaultlist." + x for x in (
        "__init__", "default_factory", "__getitem__", "__setitem__", "__delitem__", "_actualise_index", "_determine_srange", "__len__", "__iter__", "index", "insert", "__eq__")])


def looking(sets):
    """operations that compare elements"""

    def run(conds):
        out = []
        case = Case(texts=True)
        for keys in sets:
            for f in (0, 1):
                default = FACS[f][2]
                o = lambda *a, **k: obligation(case, out, a[0], a[1], keys, f, a[2], a[3], a[4], **k)
                p = case.padded(keys, default)
                for x in [case.element(k) for k in range(SIZE)] + [default]:
                    o("index", "index", [x], lambda p: num(p.index(x)), "index", result="value", text="finding %s" % show(x))
                    o("remove", "remove", [x], lambda p: p.remove(x), "index", text="removing %s" % show(x))
                    o("contains", "contains", [x], lambda p: num(int(x in p)), "__iter__", result="value", text="%s in it" % show(x))
                    o("count", "count", [x], lambda p: num(p.count(x)), "__iter__", result="value", text="counting %s" % show(x))
                others = [list(p), list(p)[:-1] if p else [string("q")], list(p) + [string("q")], list(p)[:-1] + [string("q")], [string("q")] + list(p)[1:]]
                for x in others:
                    for kind in ("list", "tup"):
                        v = case.I.alloc(mk("list", seq(*x))) if kind == "list" else seq(*x)
                        o("equals", "equals", [v], lambda p: num(int(list(p) == x)), "__eq__", result="value", text="== %s" % say(x, default))
                for ks in sets[:6] + [keys]:
                    w = seq(*[seq(num(k), case.element(k)) for k in ks[::-1]])
                    q = case.padded(ks, default)
                    o("equals", "equals_alike", [w], lambda p: num(int(list(p) == list(q))), "__eq__", result="value", text="== default list %s" % say(q, default))
        out.append(info())
        return out

    return run


def starts(n):
    return [None] + sorted({-n, -1, 0, 1, 2, n - 1, n, n + 1} - ({-1} if n == 0 else set()) | set())


def slices(keys, f, steps):
    def run(conds):
        out = []
        case = Case()
        o = lambda *a, **k: obligation(case, out, a[0], a[1], keys, f, a[2], a[3], a[4], **k)
        n = max(keys, default=-1) + 1
        for a in starts(n):
            for b in starts(n):
                for c in steps:
                    r = bounds(n, a, b, c)
                    if r is None:
                        continue
                    s = shown(a, b, c)
                    ss = [opt(a), opt(b), opt(c)]
                    o("read", "read", ss, lambda p: op_read(p, a, b, c), "__getitem__", result="list", text="reading %s" % s)
                    o("removal", "remove_slice", ss, lambda p: op_remove_slice(p, a, b, c), "__delitem__", text="deleting %s" % s)
                    for xs in ([], [X], [X, Y], [X, Y, Z]) if c in (None, 1) else ([var("x%d" % i, "real") for i in range(len(r))], [var("x%d" % i, "real") for i in range(len(r) + 1)]):
                        v = case.I.alloc(mk("list", seq(*xs)))
                        o("assignment", "assign", ss + [v], lambda p: op_assign(p, a, b, c, xs), "__setitem__", text="%s = %s" % (s, say(xs, None)))
                    if c is None:
                        o("assignment", "assign_self", ss[:2], lambda p: op_assign(p, a, b, c, list(p)), "__setitem__", text="%s = itself" % s)
                    if c in (None, 2) and a in (None, 1):
                        o("read", "read_then_default", ss + [X], lambda p: p.default, "__getitem__", result="value", text="a position beyond %s" % s)
        out.append(info())
        return out

    return run


def run(tier):
    r = jobs.Runner(8, 200 if tier == "quick" else 560)
    sets = patterns()
    for k in sets:
        r.submit("positions " + " ".join(map(str, k)), single(k))
    r.submit("comparing", looking(sets))
    for k in sets:
        for f in (0, 1) if tier == "thorough" else (len(k) % 2,):
            r.submit("slices %s %d" % (" ".join(map(str, k)), f), slices(k, f, (None, 1, 2, 3, -1, -2) if tier == "thorough" else (None, 2, -1, -2)))
    return pack(r.collect(), RULE)
