"""The command line's functions run abstractly: what they do, in order, with the tests replaced by stand-ins."""
import os
import re
from fractions import Fraction as F

from . import driver, leaves, lib, pairs
from . import terms as t
from .driver import INPUT
from .jobs import Anchor
from .terms import NONE, ONE, ZERO, mk, num, seq, string, var

PKG = "coinflip._randtests"
RUNNER = "coinflip.cli.runner"
COMMANDS = "coinflip.cli.commands"
REPORT = "coinflip.cli.report"
PARSING = "coinflip.cli.parsing"
PPRINT = "coinflip.cli.pprint"
EXC = PKG + ".common.exceptions"
RESULT = PKG + ".common.result"
OPTIONS = []


def option(I, a, kw):
    """click.option: remembered, the function is left as it is"""
    OPTIONS.append((tuple(a), dict(kw)))
    return mk("builtin", "vp.same")


lib.FUNCS["click.option"] = option
lib.FUNCS["vp.same"] = lambda I, a, kw: a[0]


def load(I, *mods):
    for mod in mods:
        if I.find(mod) is None:
            raise Anchor("module %s" % mod)
        I.module(mod)


def start(made=None, mods=(COMMANDS,)):
    """an interpreter with the command line's modules read; the tests replaced if `made` is given"""
    I = pairs.interp()
    I.trace = True
    del OPTIONS[:]
    load(I, PKG, EXC, RESULT)
    if made:
        stand_ins(I, made)
    load(I, *mods)
    I.actions = []
    I.events = []
    return I


def attr(I, mod, name):
    return leaves.lookup(I, mod, name)


def names(I, mod, name="__all__"):
    """a list of strings a module publishes; None if it is not a constant one"""
    return strings(I, attr(I, mod, name))


def strings(I, v):
    v = plain(I, v)
    if v.op not in ("seq", "tup") or any(x.op != "str" for x in v.args):
        return None
    return [x.args[0] for x in v.args]


def plain(I, v):
    """a value without references; lists as sequences"""
    v = I.freeze(v)
    return v.args[0] if v.op in ("list", "iter") else v


def keys(I, v):
    """the constant keys of a dictionary value"""
    d = entries(I, v)
    return None if d is None else [k for k, _, _ in d]


def entries(I, v):
    """[(key, value, condition under which it is there)] of a dictionary with constant keys"""
    o = I.deref(v)
    while o.op in ("hdict", "def"):
        o = o.args[0]
    if o.op != "dict" or any(k.op != "str" for k, _, _ in o.args[0]):
        return None
    return [(k.args[0], x, g) for k, x, g in o.args[0]]


def stand_ins(I, made):
    """replace every test by a stand-in, wherever it is bound; made(I, name, args, kw) gives its value"""
    m = I.module(PKG)
    for name in leaves.TESTS:
        lib.FUNCS["vp.test." + name] = lambda I, a, kw, name=name: made(I, name, a, kw)
        old = I.st.get(("v", m.env, name))
        if old is None:
            raise Anchor("%s.%s" % (PKG, name))
        new = mk("builtin", "vp.test." + name)
        for k, v in list(I.st.items()):
            if k[0] == "v" and v is old:
                I.st[k] = new
        I.st[("v", m.env, name)] = new


def leaves_of(x):
    """every term inside x"""
    seen = set()
    todo = [x]
    while todo:
        y = todo.pop()
        if y in seen:
            continue
        seen.add(y)
        yield y
        acc = []
        t._scan(y.args, acc)
        todo += acc


def inside(x, y):
    return any(z is y for z in leaves_of(x))


def fact(name, good, detail, pos=""):
    """an obligation read off the analysed program: True proved, False violated, None not understood"""
    return dict(name=name, verdict="undecided" if good is None else "proved" if good else "violation", detail=detail, pos=pos)


def raised(I, o):
    """[(condition, classes of the exception from the base up, place)]"""
    out = []
    keep = I.st
    for (g, e, pos), st in zip(o.raises, o.raised_in):
        I.st = st
        out.append((g, [x.rsplit(".", 1)[-1] for x in I.exc_class(e)], pos))
    I.st = keep
    return out


def run(I, f, args, kw=(), true=()):
    """run from the state as it stands, which is restored; returns (outcome, actions)"""
    base = dict(I.st)
    I.actions = []
    I.events = []
    m = I.mark()
    try:
        o = driver.run(I, f, list(args), dict(kw), (), true)
        o.ends = raised(I, o)
        o.excs = [e for g, e, pos in o.raises]
        o.actions = I.actions
    finally:
        I.reset(m)
        I.pc = []
        I.st = base
        t.CTX.facts = []
        t.CTX.known = {}
        t._bump()
    return o


def atoms(p):
    """atoms of a polynomial"""
    return sorted({a for mono, c in t.aspoly(p).args[0] for a, k in mono}, key=repr)


# --------------------------------------------------------------------------- files
NBYTES = var("nbytes", "nat")
NCOLS = var("ncols", "pos")
DATA = string("DATA")
t.APP_KIND["byte"] = "nat"


def byte(i):
    """the i-th byte of the file"""
    return t.mod(t.aspoly(mk("app", "byte", t.aspoly(i))), num(256))


def content():
    v = lib.fresh("nat")
    return t.arr(NBYTES, v, byte(t.aspoly(v)))


t.APP_KIND["bitlen"] = "pos"


def bits_text(I, v):
    """the characters of a number written in binary, cut, padded or strung together"""
    if v.op == "fstr" and len(v.args) == 1:
        v = v.args[0]
    if v.op != "app":
        return None
    name = v.args[0]
    if name == "format" and v.args[2].op == "str":
        m = re.fullmatch(r"(?:0(\d+))?b", v.args[2].args[0])
        return digits(v.args[1], int(m.group(1) or 1)) if m else None
    if name in ("strm_zfill", "strm_rjust") and v.args[2].op == "poly":
        x, w = binary(v.args[1]), t.const(v.args[2])
        if x is not None and w is not None and (name == "strm_zfill" or v.args[3:] == (string("0"),)):
            return digits(x, int(w))
    if name == "substr" and v.args[2].op == "slice":
        x = binary(v)
        if x is not None:
            return digits(x, 1)
        q = bits_text(I, v.args[1])
        return None if q is None else lib.do_slice(q, v.args[2])
    if name == "join" and v.args[1] is string(""):
        s = v.args[2]
        if s.op == "arr":
            k = lib.fresh("nat")
            with t.assume([t.aspoly(k), t.sub(t.sub(s.args[0], t.aspoly(k)), ONE)]):
                q = bits_text(I, t.apply(s.args[1], t.aspoly(k)))
                if q is not None:
                    return t.flat(s.args[0], k, q)
    return None


def binary(v):
    """the number a text is the plain binary form of"""
    if v.op != "app":
        return None
    if v.args[0] == "format" and v.args[2] is string("b"):
        return v.args[1]
    if v.args[0] == "substr" and v.args[1].op == "app" and v.args[1].args[0] == "bin" and v.args[2] is mk("slice", num(2), NONE, NONE):
        return v.args[1].args[1]
    return None


def digits(x, w):
    """binary digits, at least w of them"""
    x = t.aspoly(x)
    if not t.prove_ge0(x):
        return None
    if w > 1 and t.prove_ge0(t.sub(num(2**w - 1), x)):
        return seq(*[mk("app", "str", t.mod(t.floor_(t.mul(x, num(F(1, 2**k)))), num(2))) for k in reversed(range(w))])
    n = t.aspoly(mk("app", "bitlen", x, num(w)))
    v = lib.fresh("nat")
    k = t.sub(t.sub(n, t.aspoly(v)), ONE)
    return t.arr(n, v, mk("app", "str", t.mod(t.floor_(t.mul(x, t.power(num(2), t.neg(k)))), num(2))))


lib.TEXTSEQ.append(bits_text)


def given_bytes(x):
    """the bytes a sequence of constants stands for"""
    if x.op == "bytes":
        return x.args[0].encode("latin1")
    if x.op == "seq" and all(lib.numeric(y) for y in x.args):
        c = [t.const(t.aspoly(y)) for y in x.args]
        if all(k is not None and 0 <= k < 256 for k in c):
            return bytes(int(k) for k in c)
    return None


def as_bytes(r):
    if isinstance(r, bytes):
        return seq(*[num(k) for k in r])
    if isinstance(r, (list, tuple)):
        return mk("tup", *[as_bytes(x) for x in r])
    return None


def bytes_method(name):
    def method(I, recv, o, args, kw):
        x = given_bytes(I.freeze(recv))
        a = [given_bytes(I.freeze(y)) for y in args]
        if x is None or None in a or kw:
            return None
        return as_bytes(getattr(x, name)(*a))

    return method


BYTES = ("strip", "rstrip", "lstrip", "replace", "split", "rsplit", "splitlines", "partition", "rpartition", "removesuffix", "removeprefix", "upper", "lower", "swapcase")


def file_hooks(I, errors=(), data=None):
    """what reading the data file gives: bytes (those given, or any), or a table of NCOLS columns the first of which is the input"""
    reads = []
    content = globals()["content"]
    if data is not None:
        content = lambda: seq(*[num(k) for k in data])
        I.hooks = dict(I.hooks, **{m: bytes_method(m) for m in BYTES})

    def read(I, recv, o, args, kw):
        f = I.freeze(recv)
        if not (f.op == "libcall" and f.args[0] == "open" and inside(f.args[1][0], DATA)):
            return None
        mode = f.args[1][1] if len(f.args[1]) > 1 else dict(f.args[2]).get("mode", string("r"))
        reads.append(1)
        if len(reads) > 1 or mode.op != "str" or "b" not in mode.args[0]:
            return lib.unknown("read")
        I.effect("read", f)
        n = args[0] if args else kw.get("size", NONE)
        whole = content()
        if n is NONE or t.const(t.aspoly(n)) == -1:
            return whole
        return lib.do_slice(whole, mk("slice", NONE, n, NONE))

    def read_bytes(I, recv, o, args, kw):
        f = I.freeze(recv)
        if not inside(f, DATA) or reads:
            return None
        reads.append(1)
        I.effect("read", f)
        return content()

    I.hooks = dict(I.hooks, read=read, read_bytes=read_bytes)

    def read_csv(I, a, kw):
        I.effect("read_csv", *[I.freeze(x) for x in a], *[mk("tup", string(k), I.freeze(x)) for k, x in sorted(kw.items())])
        for e in errors:
            I.throw(I.exc(e, string("why")), t.aspoly(mk("bflag", "raises", e)))
        v = lib.fresh("nat")
        cols = t.arr(NCOLS, v, t.aspoly(v))
        return mk("inst", mk("builtin", "vp.frame"), (("columns", mk("nd", cols)), ("iloc", mk("inst", mk("builtin", "vp.iloc"), ())), ("shape", mk("tup", t.aspoly(driver.N), t.aspoly(NCOLS)))))

    lib.FUNCS["pandas.read_csv"] = read_csv


def column(I, o, k):
    """one column of the table"""
    name = o.args[0].args[0]
    if name == "vp.iloc":
        if k.op not in ("tup", "seq") or len(k.args) != 2:
            return lib.unknown("iloc")
        rows, col = k.args
    else:
        rows, col = mk("slice", NONE, NONE, NONE), k
    c = t.const(t.aspoly(col)) if lib.numeric(col) else None
    if c is None:
        return lib.unknown("column")
    if c < 0:
        c = None if t.const(t.aspoly(NCOLS)) is None else c
        x = mk("input", var("Slast", "faces"), driver.IDX)
    else:
        x = INPUT if c == 0 else mk("input", var("S%d" % c, "faces"), driver.IDX)
    if rows.op == "slice" and all(y is NONE for y in rows.args):
        return x
    return lib.getitem(I, x, rows)


lib.GETITEM.append((("vp.frame", "vp.iloc"), column))


def repo_modules(pkg):
    """dotted names of all modules of a package, from the tree"""
    root = os.path.join(driver.SRC, *pkg.split("."))
    out = []
    for d, _, fs in os.walk(root):
        rel = [] if d == root else os.path.relpath(d, root).split(os.sep)
        for f in sorted(fs):
            if f.endswith(".py"):
                out.append(".".join([pkg] + rel + ([] if f == "__init__.py" else [f[:-3]])))
    return sorted(out)
