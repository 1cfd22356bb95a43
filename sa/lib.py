"""Models of builtins and libraries, as operations on terms."""
import ast
from fractions import Fraction as F

from bisect import bisect_left, bisect_right

from . import terms as t
from .terms import (
    ONE, ZERO, NONE, T, add, and_, const, div, eq, eq0, fresh, ge0, gt0, index, is_seq, ite, length,
    mk, mul, not_, num, numeric, or_, seq, slice_, string, sub, sum_, var,
)
from .interp import HEAPOPS, UNBOUND, BUILTIN_EXC, Halt, Split, contains, unknown, REFOPS, refs_in, AnalysisError

BUILTINS = {
    "len", "sum", "max", "min", "abs", "range", "enumerate", "zip", "list", "tuple", "dict", "set", "frozenset",
    "str", "int", "float", "bool", "complex", "round", "sorted", "reversed", "iter", "next", "isinstance", "issubclass",
    "print", "open", "getattr", "setattr", "hasattr", "map", "filter", "any", "all", "type", "repr", "super",
    "property", "staticmethod", "classmethod", "divmod", "pow", "ord", "chr", "hash", "id", "callable", "object",
    "format", "bytes", "bytearray", "slice", "vars", "dir", "globals", "locals", "exit", "quit", "input", "bin", "hex",
    "NotImplemented", "__import__", "eval", "exec", "compile", "memoryview", "delattr", "ascii", "oct", "__file__",
}

DROP = {"numpy.int8", "numpy.int16", "numpy.int32", "numpy.int64"}

ALIAS = {
    "numpy.sqrt": "math.sqrt", "numpy.log": "math.log", "numpy.exp": "math.exp", "numpy.log2": "math.log2",
    "numpy.floor": "math.floor", "numpy.ceil": "math.ceil", "numpy.abs": "abs", "numpy.absolute": "abs",
    "scipy.special.erfc": "math.erfc", "pandas.core.series.Series": "pandas.Series",
    "collections.abc.Iterator": "collections.abc.Iterator", "builtins.sum": "sum",
    "numpy.sum": "numpy.sum", "scipy.stats.distributions.chi2": "scipy.stats.chi2", "numpy.power": "pow",
    "scipy.fftpack.fft": "scipy.fft.fft", "numpy.fft.fft": "scipy.fft.fft", "scipy.special.chdtrc": "chdtrc",
    "math.fabs": "abs", "operator.abs": "abs",
}

PURE_PREFIX = ("altair.", "pandas.", "numpy.", "scipy.", "math.", "typing", "operator.", "itertools.", "functools.",
               "more_itertools.", "rich.box", "dataclasses.", "bisect.", "copy.", "collections.", "string.", "numbers.",
               "fractions.", "statistics.", "warnings.")


def libname(dotted):
    d = ALIAS.get(dotted, dotted)
    if d in ("math.pi", "numpy.pi"):
        return t.aspoly(mk("pi"))
    if d in ("math.e", "numpy.e"):
        return t.aspoly(mk("econst"))
    if d in ("math.inf", "numpy.inf"):
        return mk("app", "inf")
    if d in ("numpy.nan", "math.nan"):
        return mk("app", "nan")
    if d.startswith("builtins."):
        d = d[9:]
    return mk("builtin", d)


def builtin(name):
    if name in BUILTINS or name in BUILTIN_EXC:
        return mk("builtin", name)
    if name == "__name__":
        return string("module")
    return None


# --------------------------------------------------------------------------- decorators


def decorator(I, dv, f):
    if dv.op == "builtin":
        n = dv.args[0]
        if n == "property" or n == "functools.cached_property":
            if n != "property":
                I.event("cache", _fname(I, f))
            return mk("descr", "property", f)
        if n in ("staticmethod", "classmethod"):
            return mk("descr", n, f)
        if n in ("functools.lru_cache", "functools.cache"):
            return cached(I, f)
        if n == "functools.singledispatch":
            return None
        I.decorated.setdefault(f, []).append(dv)
        return f
    if dv.op == "deco":
        return apply_deco(I, dv, [f])
    if dv.op == "libcall":
        I.decorated.setdefault(f, []).append(dv)
        return libdeco(I, dv, f)
    if dv.op == "unknown":
        I.event("unknown-decorator", _fname(I, f))
        return f
    return None


def libdeco(I, dv, f):
    name = dv.args[0]
    if name in ("functools.lru_cache", "functools.cache"):
        return cached(I, f)
    if name == "functools.wraps":
        return f
    return f


def cached(I, f):
    """a memoising wrapper: same values, and one piece of state"""
    g = f
    if f.op == "descr":
        g = f.args[1]
    if g.op == "clo":
        c = I.get(g)
        I.cached[(c.module, c.name, c.node.lineno)] = c
        c.cached = True
    return f


def _fname(I, f):
    if f.op == "clo":
        return I.get(f).name
    return f.op


def is_dataclass_deco(I, dv):
    if dv.op == "builtin" and dv.args[0] == "dataclasses.dataclass":
        return True
    return dv.op == "deco" and dv.args[0] == "dataclass"


def apply_deco(I, dv, args):
    kind = dv.args[0]
    if kind == "setter":
        d = dv.args[1]
        return mk("descr", "property", d.args[1], args[0])
    if kind == "wraps":
        if args[0].op == "clo":
            I.get(args[0]).wrapped = dv.args[1]
            I.get(args[0]).wname = dv.args[1]
        return args[0]
    if kind == "lru":
        return cached(I, args[0])
    return args[0]


def field_default(I, d):
    if d.op == "libcall" and d.args[0] == "dataclasses.field":
        kw = dict(d.args[2])
        if "default" in kw:
            return kw["default"]
        if "default_factory" in kw:
            return I.call(kw["default_factory"], [], {})
        return unknown("field")
    return d


# --------------------------------------------------------------------------- with


def enter(I, v):
    o = I.deref(v)
    if o.op == "inst" and o.args[0].op == "cls":
        f = I.find_member(o.args[0], "__enter__")
        if f is not None and f.op == "clo":
            return I.call(f, [v], {})
    I.event("enter", I.freeze(v))
    I.effect("enter", I.freeze(v))
    return v


def leave(I, v):
    I.event("leave", I.freeze(v))
    I.effect("leave", I.freeze(v))


# --------------------------------------------------------------------------- calls


def call_expr(I, e):
    # super()
    if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
        return mk("super", *_super_args(I))
    f = I.ev(e.func)
    args = []
    for a in e.args:
        if isinstance(a, ast.Starred):
            v = I.ev(a.value)
            s = I.to_seq(v)
            if s is not None and s.op == "ite" and is_seq(s):
                pass
            if s is None or s.op not in ("seq", "tup"):
                args.append(mk("star", s if s is not None else unknown("star")))
            else:
                args += list(s.args)
        else:
            args.append(I.ev(a))
    kw = {}
    for k in e.keywords:
        v = I.ev(k.value)
        if k.arg is None:
            o = I.deref(v)
            if o.op == "hdict" and o.args[0].op == "dict":
                for kk, vv, p in o.args[0].args[0]:
                    if kk.op == "str":
                        kw[kk.args[0]] = vv
            else:
                kw["**"] = v
        else:
            kw[k.arg] = v
    return I.call(f, args, kw)


def _super_args(I):
    # the class of the function being run, and its first argument
    env = I.env
    while I.envkind.get(env) == "comp":
        env = I.envparent[env]
    for c in reversed(I.frames):
        if c.cls is not None:
            first = c.node.args.args[0].arg if c.node.args.args else None
            v = I.lookup(first) if first else NONE
            return c.cls, v
    return NONE, NONE


def libcall(I, name, args, kw):
    a = tuple(I.freeze(x) for x in args)
    k = tuple(sorted((n, I.freeze(x)) for n, x in kw.items()))
    return mk("libcall", name, a, k)


def is_libclass(name):
    last = name.split(".")[-1]
    return last[:1].isupper() and not name.startswith(("altair.", "pathlib."))


EFFECT_PREFIX = ("random.", "time.", "datetime.", "numpy.random", "os.", "sys.", "shutil.", "pickle.", "webbrowser.",
                 "subprocess.", "pathlib.", "io.", "secrets.", "uuid.", "socket.", "threading.", "tempfile.", "jinja2.")


SETTINGS = {"numpy.seterr", "numpy.set_printoptions", "pandas.set_option", "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings",
            "locale.setlocale", "decimal.setcontext", "random.seed", "numpy.random.seed", "sys.setrecursionlimit", "os.putenv", "gc.disable", "gc.enable"}


def call_builtin(I, name, args, kw):
    f = FUNCS.get(name)
    if name in SETTINGS:
        I.event("setting", name)
    if f is not None:
        if any(a.op == "star" for a in args) and name not in STAR_OK:
            args2 = []
            return unknown("star argument")
        try:
            r = f(I, args, kw)
        except (TypeError, IndexError, KeyError) as ex:
            if isinstance(ex, KeyError) and False:
                raise
            I.event("lib-arity", f"{name}: {ex}")
            return unknown(f"{name}: bad arguments")
        if r is not None:
            return r
        I.event("lib-unmodelled", name)
        return libcall(I, name, args, kw)
    if name in BUILTIN_EXC or name.endswith(("Error", "Exception", "Warning", "NotFound")):
        return I.exc(name, *[I.freeze(a) for a in args])
    if name.startswith(EFFECT_PREFIX) or name in ("print", "open", "input", "exit", "quit", "id", "hash"):
        I.event("effect", name)
        I.effect(name, *[I.freeze(a) for a in args], *[mk("tup", string(k), I.freeze(v)) for k, v in kw.items()])
        I.maybe_raise(name)
    elif not name.startswith(PURE_PREFIX):
        I.event("libcall", name)
    if is_libclass(name):
        return I.alloc(
            mk("inst", mk("builtin", name), (
                ("args", mk("tup", *args)),
                ("kw", mk("kw", tuple(sorted(kw.items())))),
                ("log", seq()),
            ))
        )
    return libcall(I, name, args, kw)


STAR_OK = {"zip", "max", "min", "itertools.chain", "print", "itertools.product"}


def call_other(I, f, args, kw):
    if f.op == "libcall":
        name = f.args[0]
        if name == "functools.lru_cache" and args:
            return cached(I, args[0])
        if name == "operator.attrgetter":
            return I.getattr(args[0], f.args[1][0].args[0])
        if name == "operator.itemgetter":
            if len(f.args[1]) == 1:
                return I.getitem(args[0], f.args[1][0])
            return mk("tup", *[I.getitem(args[0], k) for k in f.args[1]])
        if name == "operator.methodcaller":
            return I.call(I.getattr(args[0], f.args[1][0].args[0]), list(f.args[1][1:]), dict(f.args[2]))
        I.event("call-libcall", name)
        return libcall(I, "()", [f] + list(args), kw)
    if f.op == "ref":
        o = I.deref(f)
        if o.op == "inst" and o.args[0].op == "builtin":
            return method(I, f, "__call__", args, kw)
    if f.op in ("str", "none", "seq", "tup", "poly", "rec"):
        I.throw(I.exc("TypeError", string("not callable")))
    I.event("call-unknown", f.op)
    I.effect("call", I.freeze(f), *[I.freeze(a) for a in args])
    if f.op == "var":
        return mk("libcall", "call:" + f.args[0], tuple(I.freeze(a) for a in args), tuple(sorted((k, I.freeze(v)) for k, v in kw.items())))
    return unknown("call of unknown")


# --------------------------------------------------------------------------- helpers


def as_seq(I, v):
    s = I.to_seq(v)
    return s


def lst(I, s):
    return I.alloc(mk("list", I.plain(s)))


def itr(I, s):
    return I.alloc(mk("iter", I.plain(s)))


def callf(I, f, *args):
    return I.call(f, list(args), {})


def numlift(I, x, f):
    """apply a numeric function to a value that may be an ite/series"""
    if x.op == "ite" and not numeric(x) and not t.is_face(x):
        c, a, b = x.args
        return I.fork(c, lambda: numlift(I, a, f), lambda: numlift(I, b, f))
    if x.op in ("series", "nd"):
        return I.elementwise1(x, lambda y: I.arith1(y, f))
    if x.op == "input":
        return numlift(I, as_series(I, x), f)
    if x.op == "ref":
        s = I.content(x)
        if s is not None:
            return mk("nd", t.smap(s, lambda y: I.arith1(y, f)))
    if x.op == "unknown":
        return x
    return I.arith1(x, f)


def as_series(I, x):
    if x.op == "input":
        return mk("series", x.args[0], x.args[1])
    return x


def f_len(I, a, kw):
    v = a[0]
    if v.op == "ite":
        return I.fork(v.args[0], lambda: f_len(I, [v.args[1]], kw), lambda: f_len(I, [v.args[2]], kw))
    if v.op == "input":
        return length(v.args[0])
    o = I.deref(v)
    if o.op in ("list", "iter"):
        return length(o.args[0]) if o.args[0].op != "unknown" else t.aspoly(unknown("len"))
    if o.op == "set":
        return t.aspoly(set_len(o.args[0]))
    if o.op == "hdict":
        return I.dlen(o.args[0])
    if o.op in ("series", "nd"):
        return length(o.args[0])
    if o.op == "vcounts":
        return t.aspoly(set_len(o.args[0]))
    if o.op == "rec":
        return num(len(o.args[1]))
    if o.op == "str":
        return num(len(o.args[0]))
    if is_seq(o):
        return length(o)
    if o.op == "inst" and o.args[0].op == "cls":
        f = I.find_member(o.args[0], "__len__")
        if f is not None and f.op == "clo":
            return I.call(f, [v], {})
    if o.op == "dlist":
        return t.aspoly(mk("app", "dlist_len", o))
    if o.op in ("none", "poly", "clo"):
        I.throw(I.exc("TypeError"))
    if o.op == "unknown":
        return t.aspoly(unknown("len"))
    return t.aspoly(mk("len", I.freeze(v)))


def set_len(s):
    """number of distinct elements"""
    if s.op in ("seq", "tup"):
        out = ZERO
        for i, x in enumerate(s.args):
            new = ONE
            for y in s.args[:i]:
                new = and_(new, not_(t.aspoly(eq(x, y))))
            out = add(out, new)
        return out
    if s.op == "ite":
        return ite(s.args[0], set_len(s.args[1]), set_len(s.args[2]))
    return mk("app", "ndistinct", s)


t.APP_KIND["ndistinct"] = "nat"
t.APP_KIND["dlist_len"] = "nat"


def f_sum(I, a, kw):
    start = a[1] if len(a) > 1 else kw.get("start", ZERO)
    v = a[0]
    s = as_seq(I, v)
    if s is None:
        return unknown("sum")
    bad = []

    def g(x):
        if t.is_face(x):
            bad.append(x)
            return ZERO
        if x.op == "poly" or numeric(x):
            return t.aspoly(x)
        if x.op in ("idx", "proj", "dget", "app", "fresh", "var", "bv", "ite"):
            return t.aspoly(x)
        bad.append(x)
        return ZERO

    r = t.ssum(s, g)
    if bad:
        if t.is_face(bad[0]):
            I.event("face-arith", "elements are summed")
        elif any(b.op in ("tup", "ref", "list") for b in bad):
            return unknown("sum of sequences")
        return unknown("sum")
    return add(start, r)


def f_abs(I, a, kw):
    return numlift(I, a[0], t.abs_)


def fmax(sign):
    def f(I, a, kw):
        key = kw.get("key")
        default = kw.get("default")
        if len(a) == 1:
            s = as_seq(I, a[0])
            if s is None:
                return unknown("max")
            if s.op == "star":
                s = s.args[0]
        else:
            if any(x.op == "star" for x in a):
                parts = [x.args[0] if x.op == "star" else seq(x) for x in a]
                s = t.cat(*parts)
            else:
                s = seq(*a)
        L = length(s)
        empty = t.aspoly(eq0(L))
        if default is None:
            if const(empty) != 0:
                I.throw(I.exc("ValueError", string("max of empty")), empty)
        elif const(empty) == 1:
            return default
        if key is not None and key is not NONE:
            return _bestby(I, s, key, sign, default)
        if s.op == "ite":
            return I.fork(s.args[0], lambda: f(I, [s.args[1]], kw), lambda: f(I, [s.args[2]], kw))
        if s.op in ("seq", "tup"):
            out = s.args[0]
            for x in s.args[1:]:
                out = best2(I, out, x, sign)
            return out
        bad = []

        def g(x):
            if t.is_face(x) or x.op in ("tup", "str", "seq", "rec"):
                bad.append(x)
                return ZERO
            return t.aspoly(x)

        if default is not None:
            d = t.aspoly(default)
            r = t.smax(s, g, None, sign)
            if bad:
                return unknown("max")
            # max(s, default=d): only when empty; equal to max(d, s) if nothing is below d
            if s.op == "flat":
                r2 = t.smax(s, g, d, sign)
                if r2.op != "app" and not contains(r2, frozenset(["maxseq"])):
                    return r2
            if const(empty) == 0:
                return r
            if r is not None:
                return ite(empty, d, r)
        r = t.smax(s, g, None, sign)
        if bad:
            if all(t.is_face(b) for b in bad):
                return t.HEADS if sign == 1 else t.TAILS
            return unknown("max")
        return r

    return f


def best2(I, a, b, sign):
    if t.is_face(a) and t.is_face(b):
        c = t.hd(a) if sign == 1 else not_(t.hd(a))
        return ite(t.aspoly(c), a, b)
    if (numeric(a) or a.op in ("dget", "idx", "proj")) and (numeric(b) or b.op in ("dget", "idx", "proj")):
        return t.max2(a, b) if sign == 1 else t.min2(a, b)
    c = compare(I, "Gt" if sign == 1 else "Lt", b, a)
    c = t.aspoly(I.truth(c))
    return I.merge_val(c, b, a)


def _bestby(I, s, key, sign, default):
    if s.op in ("seq", "tup"):
        out = s.args[0]
        ko = callf(I, key, out)
        for x in s.args[1:]:
            kx = callf(I, key, x)
            c = t.aspoly(I.truth(compare(I, "Gt" if sign == 1 else "Lt", kx, ko)))
            out = I.merge_val(c, x, out)
            ko = I.merge_val(c, kx, ko)
        return out
    v = fresh("nat")
    with t.assume([t.aspoly(v), sub(length(s), add(t.aspoly(v), ONE))]):
        k = callf(I, key, index(s, t.aspoly(v)))
    return mk("app", "argbest", s, t.mklam([v], t.aspoly(k) if numeric(k) else k), num(sign))


def f_range(I, a, kw):
    a = [x if x.op == "poly" else _intarg(I, x) for x in a]
    lo, hi, st = ZERO, None, ONE
    if len(a) == 1:
        hi = a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        lo, hi, st = a
    r = arange(lo, hi, st)
    if I.own_dlist and len(a) > 1 and r.op in ("seq", "tup"):
        c = I.mod_attr("coinflip_sa_seqmixins", "Range")
        if c is not None:
            return I.call(c, [lo, hi, st, r], {})
    return r


def _intarg(I, x):
    if t.is_face(x):
        I.event("face-arith", "an element is used as a number")
    return t.aspoly(x)


def arange(lo, hi, st):
    lo, hi, st = t.aspoly(lo), t.aspoly(hi), t.aspoly(st)
    k = const(st)
    if k is not None and k < 0:
        n = t.ceil_(div(sub(lo, hi), t.neg(st)))
    else:
        n = t.ceil_(div(sub(hi, lo), st))
    if const(n) is not None:
        m = int(const(n))
        if m <= 64:
            return seq(*[add(lo, t.scale(st, i)) if const(st) is not None else add(lo, mul(st, num(i))) for i in range(max(m, 0))])
    if not t.nonneg(n):
        n = t.max2(n, ZERO)
    v = fresh("nat")
    return t.arr(n, v, add(lo, mul(st, t.aspoly(v))))


def f_enumerate(I, a, kw):
    start = a[1] if len(a) > 1 else kw.get("start", ZERO)
    s = as_seq(I, a[0])
    if s is None:
        return None
    return itr(I, enum(s, t.aspoly(start)))


def enum(s, start):
    if s.op in ("seq", "tup"):
        return seq(*[mk("tup", add(start, num(i)), x) for i, x in enumerate(s.args)])
    if s.op == "cat":
        parts = []
        for p in s.args:
            parts.append(enum(p, start))
            start = add(start, length(p))
        return t.cat(*parts)
    if s.op == "ite":
        return ite(s.args[0], enum(s.args[1], start), enum(s.args[2], start))
    L = length(s)
    v = fresh("nat")
    vp = t.aspoly(v)
    with t.assume([vp, sub(L, add(vp, ONE))]):
        e = mk("tup", add(start, vp), index(s, vp))
    return t.arr(L, v, e)


def f_zip(I, a, kw):
    if any(x.op == "star" for x in a):
        return _unzip(I, a)
    ss = [as_seq(I, x) for x in a]
    if any(s is None for s in ss):
        return None
    return itr(I, zipn(ss))


def _unzip(I, a):
    if len(a) == 1:
        s = a[0].args[0]
        if s.op in ("seq", "tup"):
            return f_zip(I, list(s.args), {})
        L = length(s)
        v = fresh("nat")
        vp = t.aspoly(v)
        with t.assume([vp, sub(L, add(vp, ONE))]):
            e = index(s, vp)
        if e.op == "tup":
            return itr(I, seq(*[t.arr(L, v, x) for x in e.args]))
        if e.op == "rec":
            return itr(I, seq(*[t.arr(L, v, x) for _, x in e.args[1]]))
    return unknown("zip(*)")


def zipn(ss):
    if not ss:
        return seq()
    if all(s.op in ("seq", "tup") for s in ss):
        n = min(len(s.args) for s in ss)
        return seq(*[mk("tup", *[s.args[i] for s in ss]) for i in range(n)])
    L = None
    for s in ss:
        n = length(s)
        if L is None or n is L:
            L = n
        elif t.nonneg(sub(n, L)):
            pass
        elif t.nonneg(sub(L, n)):
            L = n
        else:
            L = t.min2(L, n)
    if const(L) is not None and any(s.op in ("seq", "tup", "cat") for s in ss):
        return seq(*[mk("tup", *[index(s, num(i)) for s in ss]) for i in range(int(const(L)))])
    v = fresh("nat")
    vp = t.aspoly(v)
    with t.assume([vp, sub(L, add(vp, ONE))]):
        e = mk("tup", *[index(s, vp) for s in ss])
    return t.arr(L, v, e)


def f_list(I, a, kw):
    if not a:
        return lst(I, seq())
    s = as_seq(I, a[0])
    if s is None:
        return I.alloc(mk("list", unknown("list of unknown")))
    return lst(I, s)


def f_tuple(I, a, kw):
    if not a:
        return mk("tup")
    s = as_seq(I, a[0])
    if s is None:
        return unknown("tuple of unknown")
    if s.op == "seq":
        return mk("tup", *s.args)
    if s.op == "ite":
        return ite(s.args[0], _tup(s.args[1]), _tup(s.args[2]))
    return s


def _tup(s):
    if s.op == "seq":
        return mk("tup", *s.args)
    if s.op == "ite":
        return ite(s.args[0], _tup(s.args[1]), _tup(s.args[2]))
    return s


def f_dict(I, a, kw):
    d = mk("dict", ())
    if a:
        o = I.deref(a[0])
        if o.op == "hdict":
            d = o.args[0]
        elif o.op == "inst" and o.args[0].op == "cls" and I.find_member(o.args[0], "__getitem__") is not None:
            ks = I.to_seq(a[0])
            if ks is None or ks.op not in ("seq", "tup"):
                d = unknown("dict of mapping")
            else:
                for k in ks.args:
                    d = I.dset(d, k, getitem(I, a[0], k))
        else:
            d = I.dict_from_pairs(d, as_seq(I, a[0]))
    for k, v in kw.items():
        d = I.dset(d, string(k), v)
    return I.alloc(mk("hdict", d, NONE, "dict"))


def f_set(I, a, kw):
    if not a:
        return I.alloc(mk("set", seq()))
    s = as_seq(I, a[0])
    return I.alloc(mk("set", I.plain(s) if s is not None else unknown("set")))


def f_defaultdict(I, a, kw):
    d = mk("dict", ())
    if len(a) > 1:
        o = I.deref(f_dict(I, a[1:], {}))
        d = o.args[0]
    fac = a[0] if a else NONE
    return I.alloc(mk("hdict", d, fac, "defaultdict"))


def f_counter(I, a, kw):
    d = mk("dict", ())
    if a:
        o = I.deref(a[0])
        if o.op == "hdict":
            d = o.args[0]
        else:
            s = as_seq(I, a[0])
            d = tally_of(I, d, s)
    return I.alloc(mk("hdict", d, mk("builtin", "int"), "Counter"))


def tally_of(I, d, s):
    if s is None:
        return unknown("counter")
    if s.op in ("seq", "tup"):
        for x in s.args:
            k = I.hashable_key(x)
            d = I.dset(d, k, add(t.aspoly(I.dget(d, k, ZERO)), ONE))
        return d
    if s.op == "cat":
        for p in s.args:
            d = tally_of(I, d, p)
        return d
    if s.op == "ite":
        return I.merge_dict(s.args[0], tally_of(I, d, s.args[1]), tally_of(I, d, s.args[2]))
    L = length(s)
    v = fresh("nat")
    vp = t.aspoly(v)
    with t.assume([vp, sub(L, add(vp, ONE))]):
        k = I.hashable_key(index(s, vp))
        k = t.steps(k)
    if d.op == "dict" and d.args[0] and all(const(e[2]) == 1 for e in d.args[0]):
        pass
    return mk("tally", d, L, t.mklam([v], mk("tup", k, ONE, ONE)))


def f_str(I, a, kw):
    if not a:
        return string("")
    v = a[0]
    o = I.deref(v)
    if o.op == "inst" and o.args[0].op == "cls":
        f = I.find_member(o.args[0], "__str__")
        if f is not None and f.op == "clo":
            return I.call(f, [v], {})
    if o.op == "inst" and o.args[0].op == "builtin":
        return mk("app", "str", I.freeze(v))
    return I.tostr(v)


def f_int(I, a, kw):
    if not a:
        return ZERO
    v = a[0]
    if len(a) > 1 or "base" in kw:
        base = a[1] if len(a) > 1 else kw["base"]
        return t.aspoly(mk("app", "parseint", I.freeze(v), base))
    if t.is_face(v):
        I.event("face-arith", "an element is converted to a number")
        return unknown("face")
    if v.op == "app" and v.args[0] == "str" and numeric(v.args[1]) and t.is_int(v.args[1]):
        return t.aspoly(v.args[1])
    if v.op in ("str", "fstr") or v.op == "app" and v.args[0] in ("str", "join", "format"):
        if v.op == "str":
            try:
                return num(int(v.args[0]))
            except ValueError:
                I.throw(I.exc("ValueError"))
        return t.aspoly(mk("app", "parseint", v, num(10)))
    return numlift(I, v, t.trunc)


t.APP_KIND["parseint"] = "int"


def f_float(I, a, kw):
    if not a:
        return ZERO
    v = a[0]
    if v.op == "str":
        try:
            return num(F(v.args[0]))
        except ValueError:
            return mk("app", "float", v)
    if v.op == "fstr" or _strapp(v):
        return t.aspoly(mk("app", "tofloat", I.freeze(v)))
    return numlift(I, v, t.aspoly)


def f_bool(I, a, kw):
    return I.truth(a[0]) if a else ZERO


def f_round(I, a, kw):
    nd = a[1] if len(a) > 1 else kw.get("ndigits")
    if nd is None or nd is NONE:
        return numlift(I, a[0], lambda x: _round0(x))
    return numlift(I, a[0], lambda x: t.aspoly(mk("app", "round", t.aspoly(x), nd)))


def _round0(x):
    if t.is_int(x):
        return t.aspoly(x)
    return t.aspoly(mk("app", "round0", t.aspoly(x)))


t.APP_KIND["round0"] = "int"
t.APP_KIND["round"] = "real"


def f_sorted(I, a, kw):
    s = as_seq(I, a[0])
    if s is None:
        return None
    return lst(I, sortseq(I, s, kw.get("key"), kw.get("reverse", ZERO)))


def sortseq(I, s, key, rev):
    rv = const(t.aspoly(I.truth(rev))) == 1
    if s.op in ("seq", "tup"):
        xs = list(s.args)
        if len(xs) <= 1:
            return seq(*xs)
        ks = [callf(I, key, x) if key is not None and key is not NONE else x for x in xs]
        cs = [const(k) if k.op == "poly" else None for k in ks]
        if all(c is not None for c in cs):
            order = sorted(range(len(xs)), key=lambda i: cs[i], reverse=rv)
            return seq(*[xs[i] for i in order])
        if all(k.op == "str" for k in ks):
            order = sorted(range(len(xs)), key=lambda i: ks[i].args[0], reverse=rv)
            return seq(*[xs[i] for i in order])
        if len(xs) == 2:
            c = t.aspoly(I.truth(compare(I, "Lt", ks[1], ks[0])))
            if rv:
                c = t.aspoly(I.truth(compare(I, "Lt", ks[0], ks[1])))
            return seq(I.merge_val(c, xs[1], xs[0]), I.merge_val(c, xs[0], xs[1]))
        # differences that are constants
        try:
            ds = [const(sub(t.aspoly(k), t.aspoly(ks[0]))) for k in ks]
        except Exception:
            ds = [None]
        if all(d is not None for d in ds):
            order = sorted(range(len(xs)), key=lambda i: ds[i], reverse=rv)
            return seq(*[xs[i] for i in order])
    kl = NONE
    if key is not None and key is not NONE:
        v = fresh("any")
        kl = t.mklam([v], callf(I, key, v))
    return mk("app", "sorted", s, kl, num(1 if rv else 0))


def f_reversed(I, a, kw):
    s = as_seq(I, a[0])
    if s is None:
        return None
    return itr(I, t.reverse(s))


def f_iter(I, a, kw):
    v = a[0]
    o = I.deref(v)
    if o.op in ("iter", "lazy"):
        return v
    s = as_seq(I, v)
    if s is None:
        return None
    return itr(I, s)


def f_next(I, a, kw):
    v = a[0]
    o = I.deref(v)
    if o.op == "lazy":
        s = I.to_seq(v)
        if s is None:
            return unknown("next")
        I.update(v, mk("iter", s, string("generator")))
        o = I.deref(v)
    if o.op == "inst" and o.args[0].op == "cls":
        f = I.find_member(o.args[0], "__next__")
        if f is not None and f.op == "clo":
            return I.call(f, [v], {})
    if o.op != "iter":
        return unknown("next")
    s = o.args[0]
    return pop_first(I, v, s, a[1] if len(a) > 1 else None)


def pop_first(I, v, s, default):
    if s.op == "ite":
        return I.fork(
            s.args[0], lambda: pop_first(I, v, s.args[1], default), lambda: pop_first(I, v, s.args[2], default)
        )
    if s.op in ("seq", "tup"):
        if not s.args:
            if default is not None:
                return default
            I.throw(I.exc("StopIteration"))
        I.update(v, mk("iter", seq(*s.args[1:]), *I.deref(v).args[1:]))
        return s.args[0]
    if s.op == "cat" and s.args[0].op == "ite":
        c, x, y = s.args[0].args
        rest = t.cat(*s.args[1:])
        return I.fork(
            c, lambda: pop_first(I, v, t.cat(x, rest), default), lambda: pop_first(I, v, t.cat(y, rest), default)
        )
    L = length(s)
    some = gt0(L)
    if default is None:
        if const(some) is None and s.op == "flat":
            # a search: some element satisfies the filter
            r = _first_of(I, s)
            if r is not None:
                I.update(v, mk("iter", mk("app", "tail", s), *I.deref(v).args[1:]))
                return r
        I.throw(I.exc("StopIteration"), not_(some))
        r = index(s, ZERO)
    else:
        r0 = index(s, ZERO)
        r = I.merge_val(t.aspoly(some), r0, default)
    I.update(v, mk("iter", slice_(s, ONE, None), *I.deref(v).args[1:]))
    return r


def _first_of(I, s):
    L, lam = s.args
    v = fresh("nat")
    inner = t.apply(lam, t.aspoly(v))
    if inner.op == "ite" and inner.args[1].op == "seq" and len(inner.args[1].args) == 1 and inner.args[2].op == "seq" and not inner.args[2].args:
        c, e = inner.args[0], inner.args[1].args[0]
        some = gt0(sum_(L, v, c))
        I.throw(I.exc("StopIteration"), not_(some))
        f = t.first(L, t.mklam([v], c))
        return t.subst(e, {v: f})
    return None


def typenames(I, v):
    if v.op in ("tup", "seq"):
        out = []
        for x in v.args:
            out += typenames(I, x)
        return out
    if v.op == "builtin":
        return [v.args[0]]
    if v.op == "cls":
        return [v]
    if v.op == "tgen":
        if v.args[0] == "typing.Union":
            out = []
            for x in v.args[1]:
                out += typenames(I, x)
            return out
        return [v.args[0]]
    return ["?"]


SEQ_T = {"list": "list", "set": "set", "hdict": "dict"}


def f_isinstance(I, a, kw):
    v, ty = a
    names = typenames(I, ty)
    if v.op == "ite" and not numeric(v):
        return I.fork(v.args[0], lambda: f_isinstance(I, [v.args[1], ty], kw), lambda: f_isinstance(I, [v.args[2], ty], kw))
    r = ZERO
    for n in names:
        r = or_(r, isinst1(I, v, n))
    return r


ABCS = {}  # abstract class of collections: what has it
for _n, _ops in (("Iterable", "tup list set hdict str inst"), ("Container", "tup list set hdict str"), ("Collection", "tup list set hdict str"), ("Sized", "tup list set hdict str"),
                 ("Reversible", "tup list hdict str"), ("Sequence", "tup list str"), ("MutableSequence", "list"), ("Mapping", "hdict"), ("MutableMapping", "hdict"),
                 ("Set", "set"), ("MutableSet", "set"), ("Hashable", "str num")):
    ABCS[_n] = set(_ops.split())
ABC_UP = {"MutableSequence": ("Sequence", "Reversible", "Collection", "Sized", "Iterable", "Container"), "Sequence": ("Reversible", "Collection", "Sized", "Iterable", "Container"),
          "MutableMapping": ("Mapping", "Collection", "Sized", "Iterable", "Container"), "Mapping": ("Collection", "Sized", "Iterable", "Container")}


def abc_inst(I, v, o, n):
    """whether v is an instance of collections.abc's n; None if that is not known"""
    if n == "Hashable":
        return None
    if o.op == "inst" and o.args[0].op == "cls":
        for x in I.mro(o.args[0]):
            base = x.args[0].split(".")[-1] if x.op == "builtin" else None
            if base is not None and (base == n or n in ABC_UP.get(base, ())):
                return ONE
        if n in ("Iterable", "Container", "Sized"):
            return ONE if I.find_member(o.args[0], {"Iterable": "__iter__", "Container": "__contains__", "Sized": "__len__"}[n]) is not None else ZERO
        return ZERO if n in ABC_UP else None
    if o.op in ("seq", "tup", "rec"):
        return ONE if "tup" in ABCS[n] else ZERO
    if o.op in ("str", "fstr"):
        return ONE if "str" in ABCS[n] else ZERO
    if o.op in ("list", "set", "hdict"):
        return ONE if o.op in ABCS[n] else ZERO
    if o.op == "none" or numeric(v):
        return ZERO
    if o.op in ("iter", "lazy"):
        return ONE if n == "Iterable" else ZERO
    return None


def isinst1(I, v, n):
    o = I.deref(v)
    if type(n) is str and n.startswith(("collections.abc.", "typing.")) and n.split(".")[-1] in ABCS:
        r = abc_inst(I, v, o, n.split(".")[-1])
        if r is not None:
            return r
    if type(n) is T:
        if o.op in ("inst", "rec"):
            return ONE if n in I.mro(o.args[0]) else ZERO
        if o.op == "excv":
            return ZERO
        if o.op in ("poly", "str", "none", "tup", "seq", "list", "hdict", "series", "nd", "clo", "cls", "arr"):
            return ZERO
        return t.aspoly(mk("isinst", v, n))
    if o.op == "excv":
        return ONE if n in I.exc_class(o) else ZERO
    if o.op == "input":
        if n == "pandas.Series":
            return t.aspoly(mk("isinst", o, n))
        return t.aspoly(mk("isinst", o, n))
    if o.op == "series":
        return ONE if n in ("pandas.Series",) else ZERO
    if o.op == "nd":
        return ONE if n == "numpy.ndarray" else ZERO
    if o.op == "inst":
        if n == "object":
            return ONE
        return ONE if n in I.cls_chain(o.args[0]) else ZERO
    if o.op in SEQ_T:
        return ONE if n == SEQ_T[o.op] or n.startswith("collections.abc.") else ZERO
    if o.op == "str" or o.op == "fstr":
        return ONE if n == "str" else ZERO
    if o.op in ("tup", "rec"):
        return ONE if n in ("tuple",) or n.startswith("collections.abc.") else ZERO
    if o.op == "none":
        return ONE if n == "NoneType" else ZERO
    if numeric(v):
        if n in ("int", "numbers.Integral"):
            if t.is_int(v):
                return ONE
            if const(v) is not None:
                return ZERO
        if n in ("numbers.Real", "numbers.Number"):
            return ONE
        if n in ("str", "tuple", "list", "dict", "set", "pandas.Series", "numpy.ndarray", "slice"):
            return ZERO
    if o.op == "slice":
        return ONE if n == "slice" else ZERO
    return t.aspoly(mk("isinst", I.freeze(v), n))


def f_getattr(I, a, kw):
    nm = a[1]
    if nm.op == "str":
        return I.getattr(a[0], nm.args[0], a[2] if len(a) > 2 else None)
    I.event("dynamic-getattr", "")
    return mk("libcall", "getattr", tuple(I.freeze(x) for x in a), ())


def f_hasattr(I, a, kw):
    if a[1].op == "str":
        mark = mk("app", "noattr")
        r = I.getattr(a[0], a[1].args[0], mark)
        return ZERO if r is mark else ONE
    return t.aspoly(unknown("hasattr"))


def f_map(I, a, kw):
    ss = [as_seq(I, x) for x in a[1:]]
    if any(s is None for s in ss):
        return None
    z = ss[0] if len(ss) == 1 else zipn(ss)
    f = a[0]
    n = len(ss)

    def force():
        return I.map_loop(z, (lambda e: I.call(f, [e], {})) if n == 1 else (lambda e: I.call(f, list(e.args), {})))

    return I.lazy(force)


def f_filter(I, a, kw):
    s = as_seq(I, a[1])
    if s is None:
        return None
    f = a[0]

    def force():
        return I.filter_loop(s, (lambda e: I.truth(e)) if f is NONE else (lambda e: I.truth(I.call(f, [e], {}))))

    return I.lazy(force)


def f_any(I, a, kw):
    s = as_seq(I, a[0])
    if s is None:
        return t.aspoly(unknown("any"))
    return some(I, s)


def some(I, s):
    if s.op in ("seq", "tup"):
        r = ZERO
        for x in s.args:
            r = or_(r, t.aspoly(I.truth(x)))
        return r
    if s.op == "cat":
        r = ZERO
        for p in s.args:
            r = or_(r, some(I, p))
        return r
    if s.op == "app" and s.args[0] == "values" and s.args[1].op == "tally":
        return t.aspoly(mk("bflag", "any", s, NONE))
    return gt0(t.ssum(s, lambda x: t.aspoly(I.truth(x))))


def f_all(I, a, kw):
    s = as_seq(I, a[0])
    if s is None:
        return t.aspoly(unknown("all"))
    return t.aspoly(eq0(t.ssum(s, lambda x: not_(t.aspoly(I.truth(x))))))


def f_type(I, a, kw):
    v = a[0]
    o = I.deref(v)
    if o.op in ("inst", "rec"):
        return o.args[0]
    if o.op == "list":
        return mk("builtin", "list")
    if o.op == "str":
        return mk("builtin", "str")
    return mk("app", "type", I.freeze(v))


def f_pow(I, a, kw):
    if len(a) == 3:
        return t.mod(t.power(a[0], a[1]), a[2])
    return binop(I, "Pow", a[0], a[1])


def f_divmod(I, a, kw):
    return mk("tup", binop(I, "FloorDiv", a[0], a[1]), binop(I, "Mod", a[0], a[1]))


def f_repr(I, a, kw):
    v = a[0]
    o = I.deref(v)
    if o.op == "inst" and o.args[0].op == "cls":
        f = I.find_member(o.args[0], "__repr__")
        if f is not None and f.op == "clo":
            return I.call(f, [v], {})
    return mk("app", "repr", I.freeze(v))


def f_format(I, a, kw):
    return I.tostr(a[0], a[1] if len(a) > 1 else None)


def f_callable(I, a, kw):
    return ONE if a[0].op in ("clo", "cls", "builtin", "bound", "partial") else ZERO


def f_slice(I, a, kw):
    a = list(a)
    if len(a) == 1:
        return mk("slice", NONE, a[0], NONE)
    return mk("slice", a[0], a[1], a[2] if len(a) > 2 else NONE)


def f_setattr(I, a, kw):
    I.setattr(a[0], a[1].args[0], a[2])
    return NONE


def math1(f):
    return lambda I, a, kw: numlift(I, a[0], f)


def f_log(I, a, kw):
    if len(a) > 1:
        return numlift(I, a[0], lambda x: div(t.log(x), t.log(a[1])))
    return numlift(I, a[0], t.log)


def f_isclose(I, a, kw):
    d = sub(t.aspoly(a[0]), t.aspoly(a[1]))
    if const(d) == 0:
        return ONE
    # the tolerance is far below anything exact values can meet by accident
    rel = kw.get("rel_tol")
    ab = kw.get("abs_tol")
    x, y = t.aspoly(a[0]), t.aspoly(a[1])
    return t.aspoly(mk("bflag", "isclose", x, y, rel if rel is not None else NONE, ab if ab is not None else NONE))


def f_comb(I, a, kw):
    n, k = t.aspoly(a[0]), t.aspoly(a[1])
    kc = const(k)
    nc = const(n)
    if nc is not None and kc is not None:
        from math import comb

        return num(comb(int(nc), int(kc)))
    return t.aspoly(mk("app", "comb", n, k))


def f_factorial(I, a, kw):
    c = const(t.aspoly(a[0]))
    if c is not None and c >= 0:
        from math import factorial

        return num(factorial(int(c)))
    return t.aspoly(mk("app", "factorial", t.aspoly(a[0])))


def f_gammaincc(I, a, kw):
    return t.gammaincc(t.aspoly(a[0]), t.aspoly(a[1]))


def f_hyp1f1(I, a, kw):
    return t.aspoly(mk("hyp1f1", *[t.aspoly(x) for x in a]))


def normcdf(x):
    # Phi(x) = erfc(-x / sqrt 2) / 2
    return t.scale(t.erfc(t.neg(div(t.aspoly(x), t.sqrt(num(2))))), F(1, 2))


def f_normcdf(I, a, kw):
    return numlift(I, a[0], normcdf)


def f_normsf(I, a, kw):
    return numlift(I, a[0], lambda x: normcdf(t.neg(t.aspoly(x))))


def f_chisf(I, a, kw):
    df = a[1] if len(a) > 1 else kw["df"]
    return numlift(I, a[0], lambda x: t.gammaincc(t.scale(t.aspoly(df), F(1, 2)), t.scale(t.aspoly(x), F(1, 2))))


def f_chicdf(I, a, kw):
    return sub(ONE, f_chisf(I, a, kw))


def f_halfnormsf(I, a, kw):
    return numlift(I, a[0], lambda x: t.erfc(div(t.aspoly(x), t.sqrt(num(2)))))


def f_chisquare(I, a, kw):
    obs = a[0]
    exp = a[1] if len(a) > 1 else kw.get("f_exp")
    so = as_seq(I, obs)
    if so is None:
        return None
    k = length(so)
    if exp is None or exp is NONE:
        tot = t.ssum(so, t.aspoly)
        m = div(tot, k)
        se = t.smap(so, lambda x: m)
    else:
        se = as_seq(I, exp)
        if se is None:
            return None
    ddof = a[2] if len(a) > 2 else kw.get("ddof", ZERO)
    z = zipn([so, se])
    stat = t.ssum(z, lambda p: div(t.pow_(sub(t.aspoly(p.args[0]), t.aspoly(p.args[1])), 2), t.aspoly(p.args[1])))
    I.event("chisquare", mk("tup", so, se))
    p = t.gammaincc(t.scale(sub(sub(k, ONE), t.aspoly(ddof)), F(1, 2)), t.scale(stat, F(1, 2)))
    cls = mk("builtin", "scipy.stats.Power_divergenceResult")
    return mk("rec", cls, (("statistic", stat), ("pvalue", p)))


def f_fft(I, a, kw):
    s = as_seq(I, a[0])
    if s is None:
        return None
    if contains_face(s):
        I.event("face-arith", "elements are transformed as numbers")
        return unknown("face")
    r = mk("app", "fft", s)
    t.LENS[r] = length(s)
    return mk("nd", r)


def contains_face(s):
    if s.op in ("seq", "tup"):
        return any(t.is_face(x) for x in s.args)
    if s.op == "arr":
        return t.is_face(s.args[1].args[2])
    if s.op == "cat":
        return any(contains_face(x) for x in s.args)
    return s.op in ("var", "input") and (s.args[-1] == "faces")


# --- itertools and friends


def f_chain(I, a, kw):
    parts = []
    for x in a:
        if x.op == "star":
            parts.append(_chain_iter(I, x.args[0]))
            continue
        s = as_seq(I, x)
        if s is None:
            return None
        parts.append(I.plain(s))
    return itr(I, t.cat(*parts))


def _chain_iter(I, s):
    return t.sexpand(s, lambda e: I.plain(I.to_seq(e) or unknown("chain")))


def f_chain_from(I, a, kw):
    s = as_seq(I, a[0])
    if s is None:
        return None
    return itr(I, _chain_iter(I, s))


def f_accumulate(I, a, kw):
    s = as_seq(I, a[0])
    if s is None:
        return None
    func = a[1] if len(a) > 1 else kw.get("func")
    init = kw.get("initial")
    if func is None or func is NONE or func.op == "builtin" and func.args[0] == "operator.add":
        r = cumsum(I, s)
        if init is not None and init is not NONE:
            r = t.cat(seq(init), t.smap(r, lambda x: add(init, x)))
        return itr(I, r)
    if s.op in ("seq", "tup"):
        xs = list(s.args)
        out = []
        acc = init if init is not None and init is not NONE else None
        if acc is not None:
            out.append(acc)
        for x in xs:
            acc = x if acc is None else I.call(func, [acc, x], {})
            out.append(acc)
        return itr(I, seq(*out))
    if func.op == "builtin" and func.args[0] in ("max", "min"):
        sg = 1 if func.args[0] == "max" else -1
        L = length(s)
        v = fresh("nat")
        vp = t.aspoly(v)
        w = fresh("nat")
        e = t.scale(t.maxr(add(vp, ONE), w, t.scale(t.aspoly(index(s, t.aspoly(w))), sg)), sg)
        return itr(I, t.arr(L, v, e))
    return None


def cumsum(I, s):
    if contains_face(s):
        I.event("face-arith", "elements are summed")
        return unknown("face")
    if s.op in ("seq", "tup"):
        out, acc = [], ZERO
        for x in s.args:
            acc = add(acc, t.aspoly(x))
            out.append(acc)
        return seq(*out)
    L = length(s)
    v = fresh("nat")
    vp = t.aspoly(v)
    w = fresh("nat")
    with t.assume([vp, sub(L, add(vp, ONE))]):
        with t.assume([t.aspoly(w), sub(vp, t.aspoly(w))]):
            e = t.aspoly(index(s, t.aspoly(w)))
        r = sum_(add(vp, ONE), w, e)
    return t.arr(L, v, r)


def f_product(I, a, kw):
    rep = kw.get("repeat", ONE)
    ss = []
    for x in a:
        if x.op == "star":
            return unknown("product(*)")
        s = as_seq(I, x)
        if s is None:
            return None
        ss.append(s)
    k = const(t.aspoly(rep))
    if k is not None and all(s.op in ("seq", "tup") for s in ss):
        import itertools

        pools = [s.args for s in ss] * int(k)
        n = 1
        for p in pools:
            n *= len(p)
        if n <= 512:
            return itr(I, seq(*[mk("tup", *c) for c in itertools.product(*pools)]))
    if k is not None and k == 1 and len(ss) == 2:
        A, B = ss
        r = t.sexpand(A, lambda x: t.smap(B, lambda y: mk("tup", x, y)))
        return itr(I, r)
    if len(ss) == 1 and ss[0].op in ("seq", "tup"):
        # q^m words of length m over a constant alphabet: digits of the running number
        q = len(ss[0].args)
        m = t.aspoly(rep)
        v, j = fresh("nat"), fresh("nat")
        vp, jp = t.aspoly(v), t.aspoly(j)
        tot = t.power(num(q), m)
        with t.assume([vp, sub(tot, add(vp, ONE)), jp, sub(m, add(jp, ONE))]):
            digit = t.mod(t.floor_(div(vp, t.power(num(q), sub(sub(m, ONE), jp)))), num(q))
            e = index(ss[0], digit)
            word = t.arr(m, j, e)
        return itr(I, t.arr(tot, v, word))
    return unknown("product")


def f_islice(I, a, kw):
    s = as_seq(I, a[0])
    if s is None:
        return None
    b = [None if x is NONE else x for x in a[1:]]
    if len(b) == 1:
        return itr(I, slice_(s, None, b[0]))
    return itr(I, slice_(s, *b))


def f_repeat(I, a, kw):
    x = a[0]
    n = a[1] if len(a) > 1 else kw.get("times")
    if n is None:
        return None
    v = fresh("nat")
    return itr(I, t.arr(t.aspoly(n), v, x))


def f_count(I, a, kw):
    return None


def f_takewhile(I, a, kw):
    return None


def f_groupby(I, a, kw):
    return None


def f_pairwise(I, a, kw):
    s = as_seq(I, a[0])
    if s is None:
        return None
    return itr(I, windows(s, num(2)))


def windows(s, m, step=ONE):
    L = length(s)
    n = add(sub(L, m), ONE)
    if not t.nonneg(n):
        n = t.max2(n, ZERO)
    if step is not ONE:
        n = t.ceil_(div(n, step))
    v = fresh("nat")
    vp = t.aspoly(v)
    with t.assume([vp, sub(n, add(vp, ONE))]):
        at = mul(vp, step)
        e = _tup(slice_(s, at, add(at, m)))
    return t.arr(n, v, e)


def f_windowed(I, a, kw):
    s = as_seq(I, a[0])
    if s is None:
        return None
    # shorter sequences give one padded window
    m = t.aspoly(a[1])
    st = kw.get("step", a[3] if len(a) > 3 else ONE)
    fill = kw.get("fillvalue", a[2] if len(a) > 2 else NONE)
    L = length(s)
    if t.nonneg(sub(L, m)):
        return itr(I, windows(s, m, t.aspoly(st)))
    w = windows(s, m, t.aspoly(st))
    short = t.aspoly(gt0(sub(m, L)))
    v = fresh("nat")
    pad = t.arr(t.max2(sub(m, L), ZERO), v, fill)
    one = seq(_tup(t.cat(I.plain(s), pad)))
    return itr(I, ite(short, one, w))


def f_chunked(I, a, kw):
    s = as_seq(I, a[0])
    if s is None:
        return None
    m = t.aspoly(a[1])
    L = length(s)
    return itr(I, chunks(s, m))


def chunks(s, m):
    L = length(s)
    n = t.ceil_(div(L, m))
    v = fresh("nat")
    vp = t.aspoly(v)
    with t.assume([vp, sub(n, add(vp, ONE))]):
        e = slice_(s, mul(vp, m), mul(add(vp, ONE), m))
    return t.arr(n, v, mk("list", e))


def f_split_at(I, a, kw):
    s = as_seq(I, a[0])
    if s is None:
        return None
    out = I.alloc(mk("list", seq()))
    buf = I.alloc(mk("list", seq()))
    keep = kw.get("keep_separator", ZERO)
    pred = a[1]

    def body(e):
        def yes():
            I.list_append(out, I.freeze(buf))
            if const(t.aspoly(I.truth(keep))) == 1:
                I.list_append(out, mk("list", seq(e[0])))
            I.update(buf, mk("list", seq()))

        c = t.aspoly(I.truth(I.call(pred, [e[0]], {})))
        I.fork(c, yes, lambda: I.list_append(buf, e[0]) and None)

    cell = [None]
    I.for_seq(s, lambda e: cell.__setitem__(0, e), lambda: body(cell), None, None)
    I.list_append(out, I.freeze(buf))
    return itr(I, I.deref(out).args[0])


# --- dataclasses, copy, functools


def f_astuple(I, a, kw):
    o = I.deref(a[0])
    if o.op == "inst" and o.args[0].op == "cls":
        f = dict(o.args[1])
        return mk("tup", *[f[n] for n, _ in I.get(o.args[0]).fields if n in f])
    return None


def f_asdict(I, a, kw):
    o = I.deref(a[0])
    if o.op == "inst" and o.args[0].op == "cls":
        f = dict(o.args[1])
        d = mk("dict", tuple((string(n), f[n], ONE) for n, _ in I.get(o.args[0]).fields if n in f))
        return I.alloc(mk("hdict", d, NONE, "dict"))
    return None


def f_fields(I, a, kw):
    o = a[0]
    c = o if o.op == "cls" else I.deref(o).args[0]
    cls = mk("builtin", "dataclasses.Field")
    return mk("tup", *[mk("rec", cls, (("name", string(n)),)) for n, _ in I.get(c).fields])


def f_replace(I, a, kw):
    o = I.deref(a[0])
    f = dict(o.args[1])
    f.update(kw)
    if o.op == "rec":
        return mk("rec", o.args[0], tuple(f.items()))
    return I.alloc(mk("inst", o.args[0], tuple(f.items())))


def f_copy(I, a, kw):
    v = a[0]
    o = I.deref(v)
    if v.op in ("ref", "place") or o.op in HEAPOPS:
        if o.op in HEAPOPS:
            return I.alloc(o)
    return v


def f_deepcopy(I, a, kw):
    v = a[0]
    o = I.freeze(I.deref(v))
    if o.op in HEAPOPS:
        return I.alloc(o)
    return o


def f_partial(I, a, kw):
    return mk("partial", a[0], tuple(a[1:]), tuple(sorted(kw.items())))


def f_reduce(I, a, kw):
    f = a[0]
    s = as_seq(I, a[1])
    if s is None:
        return None
    acc = [a[2] if len(a) > 2 else None]
    if acc[0] is None:
        acc[0] = index(s, ZERO)
        s = slice_(s, ONE, None)
    env = I.newenv(I.env, I.envmod[I.env], "comp")
    I.env_stack.append(env)
    try:
        I.st[("v", env, "acc")] = acc[0]
        cell = [None]

        def body():
            I.st[("v", env, "acc")] = I.call(f, [I.st[("v", env, "acc")], cell[0]], {})

        I.for_seq(s, lambda e: cell.__setitem__(0, e), body, None, None)
        return I.st[("v", env, "acc")]
    finally:
        I.env_stack.pop()


def f_wraps(I, a, kw):
    return mk("deco", "wraps", a[0])


def f_lru(I, a, kw):
    if a and a[0].op in ("clo", "descr"):
        return cached(I, a[0])
    return mk("deco", "lru")


def f_dataclass(I, a, kw):
    return mk("deco", "dataclass")


def f_warn(I, a, kw):
    cat = a[1] if len(a) > 1 else kw.get("category", mk("builtin", "UserWarning"))
    old = I.st.get(("fx", "warn"), seq())
    I.st[("fx", "warn")] = t.cat(old, seq(mk("tup", I.freeze(a[0]), cat)))
    return NONE


def opf(name):
    def f(I, a, kw):
        return binop(I, name, a[0], a[1])

    return f


def cmpf(name):
    def f(I, a, kw):
        return compare(I, name, a[0], a[1])

    return f


def f_getitem(I, a, kw):
    return getitem(I, a[0], a[1])


def bisect(side):
    def f(I, a, kw):
        s = as_seq(I, a[0])
        x = a[1]
        if s is None:
            return None
        if contains_face(s) or t.is_face(x):
            return None
        if s.op in ("seq", "tup") and numeric(x) and all(numeric(y) for y in s.args):
            vals, c = [const(t.aspoly(y)) for y in s.args], const(t.aspoly(x))
            if c is not None and None not in vals:
                return num((bisect_left if side == "left" else bisect_right)(vals, c))
        # number of elements below x (or not above), the sequence being sorted
        if side == "left":
            return t.steps(t.ssum(s, lambda y: t.aspoly(t.lt(y, x))))
        return t.steps(t.ssum(s, lambda y: t.aspoly(t.le(y, x))))

    return f


# --- numpy / pandas


def f_series(I, a, kw):
    data = a[0] if a else kw.get("data")
    idx = a[1] if len(a) > 1 else kw.get("index", NONE)
    o = I.deref(data)
    dt = a[2] if len(a) > 2 else kw.get("dtype", NONE)
    if o.op == "input":
        if dt is not NONE and not (dt.op in ("str", "builtin") and dt.args[0] in ("category", "object")):
            I.event("face-arith", "elements are cast")
        # a Series passed in keeps its index
        given = t.aspoly(mk("isinst", o, "pandas.Series"))
        return I.fork(given, lambda: mk("series", o.args[0], o.args[1]), lambda: mk("series", o.args[0], NONE))
    if o.op == "hdict" and o.args[0].op == "dict":
        ks = tuple(e[0] for e in o.args[0].args[0])
        vs = [e[1] for e in o.args[0].args[0]]
        return mk("series", seq(*vs), mk("tup", *ks))
    if o.op == "series":
        return o
    s = as_seq(I, data)
    if s is None:
        return None
    if idx is not NONE:
        si = as_seq(I, idx)
        return mk("series", I.plain(s), si if si is not None else unknown("index"))
    return mk("series", I.plain(s), NONE)


def f_ndarray(I, a, kw):
    o = I.deref(a[0])
    if o.op == "input":
        return mk("nd", o.args[0])
    s = as_seq(I, a[0])
    if s is None:
        return None
    s = I.plain(s)
    # nested lists
    def cv(x):
        ob = I.deref(x)
        if ob.op in ("list", "tup", "seq", "arr", "cat") and t.is_seq(ob.args[0] if ob.op == "list" else ob):
            return mk("nd", ob.args[0] if ob.op == "list" else ob)
        return x

    return mk("nd", t.smap(s, cv))


def f_np_arange(I, a, kw):
    a = [t.aspoly(x) for x in a]
    if len(a) == 1:
        return mk("nd", arange(ZERO, a[0], ONE))
    return mk("nd", arange(a[0], a[1], a[2] if len(a) > 2 else kw.get("step", ONE)))


def f_zeros(val):
    def f(I, a, kw):
        n = t.aspoly(a[0]) if a[0].op not in ("tup", "seq") else None
        if n is None:
            return None
        v = fresh("nat")
        return mk("nd", t.arr(n, v, val))

    return f


def f_concat(I, a, kw):
    s = as_seq(I, a[0])
    if s is None or s.op not in ("seq", "tup"):
        return None
    parts = []
    ser = False
    for x in s.args:
        x = as_series(I, x)
        if x.op == "series":
            ser = True
        q = as_seq(I, x)
        if q is None:
            return libcall(I, "pandas.concat", a, kw)
        parts.append(I.plain(q))
    if not ser and all(x.op == "libcall" for x in s.args):
        return None
    r = t.cat(*parts)
    return mk("series", r, mk("app", "dupindex")) if ser else mk("nd", r)


def f_np_sum(I, a, kw):
    v = as_series(I, a[0])
    return f_sum(I, [v], {})


def f_np_concat(I, a, kw):
    return f_concat(I, a, kw)


def f_np_diff(I, a, kw):
    s = as_seq(I, a[0])
    if s is None:
        return None
    if contains_face(s):
        I.event("face-arith", "elements are subtracted")
        return unknown("face")
    L = length(s)
    v = fresh("nat")
    vp = t.aspoly(v)
    n = sub(L, ONE)
    with t.assume([vp, sub(n, add(vp, ONE))]):
        e = sub(t.aspoly(index(s, add(vp, ONE))), t.aspoly(index(s, vp)))
    return mk("nd", t.arr(n, v, e))


def f_np_where(I, a, kw):
    if len(a) == 3:
        c = as_series(I, a[0])
        return I.elementwise1(c, lambda x: ite(t.aspoly(I.truth(x)), a[1], a[2]))
    return None


def f_count_nonzero(I, a, kw):
    s = as_seq(I, a[0])
    if s is None:
        return None
    return t.ssum(s, lambda x: t.aspoly(I.truth(x)))


def f_maximum(sg):
    def f(I, a, kw):
        r = I.elementwise2(a[0], a[1], lambda x, y: best2(I, x, y, sg))
        return r if r is not None else best2(I, a[0], a[1], sg)

    return f


def f_cumsum(I, a, kw):
    s = as_seq(I, as_series(I, a[0]))
    if s is None:
        return None
    return mk("nd", cumsum(I, s))


def f_sorteddict(I, a, kw):
    r = f_dict(I, a, kw)
    o = I.deref(r)
    return I.alloc(mk("hdict", sort_dict(I, o.args[0]), NONE, "SortedDict"))


def sort_dict(I, d):
    if d.op == "dict":
        ks = seq(*[e[0] for e in d.args[0]])
        r = sortseq(I, ks, None, ZERO)
        if r.op == "seq":
            m = {e[0]: e for e in d.args[0]}
            if all(k in m for k in r.args):
                return mk("dict", tuple(m[k] for k in r.args))
    if d.op == "scat" and d.args[0].op == "dict" and not d.args[0].args[0]:
        # keys increasing with the running number, e.g. a range
        lam = d.args[2]
        v = fresh("nat")
        e = t.apply(lam, t.aspoly(v))
        e2 = t.subst(e.args[0], {v: add(t.aspoly(v), ONE)})
        dd = sub(t.aspoly(e2), t.aspoly(e.args[0]))
        if const(dd) is not None and const(dd) > 0:
            return d
    return mk("app", "sortdict", d)


def f_exit(I, a, kw):
    I.event("effect", "exit")
    I.effect("exit", *[I.freeze(x) for x in a])
    I.throw(I.exc("SystemExit", *[I.freeze(x) for x in a]))


def f_open(I, a, kw):
    p = I.freeze(a[0])
    mode = a[1] if len(a) > 1 else kw.get("mode", string("r"))
    I.event("effect", "open")
    more = [mk("tup", string(k), I.freeze(v)) for k, v in sorted(kw.items()) if k == "encoding"] or (
        [mk("tup", string("encoding"), I.freeze(a[3]))] if len(a) > 3 else [])
    I.effect("open", p, mode, *more)
    I.maybe_raise("open")
    return mk("libcall", "open", (p, mode), ())


def f_get_args(I, a, kw):
    v = a[0]
    if v.op == "tgen":
        return mk("tup", *v.args[1])
    return mk("tup")


def f_namedtuple(I, a, kw):
    from .interp import Cls

    name = a[0].args[0]
    s = a[1]
    if s.op == "str":
        names = s.args[0].replace(",", " ").split()
    else:
        q = as_seq(I, s)
        names = [x.args[0] for x in q.args]
    o = Cls(name, I.envmod[I.env], [mk("builtin", "tuple")], {}, None)
    o.namedtuple = True
    o.fields = [(n, None) for n in names]
    o.ownfields = o.fields
    return I.obj(o, "cls")


def f_noop(I, a, kw):
    return NONE


def f_identity_deco(I, a, kw):
    return mk("deco", "identity")


def f_frozenset(I, a, kw):
    return f_set(I, a, kw)


def f_ord(I, a, kw):
    if a[0].op == "str" and len(a[0].args[0]) == 1:
        return num(ord(a[0].args[0]))
    return t.aspoly(mk("app", "ord", I.freeze(a[0])))


def f_chr(I, a, kw):
    c = const(a[0])
    return string(chr(int(c))) if c is not None else mk("app", "chr", a[0])


def f_bin(I, a, kw):
    c = const(a[0])
    return string(bin(int(c))) if c is not None else mk("app", "bin", a[0])


t.APP_KIND["ord"] = "nat"


def f_nditems(name):
    def f(I, a, kw):
        return method(I, as_series(I, a[0]), name, list(a[1:]), kw)

    return f


FUNCS = {
    "len": f_len, "sum": f_sum, "abs": f_abs, "max": fmax(1), "min": fmax(-1), "range": f_range,
    "enumerate": f_enumerate, "zip": f_zip, "list": f_list, "tuple": f_tuple, "dict": f_dict, "set": f_set,
    "frozenset": f_frozenset, "str": f_str, "int": f_int, "float": f_float, "bool": f_bool, "round": f_round,
    "sorted": f_sorted, "reversed": f_reversed, "iter": f_iter, "next": f_next, "isinstance": f_isinstance,
    "getattr": f_getattr, "hasattr": f_hasattr, "setattr": f_setattr, "map": f_map, "filter": f_filter, "any": f_any,
    "all": f_all, "type": f_type, "pow": f_pow, "divmod": f_divmod, "repr": f_repr, "format": f_format,
    "callable": f_callable, "slice": f_slice, "open": f_open, "exit": f_exit, "quit": f_exit, "sys.exit": f_exit, "ord": f_ord, "chr": f_chr, "bin": f_bin,
    "math.sqrt": math1(t.sqrt), "math.floor": math1(t.floor_), "math.ceil": math1(t.ceil_), "math.trunc": math1(t.trunc),
    "math.log": f_log, "math.log2": math1(lambda x: div(t.log(x), t.log(num(2)))),
    "math.log10": math1(lambda x: div(t.log(x), t.log(num(10)))), "math.exp": math1(t.exp),
    "math.log1p": math1(lambda x: t.log(add(x, ONE))), "math.pow": f_pow,
    "math.erfc": math1(t.erfc), "math.erf": math1(lambda x: sub(ONE, t.erfc(x))), "scipy.special.erf": math1(lambda x: sub(ONE, t.erfc(x))),
    "math.isclose": f_isclose, "numpy.isclose": f_isclose, "math.comb": f_comb, "math.factorial": f_factorial,
    "scipy.special.comb": f_comb,
    "scipy.special.gammaincc": f_gammaincc, "scipy.special.gammainc": lambda I, a, kw: sub(ONE, f_gammaincc(I, a, kw)),
    "scipy.special.hyp1f1": f_hyp1f1, "chdtrc": lambda I, a, kw: f_chisf(I, [a[1], a[0]], {}),
    "scipy.stats.norm.cdf": f_normcdf, "scipy.stats.norm.sf": f_normsf, "scipy.stats.chi2.sf": f_chisf,
    "scipy.stats.chi2.cdf": f_chicdf, "scipy.stats.halfnorm.sf": f_halfnormsf, "scipy.special.ndtr": f_normcdf,
    "scipy.stats.chisquare": f_chisquare, "scipy.fft.fft": f_fft,
    "itertools.chain": f_chain, "itertools.chain.from_iterable": f_chain_from, "itertools.accumulate": f_accumulate,
    "itertools.product": f_product, "itertools.islice": f_islice, "itertools.repeat": f_repeat,
    "itertools.pairwise": f_pairwise, "more_itertools.pairwise": f_pairwise, "more_itertools.windowed": f_windowed,
    "more_itertools.chunked": f_chunked, "more_itertools.split_at": f_split_at,
    "dataclasses.astuple": f_astuple, "dataclasses.asdict": f_asdict, "dataclasses.fields": f_fields,
    "dataclasses.replace": f_replace, "copy.copy": f_copy, "copy.deepcopy": f_deepcopy,
    "functools.partial": f_partial, "functools.reduce": f_reduce, "functools.wraps": f_wraps,
    "functools.lru_cache": f_lru, "functools.cache": f_lru, "dataclasses.dataclass": f_dataclass,
    "warnings.warn": f_warn, "collections.defaultdict": f_defaultdict, "collections.Counter": f_counter,
    "collections.OrderedDict": f_dict, "collections.namedtuple": f_namedtuple,
    "sortedcontainers.SortedDict": f_sorteddict, "bisect.bisect_left": bisect("left"),
    "bisect.bisect_right": bisect("right"), "bisect.bisect": bisect("right"),
    "pandas.Series": f_series, "numpy.array": f_ndarray, "numpy.asarray": f_ndarray, "numpy.arange": f_np_arange,
    "pandas.concat": f_concat, "numpy.concatenate": f_np_concat, "numpy.sum": f_np_sum, "numpy.diff": f_np_diff,
    "numpy.where": f_np_where, "numpy.count_nonzero": f_count_nonzero, "numpy.maximum": f_maximum(1),
    "numpy.minimum": f_maximum(-1), "numpy.cumsum": f_cumsum, "numpy.zeros": f_zeros(ZERO), "numpy.ones": f_zeros(ONE),
    "numpy.max": fmax(1), "numpy.min": fmax(-1), "numpy.amax": fmax(1), "numpy.mean": f_nditems("mean"),
    "operator.add": opf("Add"), "operator.sub": opf("Sub"), "operator.mul": opf("Mult"), "operator.truediv": opf("Div"),
    "operator.floordiv": opf("FloorDiv"), "operator.mod": opf("Mod"), "operator.pow": opf("Pow"),
    "operator.xor": opf("BitXor"), "operator.and_": opf("BitAnd"), "operator.or_": opf("BitOr"),
    "operator.eq": cmpf("Eq"), "operator.ne": cmpf("NotEq"), "operator.lt": cmpf("Lt"), "operator.le": cmpf("LtE"),
    "operator.gt": cmpf("Gt"), "operator.ge": cmpf("GtE"), "operator.getitem": f_getitem,
    "typing.get_args": f_get_args, "typing_extensions.get_args": f_get_args, "typing.cast": lambda I, a, kw: a[1],
    "numpy.xor": opf("BitXor"), "numpy.logical_xor": opf("BitXor"), "numpy.bitwise_xor": opf("BitXor"),
}


# --------------------------------------------------------------------------- operators

OPSYM = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**"}
DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod",
          "Pow": "pow", "BitXor": "xor", "BitAnd": "and", "BitOr": "or"}

LOOSE = ("dget", "idx", "proj", "fresh", "var", "bv", "app", "ite", "lcontent")


def binop(I, op, a, b):
    if a.op == "input":
        a = as_series(I, a)
    if b.op == "input":
        b = as_series(I, b)
    if a.op == "unknown" or b.op == "unknown":
        return unknown("operand")
    r = I.elementwise2(a, b, lambda x, y: scalar_op(I, op, x, y))
    if r is not None:
        return r
    return scalar_op(I, op, a, b)


def scalar_op(I, op, a, b):
    if a.op == "ite" and not numeric(a) and not t.is_face(a):
        return I.fork(a.args[0], lambda: binop(I, op, a.args[1], b), lambda: binop(I, op, a.args[2], b))
    if b.op == "ite" and not numeric(b) and not t.is_face(b):
        return I.fork(b.args[0], lambda: binop(I, op, a, b.args[1]), lambda: binop(I, op, a, b.args[2]))
    if t.is_face(a) or t.is_face(b):
        I.event("face-arith", f"an element is used in '{OPSYM.get(op, op)}'")
        return unknown("face")
    oa, ob = I.deref(a), I.deref(b)
    if oa.op == "inst" or ob.op == "inst":
        nm = DUNDER.get(op)
        if nm and oa.op == "inst" and oa.args[0].op == "cls":
            f = I.find_member(oa.args[0], f"__{nm}__")
            if f is not None:
                return I.call(f, [a, b], {})
        return mk("libcall", "op" + op, (I.freeze(a), I.freeze(b)), ())
    strs = ("str", "fstr")
    if oa.op in strs or ob.op in strs or _strapp(oa) or _strapp(ob):
        if op == "Add":
            if (oa.op in strs or _strapp(oa)) and (ob.op in strs or _strapp(ob) or ob.op in LOOSE):
                return I.fstr([oa, ob])
            if oa.op in LOOSE:
                return I.fstr([oa, ob])
            if "libcall" in (oa.op, ob.op) or "ite" in (oa.op, ob.op):
                return unknown("string operator")
            I.throw(I.exc("TypeError"))
        if op == "Mult":
            s, k = (oa, b) if oa.op in strs or _strapp(oa) else (ob, a)
            c = const(t.aspoly(k)) if numeric(k) else None
            if c is not None and s.op == "str":
                return string(s.args[0] * int(c))
            return mk("app", "strrep", s, k)
        if op == "Mod" and oa.op in strs:
            return mk("app", "strmod", oa, I.freeze(b))
        return unknown("string operator")
    if oa.op == "list" and ob.op == "list" and op == "Add":
        return lst(I, t.cat(oa.args[0], ob.args[0]))
    if op == "Mult" and (oa.op == "list" or ob.op == "list" or _isseqval(oa) or _isseqval(ob)):
        s, k = (oa, b) if (oa.op == "list" or _isseqval(oa)) else (ob, a)
        c = s.args[0] if s.op == "list" else s
        r = seqrep(c, t.aspoly(k))
        if r is None:
            return unknown("repeat")
        return lst(I, r) if s.op == "list" else _tup(r)
    if op == "Add" and _isseqval(oa) and _isseqval(ob):
        return _tup(t.cat(I.plain(oa), I.plain(ob)))
    if oa.op == "set" or ob.op == "set":
        return I.alloc(mk("set", unknown("set operator")))
    if oa.op == "hdict" and ob.op == "hdict":
        if op == "BitOr":
            return I.alloc(mk("hdict", I.dict_merge(oa.args[0], b), *oa.args[1:]))
        return unknown("dict operator")
    if oa.op == "libcall" or ob.op == "libcall":
        return mk("libcall", "op" + op, (I.freeze(a), I.freeze(b)), ())
    if op == "BitOr" and (oa.op in ("builtin", "tgen", "cls") or ob.op in ("builtin", "tgen", "cls")):
        return mk("tgen", "typing.Union", (a, b))
    if not (numeric(a) or a.op in LOOSE) or not (numeric(b) or b.op in LOOSE):
        if oa.op in ("none", "list", "tup", "seq", "clo") or ob.op in ("none", "list", "tup", "seq", "clo"):
            I.throw(I.exc("TypeError", string(f"unsupported operand for {OPSYM.get(op, op)}")))
        return unknown("operator")
    return arith(I, op, t.aspoly(a), t.aspoly(b))


def _strapp(o):
    return o.op == "app" and isinstance(o.args[0], str) and (
        o.args[0] in ("str", "repr", "format", "join", "strrep", "strmod", "chr", "bin", "strip", "substr", "strformat") or o.args[0].startswith("strm_"))


def _isseqval(o):
    return o.op in ("tup", "seq", "arr", "cat", "flat") or o.op == "rec"


def seqrep(c, k):
    n = const(k)
    if n is not None and c.op in ("seq", "tup") and n * max(1, len(c.args)) <= 2000:
        return seq(*(list(c.args) * int(max(n, 0))))
    if c.op in ("seq", "tup") and len(c.args) == 1:
        v = fresh("nat")
        kk = k if t.nonneg(k) else t.max2(k, ZERO)
        return t.arr(kk, v, c.args[0])
    return None


def too_big(a, b):
    """when a float a cannot be divided by the integer power b, which has no float"""
    if len(b.args[0]) != 1:
        return None
    (m, c), = b.args[0]
    if c != 1 or not m or not all(x.op == "pow" and x.args[0] == num(2) and k > 0 for x, k in m):
        return None
    e = ZERO
    for x, k in m:
        e = add(e, t.scale(x.args[1], k))
    plain = lambda q: all(x.op == "var" and k == 1 for mm, cc in q.args[0] for x, k in mm)
    if not plain(e) or not plain(a) or all(cc.denominator == 1 for mm, cc in a.args[0]):
        return None
    return t.ge(e, num(1024))


def arith(I, op, a, b):
    if op == "Add":
        return add(a, b)
    if op == "Sub":
        return sub(a, b)
    if op == "Mult":
        return mul(a, b)
    if op == "Div":
        if const(b) == 0:
            I.throw(I.exc("ZeroDivisionError"))
        g = too_big(a, b)
        if g is not None:
            I.throw(I.exc("OverflowError"), g)
        return div(a, b)
    if op == "FloorDiv":
        if const(b) == 0:
            I.throw(I.exc("ZeroDivisionError"))
        I.need_split(b)
        return t.floordiv(a, b)
    if op == "Mod":
        if const(b) == 0:
            I.throw(I.exc("ZeroDivisionError"))
        I.need_split(b)
        return t.mod(a, b)
    if op == "Pow":
        return t.power(a, b)
    if op in ("BitXor", "BitAnd", "BitOr"):
        if t.is_boolpoly(a) and t.is_boolpoly(b):
            if op == "BitXor":
                return sub(add(a, b), t.scale(mul(a, b), 2))
            return and_(a, b) if op == "BitAnd" else or_(a, b)
        ca, cb = const(a), const(b)
        if ca is not None and cb is not None:
            x, y = int(ca), int(cb)
            return num(x ^ y if op == "BitXor" else x & y if op == "BitAnd" else x | y)
        if op == "BitAnd":
            for x, y in ((a, b), (b, a)):
                if const(y) == 1:
                    return t.mod(x, num(2))
        return t.bitop({"BitXor": "bxor", "BitAnd": "band", "BitOr": "bor"}[op], a, b)
    if op == "LShift":
        return mul(a, t.power(num(2), b))
    if op == "RShift":
        return t.floor_(div(a, t.power(num(2), b)))
    return unknown("operator " + op)


def compare(I, op, a, b):
    if op in ("Is", "IsNot"):
        r = identical(I, a, b)
        return r if op == "Is" else not_(r)
    if op in ("In", "NotIn"):
        r = member(I, a, b)
        return r if op == "In" else not_(r)
    if a.op == "input":
        a = as_series(I, a)
    if b.op == "input":
        b = as_series(I, b)
    r = I.elementwise2(a, b, lambda x, y: compare(I, op, x, y))
    if r is not None:
        return r
    if a.op == "ite" and not numeric(a) and not t.is_face(a):
        return I.fork(a.args[0], lambda: compare(I, op, a.args[1], b), lambda: compare(I, op, a.args[2], b))
    if b.op == "ite" and not numeric(b) and not t.is_face(b):
        return I.fork(b.args[0], lambda: compare(I, op, a, b.args[1]), lambda: compare(I, op, a, b.args[2]))
    if op == "Eq" or op == "NotEq":
        r = equal(I, a, b)
        return r if op == "Eq" else not_(r)
    if t.is_face(a) and t.is_face(b):
        x, y = t.aspoly(t.hd(a)), t.aspoly(t.hd(b))
        if op == "Lt":
            return and_(not_(x), y)
        if op == "Gt":
            return and_(x, not_(y))
        if op == "LtE":
            return or_(not_(x), y)
        return or_(x, not_(y))
    if t.is_face(a) or t.is_face(b):
        I.event("face-arith", "an element is compared with a number")
        return t.aspoly(unknown("face"))
    if a.op == "unknown" or b.op == "unknown":
        return t.aspoly(unknown("compare"))
    if a.op in ("tup", "seq", "rec") and b.op in ("tup", "seq", "rec"):
        xs = I.to_seq(a).args
        ys = I.to_seq(b).args
        if len(xs) == len(ys):
            r = ONE if op in ("LtE", "GtE") else ZERO
            for x, y in zip(reversed(xs), reversed(ys)):
                st = t.aspoly(compare(I, "Lt" if op in ("Lt", "LtE") else "Gt", x, y))
                r = or_(st, and_(t.aspoly(equal(I, x, y)), r))
            return r
    if a.op == "str" and b.op == "str":
        x, y = a.args[0], b.args[0]
        return ONE if {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op] else ZERO
    if textual(a) or textual(b):
        return t.aspoly(mk("bflag", "cmp" + op, I.freeze(a), I.freeze(b)))
    if not (numeric(a) or a.op in LOOSE) or not (numeric(b) or b.op in LOOSE):
        if a.op == "app" and a.args[0] == "inf":
            return ONE if op in ("Gt", "GtE") else ZERO
        if b.op == "app" and b.args[0] == "inf":
            return ONE if op in ("Lt", "LtE") else ZERO
        if a.op in ("none", "list", "str") or b.op in ("none", "list", "str"):
            I.throw(I.exc("TypeError"))
        return t.aspoly(mk("bflag", "cmp" + op, I.freeze(a), I.freeze(b)))
    if b.op == "app" and b.args[0] == "inf":
        return ONE if op in ("Lt", "LtE") else ZERO
    if a.op == "app" and a.args[0] == "inf":
        return ONE if op in ("Gt", "GtE") else ZERO
    f = {"Lt": t.lt, "LtE": t.le, "Gt": t.gt, "GtE": t.ge}[op]
    return f(a, b)


def faced(x):
    """does an element's own value show in x?"""
    seen = set()
    todo = [x]
    while todo:
        y = todo.pop()
        if y in seen or y.op in ("hd", "eq"):
            continue
        seen.add(y)
        if t.is_face(y) or y.op in ("var", "input") and y.args[-1] == "faces":
            return True
        t._scan(y.args, todo)
    return False


def textual(x):
    return x.op == "fstr" or x.op == "app" and x.args[0] in ("str", "repr", "format")


def identical(I, a, b):
    if a is b:
        return ONE
    for x, y in ((a, b), (b, a)):
        if x is NONE:
            if y.op == "ite":
                return I.fork(y.args[0], lambda: identical(I, y.args[1], NONE), lambda: identical(I, y.args[2], NONE))
            if numeric(y) or y.op in ("str", "tup", "seq", "rec", "ref", "clo", "cls", "builtin", "series", "nd", "arr", "mod", "bound", "place", "fstr", "input", "libcall", "inst", "excv", "list", "hdict", "set", "iter"):
                return ZERO
            return t.aspoly(mk("isnone", y))
    if numeric(a) and numeric(b):
        return t.aspoly(eq(a, b))
    if a.op in ("cls", "builtin", "clo") and b.op in ("cls", "builtin", "clo"):
        return ZERO
    if t.is_face(a) and t.is_face(b):
        I.event("face-identity", "elements compared by identity")
        return t.aspoly(eq(a, b))
    if a.op == "ref" and b.op == "ref":
        return ZERO
    return t.aspoly(mk("bflag", "is", I.freeze(a), I.freeze(b)))


def equal(I, a, b):
    if a is b:
        return ONE
    oa, ob = I.deref(a), I.deref(b)
    if t.is_face(a) and numeric(b) or t.is_face(b) and numeric(a):
        I.event("face-arith", "an element is compared with a number")
        return t.aspoly(unknown("face"))
    if oa.op == "inst" and oa.args[0].op == "cls":
        f = I.find_member(oa.args[0], "__eq__")
        if f is not None and f.op == "clo":
            return I.truth(I.call(f, [a, b], {}))
        if ob.op == "inst" and oa.args[0] is ob.args[0] and I.get(oa.args[0]).dataclass:
            r = ONE
            fb = dict(ob.args[1])
            for k, x in oa.args[1]:
                r = and_(r, t.aspoly(equal(I, x, fb[k])))
            return r
    if oa.op in ("list", "set") and ob.op == oa.op:
        x, y = I.freeze(oa.args[0]), I.freeze(ob.args[0])
        return t.aspoly(eq(x, y))
    if (oa.op == "list") != (ob.op == "list") and (is_seq(oa) or is_seq(ob)) and (oa.op == "list" or ob.op == "list"):
        # a list never equals a tuple
        other = ob if oa.op == "list" else oa
        if other.op == "tup":
            return ZERO
        x = oa.args[0] if oa.op == "list" else oa
        y = ob.args[0] if ob.op == "list" else ob
        return t.aspoly(eq(x, y))
    if oa.op == "rec":
        oa = I.to_seq(oa)
    if ob.op == "rec":
        ob = I.to_seq(ob)
    if oa.op == "tup" and ob.op == "tup":
        if len(oa.args) != len(ob.args):
            return ZERO
        r = ONE
        for x, y in zip(oa.args, ob.args):
            r = and_(r, t.aspoly(equal(I, x, y)))
        return r
    return t.aspoly(eq(I.freeze(oa) if oa.op in HEAPOPS else oa, I.freeze(ob) if ob.op in HEAPOPS else ob))


def member(I, x, c):
    if c.op == "ite":
        return I.fork(c.args[0], lambda: member(I, x, c.args[1]), lambda: member(I, x, c.args[2]))
    o = I.deref(c)
    if o.op == "hdict":
        return I.dhas(o.args[0], x)
    if o.op == "inst" and o.args[0].op == "cls":
        f = I.find_member(o.args[0], "__contains__")
        if f is not None and f.op == "clo":
            return I.truth(I.call(f, [c, x], {}))
        m = mixin(I, c, o, "__contains__")
        if m is not None:
            return I.truth(I.call(m, [x], {}))
    if o.op == "str" and x.op == "str":
        return ONE if x.args[0] in o.args[0] else ZERO
    if o.op in ("series",):
        return t.aspoly(unknown("in series"))
    s = as_seq(I, c)
    if s is None:
        return t.aspoly(mk("in", I.freeze(x), I.freeze(c)))
    return t.steps(seq_has(I, s, x))


def seq_has(I, s, x):
    if s.op in ("seq", "tup"):
        r = ZERO
        for y in s.args:
            r = or_(r, t.aspoly(equal(I, x, y)))
        return r
    if s.op == "cat":
        r = ZERO
        for p in s.args:
            r = or_(r, seq_has(I, p, x))
        return r
    if s.op == "ite":
        return ite(s.args[0], seq_has(I, s.args[1], x), seq_has(I, s.args[2], x))
    return gt0(t.ssum(s, lambda y: t.aspoly(equal(I, x, y))))


def truth_lib(I, v):
    return t.aspoly(mk("truth", v))


def to_seq_lib(I, v):
    if v.op == "input":
        return v.args[0]
    if v.op == "vcounts":
        return None
    if v.op == "libcall":
        s = mk("app", "libseq", v)
        return s
    if v.op in ("idx", "proj", "var", "fresh", "bv", "dget") and not numeric(v) and not t.is_face(v):
        return mk("app", "libseq", v)
    return None


t.SEQAPPS.add("libseq")
t.SEQAPPS.add("tail")


def dlist_seq(I, o):
    return mk("app", "dlseq", o.args[0])


# --------------------------------------------------------------------------- attributes


def attr(I, v, o, name):
    if o.op == "input":
        o = as_series(I, o)
    if o.op in ("series", "nd"):
        if name in ("values", "array"):
            return mk("nd", o.args[0])
        if name == "size":
            return length(o.args[0])
        if name == "shape":
            return mk("tup", length(o.args[0]))
        if name == "iloc":
            return mk("loc", "iloc", o)
        if name == "loc":
            return mk("loc", "loc", o)
        if name == "at" or name == "iat":
            return mk("loc", "iloc" if name == "iat" else "loc", o)
        if name == "hasnans":
            if all_ints(o.args[0]):
                return ZERO
            return t.aspoly(mk("bflag", "hasnans", o.args[0]))
        if name == "empty":
            return eq0(length(o.args[0]))
        if name == "index":
            if o.args[1] is NONE if o.op == "series" else True:
                return mk("nd", arange(ZERO, length(o.args[0]), ONE))
            return o.args[1] if o.args[1].op in ("tup", "seq") else mk("app", "index", o)
        if name == "T":
            return o
        if name == "dtype":
            return mk("app", "dtype", o.args[0])
        if name == "is_unique":
            return eq0(sub(set_len(o.args[0]), length(o.args[0])))
        if name == "name":
            return NONE
    if o.op == "vcounts":
        if name in ("values",):
            return mk("nd", mk("app", "vc_values", o.args[0]))
        if name in ("at", "loc"):
            return mk("loc", "loc", o)
        if name == "index":
            return mk("nd", mk("app", "vc_index", o.args[0]))
    if o.op == "hdict" and name == "default_factory" and o.args[2] == "defaultdict":
        return o.args[1]
    if o.op == "descr" and o.args[0] == "property" and name == "setter":
        return mk("deco", "setter", o)
    if o.op == "super":
        cls, self_ = o.args
        for x in I.mro(I.deref(self_).args[0] if I.deref(self_).op == "inst" else cls)[0:]:
            pass
        chain = I.mro(I.deref(self_).args[0]) if I.deref(self_).op == "inst" else I.mro(cls)
        if cls in chain:
            chain = chain[chain.index(cls) + 1:]
        for x in chain:
            if x.op == "cls":
                m = I.get(x).members.get(name)
                if m is not None:
                    return I.bind_member(m, self_, x)
                if I.get(x).dataclass and name == "__init__":
                    return mk("bound", self_, string("__dcinit__"))
        return mk("bound", self_, string("super." + name))
    if o.op == "libcall" and name not in ("items",):
        if o.args[0] == "scipy.stats.chisquare":
            return None
    if o.op == "excv" and name == "args":
        return mk("tup", *o.args[1])
    if o.op == "slice":
        i = {"start": 0, "stop": 1, "step": 2}.get(name)
        if i is not None:
            return o.args[i]
    return None


MIXIN_METHODS = ("keys", "values", "items", "get", "__contains__", "pop", "setdefault", "update")
SEQ_METHODS = ("__contains__", "__reversed__", "count", "append", "clear", "reverse", "extend", "pop", "remove", "__iadd__")


def mixin(I, v, o, name):
    """a method inherited from collections.abc.Mapping / MutableMapping"""
    if name not in MIXIN_METHODS + SEQ_METHODS or o.args[0].op != "cls":
        return None
    for x in I.mro(o.args[0]):
        if name in SEQ_METHODS and x.op == "builtin" and x.args[0].split(".")[-1] == "MutableSequence":
            return mk("bound", v, I.mod_attr("coinflip_sa_seqmixins", name))
        if name not in MIXIN_METHODS:
            continue
        if x.op == "builtin" and x.args[0].split(".")[-1] in ("Mapping", "MutableMapping"):
            m = I.mod_attr("coinflip_sa_mixins", name)
            return mk("bound", v, m)
    return None


def inst_attr(I, v, o, name):
    if o.args[0].op == "builtin":
        return mk("bound", v, string(name))
    m = mixin(I, v, o, name)
    if m is not None:
        return m
    for x in I.mro(o.args[0]):
        if x.op == "builtin" and x.args[0] not in ("object", "typing.Generic"):
            return mk("bound", v, string(name))
    if name in ("__dict__",):
        return unknown("__dict__")
    return None


def cls_attr(I, c, name):
    for x in I.mro(c):
        if x.op == "builtin" and x.args[0] != "object":
            return libname(x.args[0] + "." + name)
    if name == "__init__":
        return mk("builtin", "object.__init__")
    return None


def set_attr(I, v, o, name, x):
    if o.op == "clo":
        I.event("class-write", name)
        return
    if o.op == "hdict" and name == "default_factory" and o.args[2] == "defaultdict" and I.update(v, mk("hdict", o.args[0], x, o.args[2])):
        return
    I.event("lost-update", f".{name} =")


# --------------------------------------------------------------------------- items


def all_ints(s):
    """whether a sequence is known to hold integers only"""
    if s.op in ("seq", "tup"):
        return all(numeric(x) and t.is_int(x) for x in s.args)
    if s.op == "arr":
        return numeric(s.args[1].args[-1]) and t.is_int(s.args[1].args[-1])
    if s.op == "flat":
        return all_ints(s.args[1].args[-1])
    return False


GETITEM = []  # (names of abstract library objects, how they are subscripted)
TEXTSEQ = []  # readers of texts as sequences of characters


def getitem(I, v, k):
    if v.op == "ite":
        if numeric(v):
            I.throw(I.exc("TypeError"))
        return I.fork(v.args[0], lambda: getitem(I, v.args[1], k), lambda: getitem(I, v.args[2], k))
    if v.op == "input":
        v = as_series(I, v)
    o = I.deref(v)
    if v.op == "loc":
        return loc_get(I, v, k)
    if o.op == "fstr" or _strapp(o):
        for f in TEXTSEQ:
            q = f(I, o)
            if q is not None and k.op != "slice" and numeric(k):
                return index(q, t.aspoly(k))
        return mk("app", "substr", o, I.freeze(k))
    if o.op == "inst" and o.args[0].op == "builtin":
        for names, f in GETITEM:
            if o.args[0].args[0] in names:
                return f(I, o, k)
    if o.op == "hdict":
        return dict_get(I, v, o, k)
    if o.op == "dlist":
        d, dflt = o.args
        if k.op == "slice":
            lo, hi, st = [None if x is NONE else t.aspoly(x) for x in k.args]
            if st is not None or hi is None or const(hi) is not None and const(hi) < 0 or lo is not None and not t.prove_ge0(lo):
                return unknown("defaultlist slice")
            lo = ZERO if lo is None else lo
            v2 = fresh("nat")
            L = t.max2(sub(hi, lo), ZERO)
            with t.assume([t.aspoly(v2), sub(L, add(t.aspoly(v2), ONE))]):
                e = t.dget(d, add(lo, t.aspoly(v2)), dflt)
            return lst(I, t.arr(L, v2, e))
        return t.dget(d, k, dflt)
    if o.op == "series":
        return series_get(I, o, k)
    if o.op == "nd":
        if k.op == "slice":
            return mk("nd", do_slice(o.args[0], k))
        if k.op in ("nd", "series"):
            return mk("nd", mask(I, o.args[0], k))
        if k.op == "tup" and k.args:
            x = getitem(I, v, k.args[0])
            if len(k.args) > 1:
                if k.args[0].op == "slice":
                    return unknown("2-d slice")
                return getitem(I, x, k.args[1] if len(k.args) == 2 else mk("tup", *k.args[1:]))
            return x
        return index(o.args[0], k)
    if o.op == "vcounts":
        return vcounts_get(I, o, k)
    if o.op == "inst" and o.args[0].op == "cls":
        f = I.find_member(o.args[0], "__getitem__")
        if f is not None and f.op == "clo":
            return I.call(f, [v, k], {})
    if o.op == "rec":
        o = I.to_seq(o)
    if o.op in ("list", "lcontent") or is_seq(o):
        s = o.args[0] if o.op == "list" else o
        if k.op == "ite" and not numeric(k):
            return I.fork(k.args[0], lambda: getitem(I, v, k.args[1]), lambda: getitem(I, v, k.args[2]))
        if k.op == "slice":
            r = do_slice(s, k)
            return lst(I, r) if o.op == "list" else (_tup(r) if o.op == "tup" else r)
        if t.is_face(k):
            I.event("face-arith", "an element is used as an index")
            return unknown("face")
        if not (numeric(k) or k.op in LOOSE):
            I.throw(I.exc("TypeError"))
        n = length(s)
        kk = t.aspoly(k)
        c = const(kk)
        if c is not None and const(n) is not None and not -const(n) <= c < const(n):
            I.throw(I.exc("IndexError"))
        r = index(s, kk)
        if r.op in ("list", "hdict") and v.op in ("ref", "place"):
            return mk("lplace", v, kk)
        return r
    if o.op == "str":
        if k.op == "slice":
            a, b, c = [None if x is NONE else const(x) for x in k.args]
            if all(x is NONE or const(x) is not None for x in k.args):
                return string(o.args[0][slice(*[None if x is None else int(x) for x in (a, b, c)])])
            return mk("app", "substr", o, k)
        c = const(k)
        if c is not None:
            try:
                return string(o.args[0][int(c)])
            except IndexError:
                I.throw(I.exc("IndexError"))
        return mk("app", "char", o, k)
    if o.op == "builtin":
        n = o.args[0]
        items = k.args if k.op == "tup" else (k,)
        return mk("tgen", n, tuple(items))
    if o.op == "cls":
        return o
    if o.op == "tgen":
        return o
    if o.op in ("libcall", "app", "var", "idx", "proj", "fresh", "bv", "dget", "super"):
        return mk("libcall", "[]", (I.freeze(o), I.freeze(k)), ())
    if o.op == "inst":
        return mk("libcall", "[]", (I.freeze(v), I.freeze(k)), ())
    if o.op in ("none", "poly", "clo"):
        I.throw(I.exc("TypeError", string("not subscriptable")))
    return unknown("item")


def dict_get(I, v, o, k):
    d, fac, kind = o.args
    if k.op == "ite" and not numeric(k) and not t.is_face(k):
        return I.fork(k.args[0], lambda: getitem(I, v, k.args[1]), lambda: getitem(I, v, k.args[2]))
    if kind == "Counter":
        return I.dget(d, k, ZERO)
    if kind == "defaultdict" and fac is not NONE:
        has = t.aspoly(I.dhas(d, k)) if d.op == "dict" else None
        if has is not None and const(has) == 0:
            val = I.factory_value(o)
            d2 = I.dset(I.deref(v).args[0], k, val)
            I.update(v, mk("hdict", d2, fac, kind))
            return mk("place", v, I.hashable_key(k)) if val.op in HEAPOPS else val
        val = I.factory_value(o)
        r = I.dget(d, k, val)
        if r.op in HEAPOPS or _mayheap(r):
            return mk("place", v, I.hashable_key(k))
        return r
    r = I.dget(d, k, None)
    if r.op in HEAPOPS:
        return mk("place", v, I.hashable_key(k))
    return r


def _mayheap(r):
    if r.op == "ite":
        return _mayheap(r.args[1]) or _mayheap(r.args[2])
    if r.op == "dget":
        return r.args[2].op in HEAPOPS
    return r.op in HEAPOPS


def do_slice(s, k):
    lo, hi, st = [None if x is NONE else t.aspoly(x) for x in k.args]
    return slice_(s, lo, hi, st)


def series_get(I, o, k):
    s, idx = o.args
    if k.op == "slice":
        if idx is not NONE and not (idx.op == "app" and idx.args[0] in ("offset", "dupindex")) and idx.op not in ("tup", "seq"):
            I.event("custom-index", "slicing depends on the caller's index")
        lo, hi, st = k.args
        r = do_slice(s, k)
        if lo is NONE and st is NONE:
            return mk("series", r, idx)
        return mk("series", r, mk("app", "offset"))
    if k.op in ("series", "nd"):
        return mk("series", mask(I, s, k), mk("app", "offset"))
    if idx is NONE:
        # label lookup on the default index
        n = length(s)
        c = const(t.aspoly(k)) if numeric(k) else None
        if c is not None and c < 0:
            I.throw(I.exc("KeyError"))
        return index(s, t.aspoly(k))
    if idx.op == "tup":
        d = mk("dict", tuple((a, b, ONE) for a, b in zip(idx.args, s.args)))
        return I.dget(d, k, None)
    I.event("custom-index", "lookup by the caller's index")
    return unknown("index lookup")


def mask(I, s, k):
    m = k.args[0]
    L = length(s)
    v = fresh("nat")
    vp = t.aspoly(v)
    with t.assume([vp, sub(L, add(vp, ONE))]):
        c = t.aspoly(I.truth(index(m, vp)))
        e = index(s, vp)
    return t.flat(L, v, ite(c, seq(e), seq()))


def vcounts_get(I, o, k):
    """the number of occurrences of k, which is missing when there is none"""
    n = t.ssum(o.args[0], lambda y: t.aspoly(equal(I, k, y)))
    if not t.is_face(k):
        I.throw(I.exc("KeyError", k), not_(gt0(n)))
    return n


def loc_get(I, v, k):
    kind, o = v.args
    if o.op == "vcounts":
        return vcounts_get(I, o, k) if kind == "loc" and k.op != "slice" else unknown("loc")
    if kind == "iloc":
        if k.op == "slice":
            r = do_slice(o.args[0], k)
            return mk("series", r, mk("app", "offset")) if o.op == "series" else mk("nd", r)
        return index(o.args[0], t.aspoly(k))
    if k.op == "slice" and o.op == "series" and o.args[1] is NONE:
        lo, hi, st = k.args
        if hi is not NONE:
            hi = add(t.aspoly(hi), ONE)
        return mk("series", do_slice(o.args[0], mk("slice", lo, hi, st)), mk("app", "offset"))
    if o.op == "series" and k.op not in ("slice",):
        return series_get(I, o, k)
    return unknown("loc")


def setitem(I, v, k, x):
    if v.op == "ite":
        I.fork(v.args[0], lambda: setitem(I, v.args[1], k, x), lambda: setitem(I, v.args[2], k, x))
        return
    o = I.deref(v)
    if o.op == "hdict":
        d, fac, kind = o.args
        d2 = I.dset(d, k, x)
        if kind == "SortedDict" and d2.op == "dict" and d.op == "dict" and len(d2.args[0]) != len(d.args[0]):
            d2 = sort_dict(I, d2)
        I.update(v, mk("hdict", d2, fac, kind))
        return
    if o.op == "dlist":
        I.update(v, mk("dlist", I.dset(o.args[0], k, x), o.args[1]))
        return
    if o.op == "inst" and o.args[0].op == "cls":
        f = I.find_member(o.args[0], "__setitem__")
        if f is not None and f.op == "clo":
            I.call(f, [v, k, x], {})
            return
    if o.op == "list":
        s = o.args[0]
        if k.op == "slice":
            I.update(v, mk("list", set_slice(I, s, k, x)))
            return
        if v.op == "lplace":
            pass
        I.update(v, mk("list", t.lset(s, t.aspoly(k), x)))
        return
    if o.op in ("series", "nd", "input", "loc"):
        I.event("series-write", "")
        return
    if o.op == "inst":
        I.log_call(v, "__setitem__", [k, x], {})
        return
    if o.op == "libcall":
        I.event("lib-write", o.args[0])
        I.effect("setitem", o, I.freeze(k), I.freeze(x))
        return
    if o.op in ("tup", "str", "rec", "none", "poly"):
        I.throw(I.exc("TypeError"))
    I.event("lost-update", "item assignment")


def set_slice(I, s, k, x):
    lo, hi, st = k.args
    if st is not NONE:
        return unknown("slice assignment")
    n = length(s)
    lo = ZERO if lo is NONE else t.clampi(lo, n)
    hi = n if hi is NONE else t.clampi(hi, n)
    m = as_seq(I, x)
    if m is None:
        return unknown("slice assignment")
    return t.cat(slice_(s, None, lo), I.plain(m), slice_(s, hi, None))


def delitem(I, v, k):
    o = I.deref(v)
    if o.op == "hdict" and o.args[0].op == "dict":
        ents = list(o.args[0].args[0])
        for i, e in enumerate(ents):
            q = I.keyeq(I.hashable_key(k), e[0])
            if q is True:
                I.throw(I.exc("KeyError", k), not_(e[2]))
                del ents[i]
                I.update(v, mk("hdict", mk("dict", tuple(ents)), *o.args[1:]))
                return
        if all(I.keyeq(I.hashable_key(k), e[0]) is False for e in ents):
            I.throw(I.exc("KeyError", k))
        return I.update(v, mk("hdict", unknown("del"), *o.args[1:])) and None
    if o.op == "inst" and o.args[0].op == "cls":
        f = I.find_member(o.args[0], "__delitem__")
        if f is not None and f.op == "clo":
            I.call(f, [v, k], {})
            return
    if o.op == "list":
        s = o.args[0]
        kk = t.aspoly(k)
        I.update(v, mk("list", t.cat(slice_(s, None, kk), slice_(s, add(kk, ONE), None))))
        return
    I.event("lost-update", "del item")


# --------------------------------------------------------------------------- methods

INPLACE = {"sort", "reverse", "append", "extend", "insert", "pop", "remove", "clear", "fill", "put", "resize",
           "sort_values", "sort_index", "fillna", "drop", "replace", "rename", "drop_duplicates", "dropna", "update", "reset_index",
           "set_index", "set_axis", "clip", "mask", "where", "rename_axis", "interpolate", "ffill", "bfill", "partition", "itemset", "setflags"}


ALWAYS = {"sort", "reverse", "extend", "insert", "pop", "remove", "clear", "fill", "put", "resize", "partition", "itemset", "setflags", "update"}


def method(I, recv, name, args, kw):
    if recv.op == "ite":
        return I.fork(
            recv.args[0], lambda: I.call(I.getattr(recv.args[1], name), args, kw),
            lambda: I.call(I.getattr(recv.args[2], name), args, kw),
        )
    if recv.op == "clo":
        if name == "cache_clear":
            return NONE
        return unknown("function attribute")
    if recv.op == "cls":
        if name == "_make":
            s = as_seq(I, args[0])
            if s is not None:
                fs = I.get(recv).fields
                return mk("rec", recv, tuple((n, index(s, num(i))) for i, (n, _) in enumerate(fs)))
        return unknown("class method")
    if recv.op == "input":
        o = as_series(I, recv)
        if name in INPLACE and (const(t.aspoly(I.truth(kw.get("inplace", ZERO)))) != 0 or name in ALWAYS):
            I.event("mutates-input", name)
        return method_series(I, o, name, args, kw)
    o = I.deref(recv)
    op = o.op
    if op in ("seq", "bytes") and name in I.hooks:
        r = I.hooks[name](I, recv, o, args, kw)
        if r is not None:
            return r
    if op == "list":
        return method_list(I, recv, o, name, args, kw)
    if op in ("hdict",):
        return method_dict(I, recv, o, name, args, kw)
    if op == "set":
        return method_set(I, recv, o, name, args, kw)
    if op == "dlist":
        return method_dlist(I, recv, o, name, args, kw)
    if op in ("series", "nd"):
        if name in INPLACE and const(t.aspoly(I.truth(kw.get("inplace", ZERO)))) != 0 or op == "nd" and name in ALWAYS:
            I.event("series-write", name)
        return method_series(I, o, name, args, kw)
    if op == "vcounts":
        return method_vcounts(I, o, name, args, kw)
    if op == "str" or op == "fstr" or _strapp(o):
        return method_str(I, o, name, args, kw)
    if op == "rec":
        if name == "_asdict":
            d = mk("dict", tuple((string(k), x, ONE) for k, x in o.args[1]))
            return I.alloc(mk("hdict", d, NONE, "dict"))
        if name == "_replace":
            f = dict(o.args[1])
            f.update(kw)
            return mk("rec", o.args[0], tuple(f.items()))
        return method(I, I.to_seq(o), name, args, kw)
    if is_seq(o) and op not in ("var", "fresh", "bv", "idx", "proj"):
        if name == "index" or name == "count":
            return method_list(I, recv, mk("list", I.plain(o)), name, args, kw)
        if name == "copy":
            return o
    if op in ("iter", "lazy"):
        if name == "__next__":
            return f_next(I, [recv], {})
        if name in ("close",):
            return NONE
    if op == "inst":
        if name == "__dcinit__":
            cls = o.args[0]
            return NONE
        return I.log_call(recv, name, args, kw)
    if numeric(o) or op in ("dget", "proj", "idx") and not (op == "idx" and o.args[2] == "face"):
        if name == "is_integer":
            return ONE if t.is_int(o) else eq0(sub(o, t.floor_(o)))
        if name == "bit_length":
            return t.aspoly(mk("app", "bit_length", t.aspoly(o)))
        if name in ("item", "conjugate", "copy"):
            return o
        if name in ("astype",):
            return o
        if name in ("sum", "max", "min"):
            return o
    if t.is_face(o):
        I.event("face-arith", f"method {name} of an element")
        return unknown("face")
    if op in ("str", "none", "tup", "poly", "seq"):
        I.throw(I.exc("AttributeError", string(name)))
    if op == "builtin":
        return call_builtin(I, o.args[0] + "." + name, args, kw)
    return I.log_call(recv, name, args, kw)


def method_list(I, recv, o, name, args, kw):
    s = o.args[0]
    if name == "append":
        I.update(recv, mk("list", t.cat(s, seq(args[0]))))
        return NONE
    if name == "extend":
        q = as_seq(I, args[0])
        I.update(recv, mk("list", t.cat(I.deref(recv).args[0], I.plain(q)) if q is not None else unknown("extend")))
        return NONE
    if name == "insert":
        n = length(s)
        c = t.clampi(args[0], n)
        I.update(recv, mk("list", t.cat(slice_(s, None, c), seq(args[1]), slice_(s, c, None))))
        return NONE
    if name == "pop":
        n = length(s)
        if not args:
            I.throw(I.exc("IndexError"), t.aspoly(eq0(n)))
            r = index(s, num(-1))
            I.update(recv, mk("list", slice_(s, None, sub(n, ONE))))
            return r
        i = t.aspoly(args[0])
        c = const(i)
        if c is not None and c < 0:
            i = add(n, i)
        r = index(s, i)
        I.update(recv, mk("list", t.cat(slice_(s, None, i), slice_(s, add(i, ONE), None))))
        return r
    if name == "clear":
        I.update(recv, mk("list", seq()))
        return NONE
    if name == "copy":
        return lst(I, s)
    if name == "reverse":
        I.update(recv, mk("list", t.reverse(s)))
        return NONE
    if name == "sort":
        I.update(recv, mk("list", sortseq(I, s, kw.get("key"), kw.get("reverse", ZERO))))
        return NONE
    if name == "count":
        return t.ssum(s, lambda y: t.aspoly(equal(I, args[0], y)))
    if name == "index":
        if s.op in ("seq", "tup"):
            r = None
            some_ = ZERO
            for i in range(len(s.args) - 1, -1, -1):
                c = t.aspoly(equal(I, args[0], s.args[i]))
                some_ = or_(some_, c)
                r = num(i) if r is None else ite(c, num(i), r)
            I.throw(I.exc("ValueError"), not_(t.steps(some_)))
            return t.steps(r) if r is not None else unknown("index")
        L = length(s)
        v = fresh("nat")
        with t.assume([t.aspoly(v), sub(L, add(t.aspoly(v), ONE))]):
            c = t.aspoly(equal(I, args[0], index(s, t.aspoly(v))))
        I.throw(I.exc("ValueError"), not_(gt0(sum_(L, v, c))))
        return t.first(L, t.mklam([v], c))
    if name == "remove":
        if s.op == "seq":
            cs = [const(t.aspoly(equal(I, args[0], y))) for y in s.args]
            if 1 in cs and all(c == 0 for c in cs[:cs.index(1)]):
                i = cs.index(1)
                I.update(recv, mk("list", seq(*s.args[:i], *s.args[i + 1:])))
                return NONE
        I.update(recv, mk("list", unknown("remove")))
        return NONE
    if name == "__len__":
        return length(s)
    if name == "__getitem__":
        return getitem(I, recv, args[0])
    I.throw(I.exc("AttributeError", string(name)))


def method_dict(I, recv, o, name, args, kw):
    d, fac, kind = o.args
    if name == "keys":
        s = I.dkeys(d)
        return mk("dview", "keys", s) if False else (s if s is not None else unknown("keys"))
    if name == "values":
        s = I.dvalues(d)
        return s if s is not None else unknown("values")
    if name == "items":
        s = I.ditems(d)
        return s if s is not None else unknown("items")
    if name == "get":
        dflt = args[1] if len(args) > 1 else kw.get("default", NONE)
        return I.dget(d, args[0], dflt)
    if name == "setdefault":
        dflt = args[1] if len(args) > 1 else NONE
        has = t.aspoly(I.dhas(d, args[0]))
        if const(has) == 1:
            return dict_get(I, recv, o, args[0])
        if const(has) == 0:
            setitem(I, recv, args[0], dflt)
            return dflt
        cur = I.dget(d, args[0], I.freeze(dflt))
        I.update(recv, mk("hdict", I.dset(d, args[0], cur), fac, kind))
        if _mayheap(cur):
            return mk("place", recv, I.hashable_key(args[0]))
        return cur
    if name == "pop":
        k = args[0]
        if d.op == "dict":
            for e in d.args[0]:
                if I.keyeq(I.hashable_key(k), e[0]) is True and const(e[2]) == 1:
                    delitem(I, recv, k)
                    return e[1]
            if all(I.keyeq(I.hashable_key(k), e[0]) is False for e in d.args[0]):
                if len(args) > 1:
                    return args[1]
                I.throw(I.exc("KeyError", k))
        I.update(recv, mk("hdict", unknown("pop"), fac, kind))
        return unknown("pop")
    if name == "update":
        if args:
            if kind == "Counter":
                ob = I.deref(args[0])
                if ob.op != "hdict":
                    s = as_seq(I, args[0])
                    I.update(recv, mk("hdict", tally_of(I, d, s), fac, kind))
                    return NONE
                I.update(recv, mk("hdict", unknown("counter update"), fac, kind))
                return NONE
            ob = I.deref(args[0])
            if ob.op == "hdict":
                d = I.dict_merge(d, args[0])
            else:
                d = I.dict_from_pairs(d, as_seq(I, args[0]))
        for k, x in kw.items():
            d = I.dset(d, string(k), x)
        I.update(recv, mk("hdict", d, fac, kind))
        return NONE
    if name == "copy":
        return I.alloc(mk("hdict", d, fac, kind))
    if name == "clear":
        I.update(recv, mk("hdict", mk("dict", ()), fac, kind))
        return NONE
    if name == "most_common":
        items = I.ditems(d)
        if items is None:
            return unknown("most_common")
        return mk("app", "most_common", items, *[I.freeze(a) for a in args])
    if name == "elements":
        return mk("app", "elements", d)
    if name == "peekitem":
        ks = I.ditems(d)
        return index(ks, t.aspoly(args[0]) if args else num(-1))
    if name in ("bisect_left", "bisect_right", "bisect"):
        ks = I.dkeys(d)
        return bisect("left" if name == "bisect_left" else "right")(I, [ks, args[0]], {})
    if name == "__getitem__":
        return dict_get(I, recv, o, args[0])
    if name == "__contains__":
        return I.dhas(d, args[0])
    if name == "__len__":
        return I.dlen(d)
    if name == "irange":
        return unknown("irange")
    if name == "popitem":
        I.update(recv, mk("hdict", unknown("popitem"), fac, kind))
        return unknown("popitem")
    if name == "default_factory":
        return fac
    if name == "fromkeys":
        return unknown("fromkeys")
    if name == "total":
        return f_sum(I, [I.dvalues(d)], {})
    I.throw(I.exc("AttributeError", string(name)))


def method_set(I, recv, o, name, args, kw):
    s = o.args[0]
    if name == "add":
        I.update(recv, mk("set", t.cat(s, seq(args[0])) if s.op in ("seq", "cat", "arr", "flat", "fresh") or is_seq(s) else unknown("set")))
        return NONE
    if name in ("update",):
        q = as_seq(I, args[0])
        I.update(recv, mk("set", t.cat(s, I.plain(q)) if q is not None else unknown("set")))
        return NONE
    if name == "copy":
        return I.alloc(o)
    if name in ("pop", "remove", "discard", "clear"):
        I.update(recv, mk("set", unknown("set")))
        return unknown("set")
    return I.alloc(mk("set", unknown("set." + name)))


def method_dlist(I, recv, o, name, args, kw):
    I.update(recv, mk("dlist", unknown("defaultlist." + name), o.args[1]))
    return unknown("defaultlist." + name)


INDEXED = ("sort_index", "reindex", "align", "get", "xs", "filter", "truncate", "asof", "to_dict", "items", "iteritems", "combine_first", "add", "append", "join", "groupby",
           "resample", "idxmax", "idxmin", "drop", "to_frame", "interpolate")


def method_series(I, o, name, args, kw):
    s = o.args[0]
    isser = o.op == "series"
    idx = o.args[1] if isser else NONE

    def ret(x, i=idx):
        return mk("series", x, i) if isser else mk("nd", x)

    if name in INDEXED and idx.op == "var":
        I.event("custom-index", name + " by the caller's index")
    if name == "reset_index":
        if const(t.aspoly(I.truth(kw.get("drop", args[1] if len(args) > 1 else ZERO)))) == 1:
            return mk("series", s, NONE)
        I.event("custom-index", "the index becomes data")
        return unknown("reset_index without drop")
    if name in ("sum",):
        return f_sum(I, [o], {})
    if name == "mean":
        return div(t.aspoly(f_sum(I, [o], {})), length(s))
    if name in ("max", "min"):
        return FUNCS[name](I, [o], {})
    if name in ("count",):
        return length(s)
    if name == "any":
        return some(I, s)
    if name == "all":
        return f_all(I, [o], {})
    if name in ("tolist", "to_list"):
        return lst(I, s)
    if name in ("to_numpy", "flatten", "ravel"):
        return mk("nd", s)
    if name in ("copy", "infer_objects", "convert_dtypes"):
        return o
    if name == "astype":
        ty = args[0]
        nm = ty.args[0] if ty.op in ("builtin", "str") else "?"
        if contains_face(s):
            if nm in ("category", "object"):
                return o
            I.event("face-arith", "elements are cast")
            return unknown("face")
        if nm in ("int", "float", "int64", "float64", "numpy.int64", "numpy.float64", "int8", "int32", "bool", "numpy.int8", "uint8", "numpy.uint8", "numpy.int32", "Int64"):
            if nm in ("bool",):
                return ret(t.smap(s, lambda x: t.aspoly(I.truth(x))))
            if "int" in nm.lower():
                return ret(t.smap(s, lambda x: t.trunc(x)))
            return o
        return o
    if name == "abs":
        if s.op == "app" and s.args[0] == "fft":
            pass
        return ret(t.smap(s, lambda x: modulus(I, x)))
    if name == "cumsum":
        r = cumsum(I, s)
        return ret(r)
    if name in ("unique",):
        if is_input_values(s):
            return mk("nd", uniq2(s))
        return mk("nd", mk("app", "uniq", s))
    if name == "nunique":
        if is_input_values(s):
            return t.aspoly(mk("app", "ndistinct", s))
        if contains_face(s):
            return t.aspoly(mk("app", "ndistinct", s))
        return t.aspoly(set_len(s))
    if name == "value_counts":
        if kw or args:
            return unknown("value_counts with options")
        return mk("vcounts", s)
    if name == "map" or name == "apply" or name == "replace":
        f = args[0]
        fo = I.deref(f)
        if fo.op == "hdict":
            dd = fo.args[0]
            if dd.op == "dict":
                return ret(t.smap(s, lambda x: I.dget(dd, x, x if name == "replace" else mk("app", "nan"))))
            return unknown("map")
        return ret(I.map_loop(s, lambda x: I.call(f, [x], {})))
    if name == "items" or name == "iteritems":
        if idx is NONE:
            return itr(I, enum(s, ZERO))
        if is_seq(idx):
            return itr(I, zipn([idx, s]))
        v = fresh("nat")
        return itr(I, t.arr(length(s), v, mk("tup", mk("app", "label", t.aspoly(v)), index(s, t.aspoly(v)))))
    if name == "nlargest":
        n = args[0] if args else kw.get("n", num(5))
        if const(n) == 1:
            return mk("series", seq(FUNCS["max"](I, [o], {})), mk("app", "offset"))
        return unknown("nlargest")
    if name == "nsmallest":
        n = args[0] if args else num(5)
        if const(n) == 1:
            return mk("series", seq(FUNCS["min"](I, [o], {})), mk("app", "offset"))
        return unknown("nsmallest")
    if name == "shift":
        return unknown("shift")
    if name == "diff":
        return unknown("diff")
    if name == "head":
        n = args[0] if args else num(5)
        return ret(slice_(s, None, t.aspoly(n)))
    if name == "tail":
        n = t.aspoly(args[0] if args else num(5))
        L = length(s)
        return mk("series", slice_(s, t.max2(sub(L, n), ZERO), None), mk("app", "offset"))
    if name in ("eq", "ne", "lt", "le", "gt", "ge"):
        return compare(I, {"eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE"}[name], o, args[0])
    if name in ("add", "sub", "mul", "div", "pow"):
        return binop(I, {"add": "Add", "sub": "Sub", "mul": "Mult", "div": "Div", "pow": "Pow"}[name], o, args[0])
    if name == "append":
        return f_concat(I, [mk("tup", o, args[0])], {})
    if name in ("isna", "isnull"):
        return ret(t.smap(s, lambda x: t.aspoly(mk("bflag", "isna", x))))
    if name == "drop_duplicates" and not args and not kw and is_input_values(s):
        return mk("series", mk("app", "uniq", s), unknown("drop_duplicates's index"))
    if name == "sort_values" and not args and set(kw) <= {"ascending", "ignore_index"}:
        up = kw.get("ascending", ONE)
        if const(t.aspoly(up)) in (0, 1):
            return mk("series", mk("app", "sorted", s, NONE, sub(ONE, t.aspoly(up))), unknown("sort_values's index"))
    if name == "dropna":
        return unknown("dropna")
    if name == "item":
        return index(s, ZERO)
    if name == "iloc":
        return unknown("iloc call")
    if name == "get":
        return unknown("Series.get")
    if name == "reshape":
        dims = list(args[0].args) if args and args[0].op in ("tup", "seq") else list(args)
        return reshape(I, s, dims)
    if name in ("idxmax", "argmax"):
        return unknown(name)
    if name == "std" or name == "var":
        return unknown(name)
    if name == "rename":
        return o
    if name == "sort_index":
        return unknown("sort_index")
    if name == "rolling":
        return unknown("rolling")
    I.event("lib-unmodelled", "Series." + name)
    return unknown("Series." + name)


def reshape(I, s, dims):
    dims = [t.aspoly(d) for d in dims]
    if len(dims) == 1:
        return mk("nd", s)
    L = length(s)
    if len(dims) == 2:
        a, b = dims
        if const(a) == -1:
            a = div(L, b)
            if not t.is_int(a):
                a = t.floordiv(L, b)
        elif const(b) == -1:
            b = t.floordiv(L, a)
        v = fresh("nat")
        vp = t.aspoly(v)
        with t.assume([vp, sub(a, add(vp, ONE))]):
            e = mk("nd", slice_(s, mul(vp, b), mul(add(vp, ONE), b)))
        return mk("nd", t.arr(a, v, e))
    return unknown("reshape")


def modulus(I, x):
    if t.is_face(x):
        I.event("face-arith", "modulus of an element")
        return unknown("face")
    if x.op == "idx" and x.args[0].op == "app" and x.args[0].args[0] == "fft":
        return t.aspoly(mk("fftabs", x.args[0].args[1], t.aspoly(x.args[1])))
    return t.abs_(t.aspoly(x))


def is_input_values(s):
    return s.op == "var" and s.args[1] == "faces"


def uniq2(s):
    """the two distinct values in order of appearance"""
    x0 = index(s, ZERO)
    h = t.aspoly(t.hd(x0))
    return seq(ite(h, t.HEADS, t.TAILS), ite(h, t.TAILS, t.HEADS))


def method_vcounts(I, o, name, args, kw):
    s = o.args[0]
    if name == "get":
        d = args[1] if len(args) > 1 else kw.get("default", NONE)
        n = t.ssum(s, lambda y: t.aspoly(equal(I, args[0], y)))
        if d is NONE:
            return ite(gt0(n), n, NONE)
        if const(t.aspoly(d) if numeric(d) else ONE) == 0 and numeric(d):
            return n
        return ite(gt0(n), n, d)
    if name in ("keys", "items", "values", "to_dict"):
        d = tally_of(I, mk("dict", ()), s)
        if name == "items":
            return mk("app", "vc_items", s)
        if name == "to_dict":
            return I.alloc(mk("hdict", d, NONE, "dict"))
        return mk("nd", mk("app", "vc_" + name, s))
    if name == "max":
        return mk("app", "vc_max", s)
    return unknown("value_counts." + name)


def method_str(I, o, name, args, kw):
    if name == "join":
        s = as_seq(I, args[0])
        if s is None:
            return unknown("join")
        return join(I, o, s)
    if o.op == "str":
        x = o.args[0]
        try:
            if name in ("upper", "lower", "strip", "title", "capitalize", "lstrip", "rstrip") and all(a.op == "str" for a in args):
                return string(getattr(x, name)(*[a.args[0] for a in args]))
            if name == "split" and all(a.op == "str" for a in args):
                return lst(I, seq(*[string(y) for y in x.split(*[a.args[0] for a in args])]))
            if name == "replace" and all(a.op == "str" for a in args):
                return string(x.replace(*[a.args[0] for a in args]))
            if name in ("startswith", "endswith") and args[0].op == "str":
                return ONE if getattr(x, name)(args[0].args[0]) else ZERO
            if name == "find" and args[0].op == "str":
                return num(x.find(args[0].args[0]))
            if name == "format":
                plain = [a.args[0] if a.op == "str" else int(t.const(t.aspoly(a))) if numeric(a) and not t.is_face(a) and t.const(t.aspoly(a)) is not None and t.const(t.aspoly(a)).denominator == 1 else None for a in args]
                if None not in plain and not kw:
                    return string(x.format(*plain))
                return mk("app", "strformat", o, *[I.freeze(a) for a in args], *[mk("tup", string(k), I.freeze(z)) for k, z in sorted(kw.items())])
        except Exception:
            pass
    if name in ("find", "count", "index", "rfind"):
        return t.aspoly(mk("app", "str" + name, o, *[I.freeze(a) for a in args]))
    if name in ("startswith", "endswith", "isdigit", "isspace"):
        return t.aspoly(mk("bflag", "str" + name, o, *[I.freeze(a) for a in args]))
    if name in ("split", "splitlines"):
        return mk("app", "libseq", mk("app", "strsplit", o, *[I.freeze(a) for a in args]))
    return mk("app", "strip" if name == "strip" else "str" if False else "strm_" + name, o, *[I.freeze(a) for a in args])


def join(I, sep, s):
    if s.op in ("seq", "tup"):
        out = []
        for i, x in enumerate(s.args):
            if i:
                out.append(sep)
            out.append(x)
        return I.fstr(out)
    if s.op == "ite":
        return ite(s.args[0], join(I, sep, s.args[1]), join(I, sep, s.args[2]))
    return mk("app", "join", sep, s)
