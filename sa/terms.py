"""Hash-consed value terms in normal form.

Numbers are generalised polynomials with rational coefficients and exponents
over atoms; booleans are 0/1-valued polynomials over comparison atoms; sequences
are concrete (`seq`), length + element function (`arr`), concatenations (`cat`)
or concatenated per-index pieces (`flat`).  Equality of terms is identity.
"""
import gc
import zlib
from fractions import Fraction


def F(a=0, b=None):
    """rational numbers; whole ones are ints"""
    if b is None:
        if type(a) is int:
            return a
        r = Fraction(a)
    else:
        r = Fraction(a, b)
    return r.numerator if r.denominator == 1 else r


def qd(a, b):
    if type(a) is int and type(b) is int:
        r = Fraction(a, b)
    else:
        r = Fraction(a) / b
    return r.numerator if r.denominator == 1 else r


def qpow(a, e):
    if e < 0:
        return qd(1, qpow(a, -e))
    return a ** e

from math import gcd, isqrt

gc.disable()  # terms are kept for good

# ----------------------------------------------------------------------------
# nodes


class T:
    __slots__ = ("op", "args", "id", "hgt", "fv", "size", "flags")

    def __repr__(self):
        return pretty(self)

    def __reduce__(self):
        raise TypeError


_tab = {}
_count = [0]
EMPTY = frozenset()


def _scan(args, acc):
    for a in args:
        if type(a) is T:
            acc.append(a)
        elif type(a) is tuple:
            _scan(a, acc)


BAD_OPS = {"unknown", "fold", "while", "havoc", "opaque"}


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    _count[0] += 1
    t.id = _count[0]
    kids = []
    _scan(args, kids)
    h = -1
    fv = None
    size = 1
    flags = op in BAD_OPS
    for k in kids:
        if k.hgt > h:
            h = k.hgt
        if k.fv:
            fv = k.fv if fv is None else (fv | k.fv)
        size += k.size
        flags = flags or k.flags
    if op == "fresh":
        fv = frozenset([t])
    if op == "lam":
        h = max(h, args[0])
    t.hgt = h
    t.fv = fv or EMPTY
    t.size = min(size, 10 ** 9)
    t.flags = flags
    _tab[key] = t
    return t


_fresh = [0]


def fresh(kind="nat", hint=""):
    _fresh[0] += 1
    return mk("fresh", _fresh[0], kind)


def var(name, kind="any"):
    return mk("var", name, kind)


NONE = mk("none")
ELLIPSIS = mk("ellipsis")


def string(s):
    return mk("str", s)


# ----------------------------------------------------------------------------
# polynomials.  dict form: {mono: Fraction}, mono = tuple of (atom, Fraction)


def _mkey(mono):
    return tuple((a.id, e) for a, e in mono)


def mkpoly(d):
    items = [(m, c if type(c) is int or c.denominator != 1 else int(c)) for m, c in d.items() if c]
    if len(items) == 1:
        m, c = items[0]
        if c == 1 and len(m) == 1 and m[0][1] == 1 and untyped(m[0][0]):
            return m[0][0]
    items.sort(key=lambda it: _mkey(it[0]))
    return mk("poly", tuple(items))


def num(c):
    c = F(c)
    if c == 0:
        return ZERO
    return mk("poly", (((), c),))


ZERO = mk("poly", ())
ONE = mk("poly", (((), F(1)),))
TRUE, FALSE = ONE, ZERO

#: ops of terms that are not numbers
NONNUM = {
    "str", "none", "seq", "arr", "cat", "flat", "tup", "lam", "dict", "ref", "clo", "cls",
    "mod", "rec", "ite", "builtin", "bound", "obj", "ellipsis", "excv", "tally", "scat",
    "slice", "fstr", "rangeo", "uset", "lset", "lcontent", "list", "hdict", "set", "iter", "inst", "series", "nd",
    "dset", "scat", "dgroup", "missing", "lazy", "dlist", "unbound", "partial", "descr", "libcall", "tgen", "input", "dlcontent",
}

#: kinds of atoms: 'bool', 'nat', 'int', 'real' (numeric) or 'any'
ATOM_KIND = {
    "ge0": "bool", "gt0": "bool", "eq0": "bool", "eq": "bool", "hd": "bool", "isnone": "bool",
    "truth": "bool", "in": "bool", "isinst": "bool", "lt": "bool", "present": "bool",
    "floor": "int", "abs": "real", "sum": "real", "grp": "real", "pow": "real",
    "nroot": "real", "econst": "real", "pi": "real", "log": "real", "erfc": "real",
    "gammaincc": "real", "len": "nat", "maxr": "real", "hyp1f1": "real",
    "sumv": "real", "fftabs": "real", "trunc": "int", "trig": "real", "num": "real",
    "band": "nat", "bxor": "nat", "bor": "nat", "shl": "nat", "shr": "nat", "normcdf": "real",
    "tget": "nat", "dhas": "bool", "bflag": "bool", "first": "nat", "xor": "bool", "def": "real",
}


def atom_kind(a):
    op = a.op
    if op in ("var", "fresh"):
        return a.args[1]
    if op == "bv":
        return a.args[2]
    k = ATOM_KIND.get(op)
    if k is None:
        if op == "app":
            if a.args[0] in ("maxseq", "minseq"):
                return _most_kind(a)
            return APP_KIND.get(a.args[0], "any")
        if op == "proj":
            return a.args[2]
        if op == "idx":
            return a.args[2]
        if op == "unknown":
            return "any"
        return "any"
    if op == "sum":
        return "int" if is_int(a.args[1].args[2]) else "real"
    if op in ("maxr", "maxi"):
        return "int" if is_int(a.args[1].args[2]) and (op == "maxr" or is_int(a.args[2])) else "real"
    if op == "abs":
        return "nat" if is_int(a.args[0]) else "real"
    if op == "pow":
        base, ex = a.args
        if const(base) is not None and const(base).denominator == 1 and is_int(ex) and (
            nonneg(ex)
        ):
            return "int"
        return "real"
    if op == "grp":
        return "real"
    if op == "def":
        return a.args[1]
    return k


_mk = {}


def _most_kind(a):
    """kind of the largest element of an opaque sequence"""
    r = _mk.get(a)
    if r is None:
        _mk[a] = "any"
        r = elem_kind(a.args[1], {})
        if a.args[2] is not NONE:
            r = _join_kind(r, _kind_of(a.args[2]))
        if r not in NUMKINDS:
            r = "any"
        elif r == "bool":
            r = "nat"
        _mk[a] = r
    return r


def define(x):
    """name a large numeric expression: one opaque atom standing for it"""
    x = aspoly(x)
    d = pdict(x)
    if len(d) <= 3 and x.size < 400:
        return x
    if len(d) <= 2 and sum(len(m) for m in d) == 1 and any(a.op == "def" for m in d for a, _ in m):
        return x
    k = "nat" if is_int(x) and nonneg(x) else "int" if is_int(x) else "real"
    return mk("def", x, k)


APP_KIND = {}

NUMKINDS = {"bool", "nat", "pos", "int", "real"}


def untyped(a):
    return atom_kind(a) not in NUMKINDS


def is_poly(t):
    return t.op == "poly"


def numeric(t):
    """is t known to be a number"""
    if t.op == "poly":
        return True
    if t.op in NONNUM:
        return False
    return not untyped(t)


def const(t):
    """Fraction if t is a numeric constant"""
    if t.op == "poly":
        a = t.args[0]
        if not a:
            return F(0)
        if len(a) == 1 and a[0][0] == ():
            return a[0][1]
    return None


def pdict(t):
    if t.op == "poly":
        return dict(t.args[0])
    if t.op == "ite":
        c, a, b = t.args
        r = add(mul(c, _numof(a)), mul(sub(ONE, c), _numof(b)))
        if r.op == "poly":
            return dict(r.args[0])
        return {((r, F(1)),): F(1)}
    if t.op in NONNUM:
        return {((mk("num", t), F(1)),): F(1)}
    return {((t, F(1)),): F(1)}


def _numof(t):
    if t.op == "poly":
        return t
    return mkpoly(pdict(t))


def aspoly(t):
    """numeric view of a term"""
    return t if t.op == "poly" else mkpoly(pdict(t))


def add(*ts):
    d = None
    for t in ts:
        if d is None:
            d = pdict(t)
            continue
        for m, c in pdict(t).items():
            s = d.get(m, 0) + c
            if s:
                d[m] = s
            else:
                d.pop(m, None)
    return mkpoly(d or {})


def scale(t, c):
    c = F(c)
    if c == 0:
        return ZERO
    return mkpoly({m: k * c for m, k in pdict(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, scale(b, -1))


BOOLOPS = {"ge0", "gt0", "eq0", "eq", "hd", "isnone", "truth", "in", "isinst", "lt", "present", "dhas", "bflag"}


def is_boolatom(a):
    return a.op in BOOLOPS or (a.op in ("var", "fresh", "bv") and atom_kind(a) == "bool")


def _special(a):
    return a.op in ("abs", "nroot", "grp") or (a.op == "pow" and const(a.args[0]) == -1) or is_boolatom(a)


_mm_cache = {}


def mono_mul(m1, m2):
    """product of two monomials -> poly dict"""
    if not m1:
        return {m2: F(1)}
    if not m2:
        return {m1: F(1)}
    key = (m1, m2)
    r = _mm_cache.get(key)
    if r is None:
        r = _mono_mul(m1, m2)
        _mm_cache[key] = r
    return dict(r)


def _mono_mul(m1, m2):
    e = {}
    for a, x in m1:
        e[a] = e.get(a, 0) + x
    for a, x in m2:
        e[a] = e.get(a, 0) + x
    return _mono_norm(e)


def _mono_norm(e):
    coef = F(1)
    extra = []  # polys to multiply in
    bools = []
    out = {}
    for a, x in e.items():
        if x == 0:
            continue
        op = a.op
        if is_boolatom(a):
            if x > 0:
                bools.append(a)
                continue
            out[a] = x
            continue
        if op == "abs":
            k = 2 * (x.numerator // (2 * x.denominator)) if x >= 0 else -2 * (
                (-x.numerator) // (2 * x.denominator)
            )
            if k:
                extra.append(pow_(a.args[0], F(k)))
                x = x - k
                if x == 0:
                    continue
        elif op == "nroot":
            k = x.numerator // x.denominator
            if k:
                coef *= qpow(F(a.args[0]), k)
                x -= k
                if x == 0:
                    continue
        elif op == "pow" and const(a.args[0]) == -1:
            if x.denominator == 1:
                x = F(x.numerator % 2)
                if x == 0:
                    continue
        elif op == "grp":
            if x >= 1:
                k = x.numerator // x.denominator
                extra.append(pow_(a.args[0], F(k)))
                x -= k
                if x == 0:
                    continue
        out[a] = x
    if len(bools) > 1:
        b2 = bool_product(bools)
        if b2 is None:
            return {}
        bools = b2
    for b in bools:
        if b.op == "eq0" and b.fv:
            pt = _point(b)
            if pt is None:
                continue
            v, val = pt
            hit = [a for a in list(out) + bools if a is not b and v in a.fv]
            if hit:
                # under v = val the other factors are taken there
                res = {(): coef}
                for a, x in out.items():
                    y = subst(a, {v: val}) if v in a.fv else None
                    res = _dmul(res, pdict(pow_(aspoly(y), x)) if y is not None else {((a, x),): F(1)})
                for a in bools:
                    if a is b:
                        continue
                    res = _dmul(res, pdict(aspoly(subst(a, {v: val}))) if v in a.fv else {((a, F(1)),): F(1)})
                for p in extra:
                    res = _dmul(res, pdict(subst(p, {v: val})))
                return _dmul(res, {((b, F(1)),): F(1)})
    if out:
        for b in bools:
            if b.op == "eq0":
                d = pdict(b.args[0])
                k = d.get((), F(0))
                if len(d) - (() in d) == 1:
                    (m, c), = [z for z in d.items() if z[0]]
                    if len(m) == 1 and m[0][1] == 1 and m[0][0] in out and (k != 0 or out[m[0][0]] > 0):
                        x = out.pop(m[0][0])
                        if x.denominator == 1:
                            coef *= qpow(qd(-k, c), x.numerator)
                        else:
                            extra.append(pow_(num(qd(-k, c)), x))
                        if coef == 0:
                            return {}
    for b in bools:
        out[b] = F(1)
    mono = tuple(sorted(out.items(), key=lambda it: it[0].id))
    res = {mono: coef}
    for p in extra:
        res = _dmul(res, pdict(p))
    return res


def _point(b):
    """(v, value) when the equation b determines one bound index, else None"""
    best = None
    for m, c in pdict(b.args[0]).items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fresh" and abs(c) == 1:
            v = m[0][0]
            if best is None or v.args[0] > best[0].args[0]:
                best = (v, c)
    if best is None:
        return None
    v, c = best
    rest = sub(b.args[0], mkpoly({((v, F(1)),): c}))
    if v in rest.fv:
        return None
    return v, scale(rest, qd(-1, c))


def _lin_diff(p, q):
    """constant c with p = q + c, else None"""
    if p.op == q.op == "poly":
        a, b = p.args[0], q.args[0]
        if abs(len(a) - len(b)) > 1:
            return None
        a1, b1 = (a[0] if a and a[0][0] == () else None), (b[0] if b and b[0][0] == () else None)
        if len(a) - (a1 is not None) != len(b) - (b1 is not None):
            return None
        if (a if a1 is None else a[1:]) != (b if b1 is None else b[1:]):
            if all(m != () for m, _ in a[1:]) and all(m != () for m, _ in b[1:]):
                return None
        else:
            return (a1[1] if a1 else F(0)) - (b1[1] if b1 else F(0))
    dp, dq = pdict(p), pdict(q)
    if abs(len(dp) - len(dq)) > 1:
        return None
    for m, c in dp.items():
        if m != () and dq.get(m) != c:
            return None
    for m in dq:
        if m != () and m not in dp:
            return None
    return dp.get((), F(0)) - dq.get((), F(0))


def _mono_more(q, p):
    """q exceeds p by one monomial of powers of positive constants"""
    dp, dq = pdict(p), pdict(q)
    if abs(len(dp) - len(dq)) > 1:
        return False
    more = None
    for m, c in dq.items():
        k = c - dp.get(m, 0)
        if k:
            if more is not None or k < 0:
                return False
            more = m
    for m, c in dp.items():
        if m not in dq:
            if more is not None or c > 0:
                return False
            more = m
    if not more:
        return False
    for a, e in more:
        b = const(a.args[0]) if a.op == "pow" else None
        if b is None or b <= 0:
            return False
    return True


def bool_product(bools):
    """simplify a conjunction of boolean atoms; None when contradictory"""
    bs = list(dict.fromkeys(bools))
    changed = True
    while changed:
        changed = False
        for i in range(len(bs)):
            for j in range(len(bs)):
                if i == j:
                    continue
                a, b = bs[i], bs[j]
                r = _implies(a, b)
                if r is True:
                    del bs[j]
                    changed = True
                    break
                if r is False:
                    return None
            if changed:
                break
    return bs


def _implies(a, b):
    """True if a implies b, False if a and b contradict, None otherwise"""
    if a.op in ("ge0", "gt0", "eq0") and b.op in ("ge0", "gt0", "eq0"):
        p, q = a.args[0], b.args[0]
        c = _lin_diff(q, p)  # q = p + c
        if c is not None:
            if a.op == "eq0":  # p=0, q = c
                if b.op == "eq0":
                    return c == 0
                if b.op == "ge0":
                    return c >= 0
                return c > 0
            if b.op == "eq0":  # q=0 -> p=-c
                if a.op == "ge0" and -c < 0 or a.op == "gt0" and -c <= 0:
                    return False
                return None
            # p>=0 (or >0), q = p+c
            if c > 0 or (c == 0 and (a.op == b.op or a.op == "gt0")):
                return True
            return None
        if c is None and a.op != "eq0" and b.op != "eq0" and _mono_more(q, p):
            return True
        if a.op == "eq0" or b.op == "eq0":
            c = const(add(p, q))  # q = -p + c
            if c is not None and a.op == "eq0":  # q = c
                if b.op == "eq0":
                    return c == 0
                if b.op == "ge0":
                    return c >= 0
                return c > 0
    if a.op == "eq" and b.op == "eq":
        for x in (0, 1):
            for y in (0, 1):
                if a.args[x] is b.args[y] and distinct(a.args[1 - x], b.args[1 - y]):
                    return False
    return None


def _dmul(d1, d2):
    out = {}
    for m1, c1 in d1.items():
        for m2, c2 in d2.items():
            for m, c in mono_mul(m1, m2).items():
                s = out.get(m, 0) + c * c1 * c2
                if s:
                    out[m] = s
                else:
                    out.pop(m, None)
    return out


def mul(*ts):
    d = None
    for t in ts:
        x = pdict(t)
        if d is None:
            d = x
            continue
        d2 = _cancel(d, x)
        if d2 is None:
            d2 = _cancel(x, d)
        d = d2 if d2 is not None else _dmul(d, x)
    return mkpoly(d or {})


def _cancel(d, x):
    """d multi-term, x a monomial holding grp(p)^negative with d proportional to p"""
    if len(d) < 2 or len(x) != 1:
        return None
    (m, c), = x.items()
    for a, e in m:
        if a.op == "grp" and e < 0:
            r = _ratio(d, pdict(a.args[0]))
            if r is not None:
                rest = dict(m)
                rest[a] = e + 1
                q = _mono_norm(rest)
                return {k: v * c * r for k, v in q.items()}
    return None


def _ratio(d, e):
    if len(d) != len(e) or set(d) != set(e):
        return None
    r = None
    for m in d:
        q = qd(d[m], e[m])
        if r is None:
            r = q
        elif r != q:
            return None
    return r


def _primes(n):
    out = {}
    p = 2
    while p * p <= n:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
        if p > 100000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _const_pow(c, e):
    """c > 0 rational, e Fraction -> poly dict"""
    if e.denominator == 1:
        return {(): qpow(F(c), int(e))}
    d = {}
    for p, k in _primes(c.numerator).items():
        d[p] = d.get(p, 0) + k
    for p, k in _primes(c.denominator).items():
        d[p] = d.get(p, 0) - k
    ex = {mk("nroot", p): k * e for p, k in d.items()}
    return _mono_norm(ex)


def content(t):
    """(positive rational, common monomial, remaining poly)"""
    d = pdict(t)
    nums = 0
    den = 1
    for c in d.values():
        nums = gcd(nums, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    # content of fractions: gcd(num)/lcm(den) after common denominators
    g = 0
    for c in d.values():
        g = gcd(g, abs(int(c * den)))
    cont = F(g, den) if g else F(1)
    common = None
    for m in d:
        mm = dict(m)
        if common is None:
            common = dict(mm)
        else:
            for a in list(common):
                if a in mm:
                    x, y = common[a], mm[a]
                    common[a] = min(x, y)
                else:
                    if common[a] > 0:
                        del common[a]
                    else:
                        pass
            for a, y in mm.items():
                if a not in common and y < 0:
                    common[a] = y
    common = {a: e for a, e in (common or {}).items() if not is_boolatom(a) and e}
    # negative exponents only in some monomials: factor the most negative
    return cont, common


def pow_(t, e):
    """t ** e for a rational constant e"""
    e = F(e)
    if e == 0:
        return ONE
    if e == 1:
        return aspoly(t)
    d = pdict(t)
    if not d:
        return ZERO if e > 0 else mk("app", "zerodiv")
    if len(d) == 1:
        (m, c), = d.items()
        ex = {}
        pre = {(): F(1)}
        if e.denominator == 1:
            pre = {(): qpow(c, int(e))}
        elif c > 0:
            pre = _const_pow(c, e)
        else:
            return aspoly(mk("app", "powneg", aspoly(t), num(e)))
        post = ONE
        for a, x in m:
            if e.denominator == 1 or nonneg_atom(a):
                ex[a] = ex.get(a, 0) + x * e
            elif x.denominator == 1 and x % 2 == 0:
                post = mul(post, pow_(abs_(mkpoly({((a, F(1)),): F(1)})), x * e))
            else:
                ex[a] = ex.get(a, 0) + x * e
        return mul(mkpoly(_dmul(pre, _mono_norm(ex))), post)
    if e.denominator == 1 and 0 < e <= 8:
        r = t
        for _ in range(int(e) - 1):
            r = mul(r, t)
        return r
    if is_boolpoly(t) and e > 0:
        return t
    cont, common = content(t)
    if e.denominator != 1:
        common = {a: x for a, x in common.items() if nonneg_atom(a)}
    inv = tuple(sorted(((a, -x) for a, x in common.items()), key=lambda it: it[0].id))
    rest = mkpoly(_dmul({inv: qd(1, cont)}, d)) if inv else scale(t, qd(1, cont))
    sign = F(1)
    if e.denominator == 1:
        first = rest.args[0][-1][1] if rest.op == "poly" else F(1)
        if first < 0:
            rest = neg(rest)
            sign = F(-1) ** int(e)
    elif e == F(1, 2):
        sq = _poly_sqrt(rest)
        if sq is not None:
            return mul(
                mkpoly(_const_pow(cont, e)),
                mkpoly(_mono_norm({a: x * e for a, x in common.items()})),
                abs_(sq),
            )
    if rest.op == "poly" and len(rest.args[0]) == 1:
        body = pow_(rest, e)
    else:
        body = mkpoly({((mk("grp", rest), e),): F(1)}) if not (e > 1) else mkpoly(
            _mono_norm({mk("grp", rest): e})
        )
    return mul(
        scale(mkpoly(_const_pow(cont, e)), sign),
        mkpoly(_mono_norm({a: x * e for a, x in common.items()})),
        body,
    )


def _poly_sqrt(p):
    """exact square root of a small polynomial (a*x + b)^2, else None"""
    d = pdict(p)
    if len(d) != 3:
        return None
    sq = []
    for m, c in d.items():
        if c > 0 and all(qd(x, 2).denominator == 1 or True for _, x in m):
            n, q = c.numerator, c.denominator
            if isqrt(n) ** 2 == n and isqrt(q) ** 2 == q and all(
                qd(x, 2).denominator == 1 for _, x in m
            ):
                sq.append((tuple((a, qd(x, 2)) for a, x in m), F(isqrt(n), isqrt(q))))
    for i in range(len(sq)):
        for j in range(i + 1, len(sq)):
            for s in (1, -1):
                r = mkpoly({sq[i][0]: sq[i][1], sq[j][0]: sq[j][1] * s})
                if mul(r, r) is p:
                    return r
    return None


def inv(t):
    return pow_(t, F(-1))


def div(a, b):
    return mul(a, inv(b))


def sqrt(t):
    return pow_(t, F(1, 2))


def power(base, ex):
    """base ** ex, both terms"""
    c = const(ex)
    if c is not None:
        return pow_(base, c)
    b = const(base)
    if b == 1:
        return ONE
    d = pdict(ex)
    if b is not None and b > 0:
        root, k = _root(b)
        out = {(): F(1)}
        res = {(): F(1)}
        cpart = d.get((), F(0))
        if cpart:
            res = _const_pow(b, cpart)
        e = {}
        for m, coef in d.items():
            if m == ():
                continue
            a = mk("pow", num(root), mkpoly({m: F(1)}))
            e[a] = e.get(a, 0) + coef * k
        return mkpoly(_dmul(res, _mono_norm(e)))
    if b == -1 and is_int(ex):
        res = F(1)
        e = {}
        for m, coef in d.items():
            if m == ():
                res = F(-1) ** (coef.numerator % 2)
            else:
                a = mk("pow", num(-1), mkpoly({m: F(1)}))
                e[a] = e.get(a, 0) + coef
        return scale(mkpoly(_mono_norm(e)), res)
    if b is not None and b < 0 and is_int(ex):
        return mul(power(num(-1), ex), power(num(-b), ex))
    # monomial base: distribute over factors
    bd = pdict(base)
    e = {}
    res = ONE
    if len(bd) == 1 and not (len(bd) == 1 and list(bd)[0] == ()):
        (m, c), = bd.items()
        if c != 1:
            res = power(num(c), ex)
        for a, x in m:
            for em, ec in d.items():
                if em == ():
                    e[a] = e.get(a, 0) + x * ec
                else:
                    at = mk("pow", mkpoly({((a, F(1)),): F(1)}), mkpoly({em: F(1)}))
                    e[at] = e.get(at, 0) + ec * x
        return mul(res, mkpoly(_mono_norm(e)))
    return aspoly(mk("pow", aspoly(base), aspoly(ex)))


def _root(b):
    """b = root ** k with root > 1 minimal (rational)"""
    if b < 1:
        r, k = _root(qd(1, b))
        return r, -k
    if b.denominator != 1:
        return b, 1
    n = b.numerator
    ps = _primes(n)
    g = 0
    for k in ps.values():
        g = gcd(g, k)
    if g > 1:
        r = 1
        for p, k in ps.items():
            r *= p ** (k // g)
        return F(r), g
    return F(n), 1


def exp(t):
    d = pdict(t)
    e = {}
    for m, c in d.items():
        if m == ():
            a = mk("econst")
        elif len(m) == 1 and m[0][0].op == "log" and m[0][1] == 1:
            a = None
            continue
        else:
            a = mk("pow", mkpoly({((mk("econst"), F(1)),): F(1)}), mkpoly({m: F(1)}))
        e[a] = e.get(a, 0) + c
    r = mkpoly(_mono_norm(e))
    for m, c in d.items():
        if len(m) == 1 and m[0][0].op == "log" and m[0][1] == 1:
            r = mul(r, pow_(m[0][0].args[0], c))
    return r


def log(t):
    c = const(t)
    if c is not None:
        if c <= 0:
            return aspoly(mk("app", "logneg", num(c)))
        e = {}
        for p, k in _primes(c.numerator).items():
            e[p] = e.get(p, 0) + k
        for p, k in _primes(c.denominator).items():
            e[p] = e.get(p, 0) - k
        return mkpoly({((mk("log", num(p)), F(1)),): F(k) for p, k in e.items()})
    d = pdict(t)
    if len(d) == 1:
        (m, c), = d.items()
        if c > 0:
            out = log(num(c))
            for a, x in m:
                if a.op == "pow":
                    lg = mul(log(a.args[0]), a.args[1])
                elif a.op == "econst":
                    lg = ONE
                elif a.op == "nroot":
                    lg = log(num(a.args[0]))
                else:
                    lg = mkpoly({((mk("log", mkpoly({((a, F(1)),): F(1)})), F(1)),): F(1)})
                out = add(out, scale(lg, x))
            return out
    cont, common = content(t)
    if cont != 1:
        return add(log(num(cont)), log(scale(t, qd(1, cont))))
    return aspoly(mk("log", aspoly(t)))


# ----------------------------------------------------------------------------
# facts and bounds


class Ctx:
    def __init__(self):
        self.facts = []  # polys known >= 0
        self.known = {}  # boolean atom -> 0/1
        self.subs = {}
        self.version = 0


CTX = Ctx()
_vers = [0]
_verids = {}


def _bump():
    global _pcache
    key = frozenset(f.id for f in CTX.facts), frozenset((a.id, k) for a, k in CTX.known.items())
    _pcache = _pcaches.get(key)
    if _pcache is None:
        if len(_pcaches) > 3000:
            _pcaches.clear()
        _pcache = _pcaches[key] = {}
    if len(_verids) > 20000:
        _verids.clear()
    r = _verids.get(key)
    if r is None:
        _vers[0] += 1
        r = _verids[key] = _vers[0]
    CTX.version = r


def add_fact(p):
    """p >= 0, and what it says of the arguments of floors with a plus sign"""
    p = aspoly(p)
    CTX.facts.append(p)
    d = pdict(p)
    if len(d) > 6:
        return
    for m, k in d.items():
        if k > 0 and len(m) == 1 and m[0][0].op == "floor" and m[0][1] == 1:
            x = m[0][0].args[0]
            if any(e < 0 for mm in pdict(x) for _, e in mm):
                q = add(sub(p, scale(m[0][0], k)), scale(x, k))
                den = {}
                for mm in pdict(q):
                    for a, e in mm:
                        if e < 0:
                            den[a] = min(den.get(a, 0), e)
                if den and all(pos_atom(a) for a in den):
                    q = mkpoly(_dmul(pdict(q), _mono_norm({a: -e for a, e in den.items()})))
                    if len(pdict(q)) <= 6:
                        CTX.facts.append(q)


class assume:
    """context manager: polys known to be non-negative, boolean terms known true"""

    def __init__(self, nonneg=(), true=()):
        self.nonneg = nonneg
        self.true = true

    def __enter__(self):
        self.save = (CTX.facts, CTX.known)
        # fresh ones: an outer search may be iterating over the old
        CTX.facts, CTX.known = list(CTX.facts), dict(CTX.known)
        for p in self.nonneg:
            add_fact(aspoly(p))
        for b in self.true:
            add_true(b)
        _bump()
        return self

    def __exit__(self, *a):
        CTX.facts, CTX.known = self.save
        _bump()


def add_true(b):
    """record boolean poly b as true (conjunctions of atoms / negated atoms)"""
    b = aspoly(b)
    d = pdict(b)
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1:
            for a, _ in m:
                _atom_true(a)
            return
    if len(d) == 2 and d.get(()) == 1:
        for m, c in d.items():
            if m != () and c == -1 and len(m) == 1:
                _atom_false(m[0][0])
                return
    # product of (1 - a)(...) factors: try factoring by atoms
    atoms = []
    for m in d:
        for a, _ in m:
            if is_boolatom(a) and a not in atoms:
                atoms.append(a)
    for a in atoms:
        on = restrict(b, {a: 1})
        off = restrict(b, {a: 0})
        if const(on) == 0:
            _atom_false(a)
        elif const(off) == 0:
            _atom_true(a)


def _atom_true(a):
    CTX.known[a] = 1
    if a.op == "ge0":
        add_fact(a.args[0])
    elif a.op == "gt0":
        add_fact(a.args[0])
    elif a.op == "eq0":
        add_fact(a.args[0])
        add_fact(neg(a.args[0]))


def _atom_false(a):
    CTX.known[a] = 0
    if a.op == "ge0":
        p = a.args[0]
        add_fact(sub(neg(p), ONE) if is_int(p) else neg(p))
    elif a.op == "gt0":
        add_fact(neg(a.args[0]))
    elif a.op == "eq0":
        p = a.args[0]
        if is_int(p):
            if prove_ge0(p):
                add_fact(sub(p, ONE))
            elif prove_ge0(neg(p)):
                add_fact(sub(neg(p), ONE))


def restrict(t, known):
    """boolean-atom substitution at top level of a polynomial"""
    d = {}
    for m, c in pdict(t).items():
        mm = []
        z = False
        for a, e in m:
            if a in known:
                if known[a] == 0:
                    z = True
                    break
            else:
                mm.append((a, e))
        if z:
            continue
        mm = tuple(mm)
        d[mm] = d.get(mm, 0) + c
    return mkpoly(d)


_pcache = {}
_pcaches = {}


def nonneg_atom(a):
    op = a.op
    k = atom_kind(a)
    if k in ("nat", "bool", "pos"):
        return True
    if op in ("abs", "erfc", "gammaincc", "len", "nroot", "econst", "pi", "fftabs"):
        return True
    if op == "pow":
        b = a.args[0]
        return nonneg(b)
    if op == "floor":
        return nonneg(a.args[0])
    if op == "sum":
        return _lam_nonneg(a.args[1])
    if op == "maxr":
        return _lam_nonneg(a.args[1])
    if op == "maxi" and a.args[3] == 1:
        return nonneg(a.args[2]) or _lam_nonneg(a.args[1])
    if op == "grp":
        return nonneg(a.args[0])
    if op == "log":
        return prove_ge0(sub(a.args[0], ONE))
    if op in ("var", "fresh", "app", "unknown", "bv", "proj", "idx"):
        p = mkpoly({((a, F(1)),): F(1)})
        for f in CTX.facts:
            if f is p:
                return True
            if f.op == "poly" and len(f.args[0]) > 2:
                continue
            d = _lin_diff(p, f)
            if d is not None and d >= 0:
                return True
    return False


def _lam_nonneg(lam):
    b = lam.args[2]
    return all(c >= 0 and all(_mono_factor_nonneg(a, e) for a, e in m) for m, c in pdict(b).items())


def _mono_factor_nonneg(a, e):
    if e.denominator == 1 and e % 2 == 0:
        return True
    return nonneg_atom(a)


def mono_nonneg(m):
    return all(_mono_factor_nonneg(a, e) for a, e in m)


def nonneg(t):
    return prove_ge0(aspoly(t))


def positive(t):
    t = aspoly(t)
    c = const(t)
    if c is not None:
        return c > 0
    if is_int(t):
        return prove_ge0(sub(t, ONE))
    d = pdict(t)
    if all(c > 0 for c in d.values()) and all(
        all(pos_atom(a) or (e.denominator == 1 and e % 2 == 0 and False) for a, e in m) for m in d
    ):
        return True
    return False


def pos_atom(a):
    if a.op in ("nroot", "econst", "pi"):
        return True
    if a.op == "pow":
        return positive(a.args[0])
    if atom_kind(a) == "pos":
        return True
    if a.op == "grp":
        return positive(a.args[0])
    if a.op == "log":
        c = const(a.args[0])
        if c is not None:
            return c > 1
        p = sub(a.args[0], num(F(3, 2)))
        return prove_ge0(p)
    if atom_kind(a) in ("nat", "int"):
        return prove_ge0(sub(mkpoly({((a, F(1)),): F(1)}), ONE))
    return False


FUEL = 50
_fuel = [None]  # steps left in the running proof attempt
_level = [99]


def prove_ge0(p, depth=None):
    """p >= 0 under the facts in force (sound, bounded search)"""
    p = aspoly(p)
    c = const(p)
    if c is not None:
        return c >= 0
    if depth is None:
        depth = 5
    depth = min(depth, _level[0] - 1)
    r = _pcache.get(p)
    if r is not None and (r[0] or r[1] >= depth):
        return r[0]
    _pcache[p] = (False, depth)
    top = _fuel[0] is None
    if top:
        _fuel[0] = FUEL
    save = _level[0]
    _level[0] = depth
    try:
        _fuel[0] -= 1
        r = False if _fuel[0] <= 0 or depth < -3 else _prove(p, depth)
    finally:
        _level[0] = save
        if top:
            _fuel[0] = None
    _pcache[p] = (r, depth)
    return r


def _prove(p, depth):
    c = const(p)
    if c is not None:
        return c >= 0
    d = pdict(p)
    if len(d) > 12:
        return False
    if all(k > 0 and mono_nonneg(m) for m, k in d.items()):
        return True
    low = d.get((), F(0))
    if low < 0:
        for m, k in d.items():
            if m != ():
                if k < 0 or not mono_nonneg(m):
                    break
                if all(e >= 1 and e.denominator == 1 and atom_kind(a) == "pos" and a.op in ("var", "fresh", "bv") for a, e in m):
                    low += k
        else:
            if low >= 0:
                return True
    if CTX.facts and _cheap(d, 3):
        return True
    if depth <= 0:
        return False
    # direct facts: p = fact + nonneg
    for f in CTX.facts:
        r = _lin_diff(p, f)
        if r is not None and r >= 0:
            return True
    # abs atoms: case split
    for m, k in d.items():
        for a, e in m:
            if a.op == "abs" and e == 1:
                x = a.args[0]
                outs = []
                for s in (1, -1):
                    q = _replace_atom(d, a, scale(x, s))
                    sx = scale(x, s)
                    with assume([sx]):
                        outs.append(prove_ge0(q, depth - 1))
                    if not outs[-1]:
                        return False
                return True
    # clear positive denominators
    den = {}
    for m in d:
        for a, e in m:
            if e < 0:
                den[a] = min(den.get(a, 0), e)
    if den and all(pos_atom(a) for a in den):
        q = mkpoly(_dmul(d, _mono_norm({a: -e for a, e in den.items()})))
        if q is not p:
            return prove_ge0(q, depth - 1)
    # floors
    for m, k in d.items():
        for a, e in m:
            if a.op == "floor" and e == 1:
                rest = tuple((b, x) for b, x in m if b is not a)
                if not mono_nonneg(rest):
                    continue
                x = a.args[0]
                if k < 0:
                    q = add(mkpoly({mm: kk for mm, kk in d.items() if mm != m}),
                            mul(mkpoly({rest: k}), x))
                    if prove_ge0(q, depth - 1):
                        return True
                else:
                    lo = sub(x, num(1 - _gran(x)))
                    q = add(mkpoly({mm: kk for mm, kk in d.items() if mm != m}),
                            mul(mkpoly({rest: k}), lo))
                    if prove_ge0(q, depth - 1):
                        return True
    # a sum of indicators is at most its number of terms
    for m, k in d.items():
        if k < 0:
            for a, e in m:
                if a.op == "sum" and e == 1 and is_boolpoly(a.args[1].args[2]):
                    rest = tuple((b, x) for b, x in m if b is not a)
                    if not mono_nonneg(rest):
                        continue
                    q = add(mkpoly({mm: kk for mm, kk in d.items() if mm != m}),
                            mul(mkpoly({rest: k}), a.args[0]))
                    if prove_ge0(q, depth - 1):
                        return True
    # facts to cancel negative monomials
    for m, k in d.items():
        if k > 0 and mono_nonneg(m) or m == ():
            continue
        if m == () and k > 0:
            continue
        md = dict(m)
        for f in CTX.facts:
            for fm, fk in pdict(f).items():
                if fm == () or (fk > 0) != (k > 0):
                    continue
                extra = dict(md)
                ok = True
                for a, e in fm:
                    x = extra.get(a, 0) - e
                    if x == 0:
                        extra.pop(a, None)
                    else:
                        extra[a] = x
                for a, e in extra.items():
                    if e < 0 and not pos_atom(a) or not nonneg_atom(a):
                        ok = False
                if not ok:
                    continue
                if len(pdict(f)) > 6:
                    continue
                mult = mkpoly({tuple(sorted(extra.items(), key=lambda it: it[0].id)): qd(k, fk)})
                q = sub(p, mul(mult, f))
                if len(pdict(q)) <= len(d) + 2 and prove_ge0(q, depth - 1):
                    return True
    if () in d and d[()] < 0:
        # constant negative: facts with negative constant
        for f in CTX.facts:
            fk = pdict(f).get((), 0)
            if fk < 0:
                q = sub(p, scale(f, qd(d[()], fk)))
                if len(pdict(q)) <= len(d) + 1 and prove_ge0(q, depth - 1):
                    return True
            q = sub(p, f)
            if len(pdict(q)) < len(d) + 1 and prove_ge0(q, depth - 2):
                return True
    return False


def _low(d):
    """a sum of non-negative monomials and a constant that cannot be negative"""
    low = d.get((), F(0))
    for m, k in d.items():
        if m != ():
            if k < 0 or not mono_nonneg(m):
                return False
            if low < 0 and all(e >= 1 and e.denominator == 1 and atom_kind(a) == "pos" and a.op in ("var", "fresh", "bv") for a, e in m):
                low += k
    return low >= 0


def _cheap(d, level):
    """d as a non-negative combination of facts and non-negative monomials"""
    bad = None
    for m, k in d.items():
        if m != () and (k < 0 or not mono_nonneg(m)):
            bad = m
            break
    if bad is None:
        if _low(d):
            return True
        bad = ()
    if level == 0:
        return False
    k = d[bad]
    for f in CTX.facts:
        fd = pdict(f)
        if len(fd) > 6:
            continue
        fk = fd.get(bad)
        if fk is None or (fk > 0) != (k > 0):
            continue
        q = dict(d)
        r = qd(k, fk)
        for m, c in fd.items():
            x = q.get(m, F(0)) - r * c
            if x:
                q[m] = x
            else:
                q.pop(m, None)
        if not q or _cheap(q, level - 1):
            return True
    return False


def _gran(x):
    """1/q where x is an integer polynomial over constant q, else 0"""
    d = pdict(x)
    q = 1
    for m, c in d.items():
        if not _int_mono(m):
            return F(0)
        q = q * c.denominator // gcd(q, c.denominator)
    return F(1, q)


def _replace_atom(d, a, r):
    out = ZERO
    for m, c in d.items():
        e = dict(m)
        x = e.pop(a, None)
        mm = mkpoly({tuple(sorted(e.items(), key=lambda it: it[0].id)): c})
        out = add(out, mm if x is None else mul(mm, pow_(r, x)))
    return out


def _int_mono(m):
    for a, e in m:
        if e.denominator != 1 or e < 0:
            if a.op == "pow" and e > 0:
                pass
            return False
        if atom_kind(a) not in ("int", "nat", "bool", "pos"):
            return False
    return True


def is_int(t):
    if t.op != "poly":
        if t.op in NONNUM:
            return False
        return atom_kind(t) in ("int", "nat", "bool", "pos")
    if all(c.denominator == 1 and _int_mono(m) for m, c in t.args[0]):
        return True
    # halves in pairs: x/2 + |y|/2 with x, y of one parity, as in max(a, b)
    if all(c.denominator in (1, 2) and _int_mono(m) for m, c in t.args[0]) and len(t.args[0]) < 40:
        key = t
        r = _halfc.get(key)
        if r is None:
            tot = {}
            for m, c in t.args[0]:
                if c.denominator == 1:
                    continue
                k = c.numerator
                ab = [a for a, e in m if a.op == "abs" and e == 1]
                if not ab:
                    tot[m] = tot.get(m, 0) + k
                    continue
                rest = mkpoly({tuple((a, e) for a, e in m if a is not ab[0]): F(1)})
                for m2, c2 in pdict(mul(rest, ab[0].args[0])).items():
                    if c2.denominator != 1:
                        tot[("x",)] = 1
                    tot[m2] = tot.get(m2, 0) + k * c2
            r = all(c % 2 == 0 for c in tot.values())
            _halfc[key] = r
        return r
    return False


_halfc = {}
_bp = {}


def is_boolpoly(t):
    if t.op != "poly":
        return is_boolatom(t)
    r = _bp.get(t)
    if r is None:
        r = all(all(is_boolatom(a) and e == 1 for a, e in m) for m, _ in t.args[0]) and (
            mul(t, t) is t if len(t.args[0]) <= 16 else False
        )
        _bp[t] = r
    return r


# ----------------------------------------------------------------------------
# comparisons


def _clear(p):
    """positive multiple of p without negative exponents where allowed, primitive"""
    d = pdict(p)
    den = {}
    for m in d:
        for a, e in m:
            if e < 0:
                den[a] = min(den.get(a, 0), e)
    den = {a: e for a, e in den.items() if pos_atom(a)}
    if den:
        d = _dmul(d, _mono_norm({a: -e for a, e in den.items()}))
    # common positive monomial
    common = None
    for m in d:
        mm = {a: e for a, e in m if e > 0 and pos_atom(a)}
        if common is None:
            common = mm
        else:
            common = {a: min(e, mm[a]) for a, e in common.items() if a in mm}
    if common:
        d = _dmul(d, _mono_norm({a: -e for a, e in common.items()}))
    q = mkpoly(d)
    if const(q) is not None:
        return q
    cont, _ = content(q)
    return scale(q, qd(1, cont))


def _lead(p):
    """coefficient of the leading non-constant monomial"""
    d = p.args[0] if p.op == "poly" else ((((p, F(1)),), F(1)),)
    best = None
    for m, c in d:
        if m == ():
            continue
        k = (len(m), _mkey(m))
        if best is None or k > best[0]:
            best = (k, c)
    return best[1]


def _boolform(p):
    """(v, alpha, beta) with p = alpha*v + beta, v a 0/1 polynomial"""
    d = pdict(p)
    beta = d.get((), F(0))
    rest = {m: c for m, c in d.items() if m != ()}
    if not rest or not all(all(is_boolatom(a) for a, e in m) for m in rest):
        return None
    for alpha in sorted({abs(c) for c in rest.values()}):
        for s in (alpha, -alpha):
            v = scale(mkpoly(rest), qd(1, s))
            if is_boolpoly(v):
                return v, s, beta
            v1 = add(v, ONE)
            if is_boolpoly(v1):
                return v1, s, beta - s
    return None


def _boolcmp(p, test):
    bf = _boolform(p)
    if bf is None:
        return None
    v, a, b = bf
    lo, hi = test(b), test(a + b)
    if lo == hi:
        return ONE if lo else ZERO
    return v if hi else sub(ONE, v)


def _look(atom):
    k = CTX.known.get(atom)
    if k is not None:
        return ONE if k else ZERO
    return mkpoly({((atom, F(1)),): F(1)})


def _lift_ite(f, *args):
    """distribute f over an ite argument"""
    for i, a in enumerate(args):
        if a.op == "ite":
            c, x, y = a.args
            l = list(args)
            l[i] = x
            r = list(args)
            r[i] = y
            return add(mul(c, f(*l)), mul(sub(ONE, c), f(*r)))
    return None


def ge0(p):
    p = aspoly(p)
    c = const(p)
    if c is not None:
        return ONE if c >= 0 else ZERO
    r = _boolcmp(p, lambda x: x >= 0)
    if r is not None:
        return r
    p = _clear(p)
    c = const(p)
    if c is not None:
        return ONE if c >= 0 else ZERO
    if is_int(p):
        d = pdict(p)
        k = d.pop((), F(0))
        g = 0
        for x in d.values():
            g = gcd(g, int(abs(x)))
        if g > 1:
            p = add(scale(mkpoly(d), F(1, g)), num(int(k) // g))
        if prove_ge0(p):
            return ONE
        if prove_ge0(sub(neg(p), ONE)):
            return ZERO
        if _lead(p) < 0:
            return sub(ONE, ge0(sub(neg(p), ONE)))
        if prove_ge0(add(p, ONE)):
            return sub(ONE, eq0(add(p, ONE)))
        if prove_ge0(neg(p)):
            return eq0(p)
        return _look(mk("ge0", p))
    if prove_ge0(p):
        return ONE
    if _strictly_neg(p):
        return ZERO
    if _lead(p) < 0:
        return sub(ONE, gt0(neg(p)))
    return _look(mk("ge0", p))


def _strictly_neg(p):
    d = pdict(p)
    c = d.get((), F(0))
    if c < 0 and prove_ge0(neg(sub(p, num(c)))):
        return True
    return False


def gt0(p):
    p = aspoly(p)
    c = const(p)
    if c is not None:
        return ONE if c > 0 else ZERO
    r = _boolcmp(p, lambda x: x > 0)
    if r is not None:
        return r
    p = _clear(p)
    c = const(p)
    if c is not None:
        return ONE if c > 0 else ZERO
    if is_int(p):
        return ge0(sub(p, ONE))
    if prove_ge0(neg(p)):
        return ZERO
    if positive(p) or _strictly_neg(neg(p)):
        return ONE
    if _lead(p) < 0:
        return sub(ONE, ge0(neg(p)))
    return _look(mk("gt0", p))


def eq0(p):
    p = aspoly(p)
    c = const(p)
    if c is not None:
        return ONE if c == 0 else ZERO
    r = _boolcmp(p, lambda x: x == 0)
    if r is not None:
        return r
    p = _clear(p)
    c = const(p)
    if c is not None:
        return ONE if c == 0 else ZERO
    if is_int(p):
        d = pdict(p)
        k = d.pop((), F(0))
        g = 0
        for x in d.values():
            g = gcd(g, int(abs(x)))
        if g > 1:
            if int(k) % g:
                return ZERO
            p = scale(p, F(1, g))
        if prove_ge0(sub(p, ONE)) or prove_ge0(sub(neg(p), ONE)):
            return ZERO
        if prove_ge0(p) and prove_ge0(neg(p)):
            return ONE
    else:
        if positive(p) or positive(neg(p)) or _strictly_neg(p) or _strictly_neg(neg(p)):
            return ZERO
    if _lead(p) < 0:
        p = neg(p)
    if len(pdict(p)) == 1:
        (m, c), = pdict(p).items()
        if all(pos_atom(a) for a, _ in m):
            return ZERO
    d = pdict(p)
    if len(d) == 2:
        (m1, c1), (m2, c2) = d.items()
        if c1 == -c2 and all(len(m) == 1 and m[0][1] == 1 and m[0][0].op == "hd" for m in (m1, m2)):
            a, b = mkpoly({m1: F(1)}), mkpoly({m2: F(1)})
            return add(mul(a, b), mul(not_(a), not_(b)))
    m2 = _mod2(p)
    if m2 is not None:
        return sub(ONE, eq0(m2))
    return _look(mk("eq0", p))


def _mod2(p):
    """X when p = +-(X - 1) and X = Y mod 2 (so p = 0 iff X is not 0)"""
    if not is_int(p):
        return None
    for s in (1, -1):
        x = add(scale(p, s), ONE)
        d = pdict(x)
        fl = [(m, c) for m, c in d.items() if len(m) == 1 and m[0][0].op == "floor" and m[0][1] == 1 and c == -2]
        for m, c in fl:
            y = add(x, mkpoly({m: F(2)}))
            if scale(m[0][0].args[0], 2) is y:
                return x
    return None


def ge(a, b):
    return ge0(sub(a, b))


def gt(a, b):
    return gt0(sub(a, b))


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return gt0(sub(b, a))


def not_(a):
    return sub(ONE, a)


def and_(*bs):
    r = ONE
    for b in bs:
        if r is ZERO:
            return ZERO
        r = mul(r, b)
    return r


def or_(*bs):
    r = ZERO
    for b in bs:
        if r is ONE:
            return ONE
        r = sub(add(r, b), mul(r, b))
    return r


def distinct(a, b):
    """provably different constants"""
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None:
        return ca != cb
    kinds = {"str": 1, "none": 2, "tup": 3, "seq": 3}
    if a.op == "str" and b.op == "str":
        return a.args != b.args
    if (a.op in kinds or ca is not None) and (b.op in kinds or cb is not None):
        if a.op == b.op or kinds.get(a.op) == kinds.get(b.op) == 3:
            if a.op in ("tup", "seq"):
                if len(a.args) != len(b.args):
                    return True
                return any(distinct(x, y) for x, y in zip(a.args, b.args))
            return a is not b
        return True
    return False


# ----------------------------------------------------------------------------
# abs, floor, max, min


def abs_(t):
    t = aspoly(t)
    c = const(t)
    if c is not None:
        return num(abs(c))
    if len(pdict(t)) == 1:
        (m, c), = pdict(t).items()
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.op == "idx" and a.args[0].op == "app" and a.args[0].args[0] == "fft":
                return scale(aspoly(mk("fftabs", a.args[0].args[1], aspoly(a.args[1]))), abs(c))
    if prove_ge0(t):
        return t
    if prove_ge0(neg(t)):
        return neg(t)
    d = pdict(t)
    if len(d) == 1:
        (m, c), = d.items()
        out = num(abs(c))
        for a, e in m:
            p = mkpoly({((a, F(1)),): F(1)})
            if e.denominator == 1 and e % 2 == 0 or nonneg_atom(a):
                f = mkpoly({((a, e),): F(1)})
            else:
                f = mkpoly(_mono_norm({mk("abs", p): e}))
            out = mul(out, f)
        return out
    cont, common = content(t)
    pull = {a: e for a, e in common.items() if nonneg_atom(a)}
    inv_ = _mono_norm({a: -e for a, e in pull.items()})
    r = mkpoly(_dmul({m: qd(c, cont) for m, c in d.items()}, inv_))
    if r.op == "poly" and len(r.args[0]) == 1 and r is not t:
        return mul(num(cont), mkpoly(_mono_norm(pull)), abs_(r))
    if _lead(r) < 0:
        r = neg(r)
    return mul(num(cont), mkpoly(_mono_norm(pull)), mkpoly({((mk("abs", r), F(1)),): F(1)}))


def max2(a, b):
    d = sub(a, b)
    return scale(add(a, b, abs_(d)), F(1, 2))


def min2(a, b):
    d = sub(a, b)
    return scale(sub(add(a, b), abs_(d)), F(1, 2))


def floor_(t):
    t = aspoly(t)
    c = const(t)
    if c is not None:
        return num(c.numerator // c.denominator)
    if is_int(t):
        return t
    whole = {}
    frac = {}
    for m, c in pdict(t).items():
        if _int_mono(m):
            k = c.numerator // c.denominator
            if k and c.denominator == 1:
                whole[m] = F(k)
                continue
            if k and m == ():
                whole[m] = F(k)
                c = c - k
        frac[m] = c
    w = mkpoly(whole)
    f = mkpoly(frac)
    if not pdict(f):
        return w
    if const(f) is not None:
        return add(w, floor_(f))
    # nested floors: floor(floor(x) / q)
    fd = pdict(f)
    if len(fd) == 1:
        (m, c), = fd.items()
        if c.numerator == 1 and c.denominator >= 1:
            fl = [(a, e) for a, e in m if a.op == "floor" and e == 1]
            rest = [(a, e) for a, e in m if not (a.op == "floor" and e == 1)]
            if len(fl) == 1 and all(e < 0 and e.denominator == 1 and _posint_atom(a) for a, e in rest):
                inner = fl[0][0].args[0]
                g = mul(inner, mkpoly({tuple(rest): c}))
                return add(w, floor_(g))
    # ceil form: floor(-N / b) = -1 - floor((N - 1) / b)
    dd = pdict(f)
    dens = {}
    for m, c in dd.items():
        for a, e in m:
            if e < 0:
                dens[a] = min(dens.get(a, 0), e)
    q = 1
    ok = all(e.denominator == 1 and _posint_atom(a) for a, e in dens.items())
    if ok:
        up = _dmul(dd, _mono_norm({a: -e for a, e in dens.items()}))
        for c in up.values():
            q = q * c.denominator // gcd(q, c.denominator)
        N = mkpoly({m: c * q for m, c in up.items()})
        if is_int(N) and const(N) is None and _lead(N) < 0:
            D = mkpoly(_mono_norm({a: e for a, e in dens.items()}))
            inner = mul(sub(neg(N), ONE), D, num(F(1, q)))
            return sub(sub(w, ONE), floor_(inner))
    # known range
    if prove_ge0(f) and _less(f, 1):
        return w
    return add(w, mkpoly({((mk("floor", f), F(1)),): F(1)}))


def _less(p, c):
    d = sub(num(c), p)
    return _strict(d)


def _strict(d):
    d = aspoly(d)
    c = const(d)
    if c is not None:
        return c > 0
    den = {}
    for m in pdict(d):
        for a, e in m:
            if e < 0:
                den[a] = min(den.get(a, 0), e)
    if den and all(pos_atom(a) for a in den):
        q = _clear(d)
        if is_int(q):
            return prove_ge0(sub(q, ONE))
    q = _clear(d)
    if is_int(q):
        return prove_ge0(sub(q, ONE))
    return False


def _posint_atom(a):
    return atom_kind(a) in ("int", "nat", "pos") and pos_atom(a)


def ceil_(t):
    return neg(floor_(neg(t)))


def trunc(t):
    t = aspoly(t)
    if is_int(t):
        return t
    if prove_ge0(t):
        return floor_(t)
    c = const(t)
    if c is not None:
        return num(int(c))
    return aspoly(mk("trunc", t))


def floordiv(a, b):
    return floor_(div(a, b))


def mod(a, b):
    return sub(a, mul(b, floordiv(a, b)))


# ----------------------------------------------------------------------------
# ite


def ite(c, a, b):
    c = aspoly(c)
    k = const(c)
    if k is not None:
        return a if k != 0 else b
    if a is b:
        return a
    if c.fv:
        cd = pdict(c)
        if len(cd) == 1 or len(cd) == 2 and cd.get(()) == 1:
            at = [m[0][0] for m in cd if len(m) == 1 and m[0][0].op == "eq0"]
            if len(at) == 1 and abs(cd.get(((at[0], F(1)),), 0)) == 1:
                pt = _point(at[0])
                if pt is not None:
                    if len(cd) == 1:
                        if pt[0] in a.fv:
                            a = subst(a, {pt[0]: pt[1]})
                    elif pt[0] in b.fv:
                        b = subst(b, {pt[0]: pt[1]})
                    if a is b:
                        return a
    if a.op == "unreach":
        return b
    if b.op == "unreach":
        return a
    if numeric(a) and numeric(b):
        d = sub(a, b)
        r = _ite_abs(c, a, b, d)
        if r is not None:
            return r
        return add(b, mul(c, d))
    if is_face(a) and is_face(b):
        ha, hb = hd(a), hd(b)
        h = add(mul(c, ha), mul(not_(c), hb))
        if h is ha:
            return a
        if h is hb:
            return b
    if a.op == b.op and a.op in ("tup", "seq") and len(a.args) == len(b.args):
        return mk(a.op, *[ite(c, x, y) for x, y in zip(a.args, b.args)])
    if a.op == "rec" and b.op == "rec" and a.args[0] is b.args[0] and len(a.args[1]) == len(b.args[1]) and all(
        x[0] == y[0] for x, y in zip(a.args[1], b.args[1])
    ):
        return mk("rec", a.args[0], tuple((x[0], ite(c, x[1], y[1])) for x, y in zip(a.args[1], b.args[1])))
    if a.op == "arr" and b.op == "arr" and a.args[0] is b.args[0]:
        v = fresh()
        return arr(a.args[0], v, ite(c, apply(a.args[1], v), apply(b.args[1], v)))
    # nested ite on same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    nc = not_(c)
    if a.op == "ite" and a.args[0] is nc:
        a = a.args[2]
    if b.op == "ite" and b.args[0] is nc:
        b = b.args[1]
    if a is b:
        return a
    # merge  ite(c, x, ite(d, x, y)) = ite(c or d, x, y)
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a:
        return ite(or_(c, not_(b.args[0])), a, b.args[1])
    if a.op == "ite" and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b:
        return ite(and_(c, not_(a.args[0])), a.args[2], b)
    d = pdict(c)
    if d.get((), 0) == 1:
        c, a, b = nc, b, a
    return mk("ite", c, a, b)


def _ite_abs(c, a, b, d):
    """recognise conditional as max/min/abs: condition sign(d) decides between a and b"""
    cd = pdict(c)
    negd = False
    at = None
    if len(cd) == 1:
        (m, k), = cd.items()
        if k == 1 and len(m) == 1:
            at = m[0][0]
    elif len(cd) == 2 and cd.get(()) == 1:
        for m, k in cd.items():
            if m != () and k == -1 and len(m) == 1:
                at = m[0][0]
                negd = True
    if at is None or at.op not in ("ge0", "gt0"):
        return None
    q = at.args[0]
    if negd:
        d = neg(d)
        base = a
    else:
        base = b
    # value = base + [q >= 0] * d
    for off in ((0, 1, -1) if is_int(q) else (0,)):
        qq = add(q, num(off))
        r = _ratio(pdict(d), pdict(qq)) if pdict(qq) else None
        if r is not None:
            # [q>=0]*r*qq, with q = qq - off.  valid if qq is 0 or agrees in sign at the border
            # off = 1: q>=0 <-> qq>=1 ; off=-1: q>=0 <-> qq >= -1, wrong at qq=-1
            if off == -1:
                continue
            # max(qq, 0) * r
            return add(base, scale(add(qq, abs_(qq)), qd(r, 2)))
    # denominators: d proportional to q times positive monomial
    dq = div(d, q) if len(pdict(q)) == 1 else None
    if dq is not None and len(pdict(dq)) == 1:
        (m, c2), = pdict(dq).items()
        if all(pos_atom(a) for a, _ in m):
            return add(base, mul(dq, scale(add(q, abs_(q)), F(1, 2))))
    return None


# ----------------------------------------------------------------------------
# binders


def mklam(vs, body):
    """abstract fresh variables vs in body"""
    k = body.hgt + 1
    m = {v: mk("bv", k, j, v.args[1]) for j, v in enumerate(vs)}
    b = subst(body, m)
    while b.hgt + 1 != k:
        # rebuilding changed the height: redo with the right one
        k2 = max(b.hgt + 1, 0)
        if k2 == k:
            break
        back = {mk("bv", k, j, v.args[1]): v for j, v in enumerate(vs)}
        body = subst(b, back)
        k = body.hgt + 1
        m = {v: mk("bv", k, j, v.args[1]) for j, v in enumerate(vs)}
        b = subst(body, m)
        if b.hgt + 1 == k:
            break
        k = b.hgt + 1
        break
    return mk("lam", m[vs[0]].args[0] if vs else k, len(vs), b)


_crc = {}


def _hs(x):
    r = _crc.get(x)
    if r is None:
        r = _crc[x] = zlib.crc32(x.encode("utf-8", "replace"))
    return r


_shash0 = {}
_SELF = 77777


def shash(x, colour, memo=None):
    """a hash of the structure of x that does not depend on when its parts
    were made; free variables hash as colour[x]"""
    if memo is None:
        memo = {}
    if x in colour:
        return colour[x]
    closed = not any(v in colour for v in x.fv)
    m = _shash0 if closed else memo
    r = m.get(x)
    if r is not None:
        return r
    if x.op == "fresh":
        r = hash((1, _hs(x.args[1])))
    elif x.op == "poly":
        tot = 0
        for mono, c in pdict(x).items():
            q = 0
            for a, e in mono:
                q += hash((shash(a, colour, memo), e))
            tot += hash((q, c))
        r = hash((2, tot))
    else:
        r = hash((3, _hs(x.op), _sh_args(x.args, colour, memo)))
    m[x] = r
    return r


def _sh_args(args, colour, memo):
    out = []
    for a in args:
        if type(a) is T:
            out.append(shash(a, colour, memo))
        elif type(a) is tuple:
            out.append(_sh_args(a, colour, memo))
        elif type(a) is str:
            out.append(_hs(a))
        elif isinstance(a, (int, Fraction)):
            out.append(hash(a))
        else:
            out.append(_hs(str(type(a))))
    return hash(tuple(out))


def colours(items):
    """items: {symbol: (init, next)} -> symbols ordered by the structure of
    what they stand for, as far as structure tells them apart"""
    col = {s: hash((_hs(s.args[1]), shash(init, {}))) for s, (init, nx) in items.items()}
    if len(items) > 1:
        for _ in range(min(len(items), 3)):
            new = {}
            for s, (init, nx) in items.items():
                own = dict(col)
                own[s] = _SELF
                new[s] = hash((col[s], shash(nx, own)))
            col = new
    return sorted(items, key=lambda s: col[s])


def apply(lam, *xs):
    k = lam.args[0]
    body = lam.args[2]
    m = {}
    # kinds recorded in the bound variable
    found = {}
    _find_bv(body, k, found, set())
    for j, b in found.items():
        m[b] = xs[j]
    if not m:
        return body
    return subst(body, m)


def _find_bv(t, k, found, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op == "bv":
        if t.args[0] == k:
            found[t.args[1]] = t
        return
    if t.op == "lam" and t.args[0] == k:
        return
    kids = []
    _scan(t.args, kids)
    for x in kids:
        _find_bv(x, k, found, seen)


_contains_cache = {}


def has_bv(t, k):
    key = (t, k)
    r = _contains_cache.get(key)
    if r is None:
        found = {}
        _find_bv(t, k, found, set())
        r = bool(found)
        _contains_cache[key] = r
    return r


def subst(t, m, memo=None):
    """rebuild t with leaves replaced"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _hit(t, m):
    return t in m


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    r = _rebuild(t, lambda x: _subst(x, m, memo))
    memo[t] = r
    return r


def _map_args(args, f):
    out = []
    ch = False
    for a in args:
        if type(a) is T:
            b = f(a)
            ch = ch or b is not a
            out.append(b)
        elif type(a) is tuple:
            b = _map_args(a, f)
            ch = ch or b is not a
            out.append(b)
        else:
            out.append(a)
    return tuple(out) if ch else args


def _rebuild(t, f):
    if not t.args:
        return t
    if t.op == "poly":
        mp = {}
        ch = False
        for m, _ in t.args[0]:
            for a, _e in m:
                if a not in mp:
                    b = f(a)
                    mp[a] = b
                    ch = ch or b is not a
        if not ch:
            return t
        out = ZERO
        for m, c in t.args[0]:
            if all(mp[a] is a for a, _ in m):
                out = add(out, mkpoly({m: c}))
                continue
            same = {a: e for a, e in m if mp[a] is a}
            r = mkpoly(_dmul({(): c}, {tuple(sorted(same.items(), key=lambda it: it[0].id)): F(1)}))
            for a, e in m:
                if mp[a] is not a:
                    x = mp[a]
                    r = mul(r, pow_(x, e) if e != 1 else aspoly(x))
            out = add(out, r)
        return out
    if t.op in ("var", "fresh", "bv", "str", "none", "cls", "clo", "mod", "builtin", "ref"):
        return t
    args = _map_args(t.args, f)
    if args is t.args:
        return t
    return build(t.op, args)


def build(op, args):
    b = BUILDERS.get(op)
    if b is not None:
        return b(*args)
    return mk(op, *args)


# ----------------------------------------------------------------------------
# sums and reductions


def lam_from(t, v, body):
    return mklam([v], body)


def sum_(L, v, body):
    """sum over 0 <= v < L of body (v a fresh variable)"""
    L = aspoly(L)
    body = aspoly(body)
    c = const(L)
    if c is not None:
        if c <= 0:
            return ZERO
        if c <= 1 or c <= 24 and (c <= 8 or body.size < 400) and not indexes_data(body, v):
            out = ZERO
            for i in range(int(c)):
                out = add(out, subst(body, {v: num(i)}))
            return out
    if v not in body.fv:
        return mul(L, body)
    # peel constants off the bound
    d = pdict(L)
    k = d.get((), F(0))
    if k and len(d) == 2 and abs(k) <= 2 and k.denominator == 1:
        (m0, c0), = [(m, cc) for m, cc in d.items() if m != ()]
        if c0 == 1 and len(m0) == 1 and m0[0][1] == 1 and m0[0][0].op in ("var", "fresh", "bv"):
            L0 = sub(L, num(k))
            if k > 0 and prove_ge0(L0):
                out = sum_(L0, v, body)
                for i in range(int(k)):
                    out = add(out, subst(body, {v: add(L0, num(i))}))
                return out
            if k < 0 and prove_ge0(L) and not indexes_any(body, v):
                out = sum_(L0, v, body)
                for i in range(int(-k)):
                    out = sub(out, subst(body, {v: add(L0, num(k + i))}))
                return out
    out = ZERO
    short = None
    if k < 0 and len(d) == 2 and k >= -2 and k.denominator == 1 and prove_ge0(L):
        short = sub(L, num(k))
    for m, c in pdict(body).items():
        invm = []
        dep = []
        for a, e in m:
            (dep if v in a.fv else invm).append((a, e))
        coef = mkpoly({tuple(invm): c})
        if not dep:
            out = add(out, mul(coef, L))
            continue
        if len(dep) == 1 and dep[0][0] is v and dep[0][1] == 1:
            out = add(out, mul(coef, L, sub(L, ONE), num(F(1, 2))))
            continue
        # delta
        delta = None
        for a, e in dep:
            if a.op == "eq0":
                pd = pdict(a.args[0])
                cv = pd.get(((v, F(1)),))
                if cv is not None and abs(cv) == 1:
                    rest = sub(a.args[0], mkpoly({((v, F(1)),): cv}))
                    if v not in rest.fv:
                        delta = (a, scale(rest, -cv))
                        break
        if delta is not None:
            a, point = delta
            others = mkpoly({tuple((b, e) for b, e in dep if b is not a): F(1)})
            inr = and_(ge0(point), gt0(sub(L, point)))
            if inr is not ZERO:
                out = add(out, mul(coef, inr, subst(others, {v: point})))
            continue
        # order conditions on v: split ranges is not attempted
        db = mkpoly({tuple(dep): F(1)})
        off = _shift(db, v)
        if off:
            # align the window: sum f(v + off) over v < L equals sum f(v) + ends
            vp = aspoly(v)
            db0 = subst(db, {v: sub(vp, num(off))})
            if off > 0:
                for i in range(off):
                    out = add(out, mul(coef, sub(subst(db0, {v: add(L, num(i))}), subst(db0, {v: num(i)}))))
            else:
                if prove_ge0(add(L, num(off))):
                    for i in range(-off):
                        out = add(out, mul(coef, subst(db, {v: num(i)})))
                    out = add(out, mul(coef, sum_(add(L, num(off)), v, db0)))
                    continue
                for i in range(-off):
                    out = add(out, mul(coef, sub(subst(db, {v: num(-1 - i - off)}), subst(db0, {v: sub(L, num(i + 1))}))))
            out = add(out, mul(coef, sum_(L, v, db0)))
            continue
        if short and reaches(db, v, short, k):
            # elements up to the full bound exist: sum over all, less the last
            out = add(out, mul(coef, sum_(short, v, db)))
            for i in range(int(-k)):
                out = sub(out, mul(coef, subst(db, {v: add(short, num(k + i))})))
            continue
        lam = mklam([v], db)
        out = add(out, mul(coef, mkpoly({((mk("sum", L, lam), F(1)),): F(1)})))
    return out


_idc = {}


def indexes_data(x, v):
    """does v select elements of the input in x?"""
    if v not in x.fv:
        return False
    r = _idc.get((x, v))
    if r is None:
        r = False
        if x.op == "idx" and x.args[2] == "face" and v in x.args[1].fv:
            r = True
        else:
            kids = []
            _scan(x.args, kids)
            r = any(indexes_data(k, v) for k in kids)
        _idc[(x, v)] = r
    return r


def reaches(x, v, full, k):
    """do all sequence elements x selects at full+k <= v < full exist?"""
    if v not in x.fv:
        return True
    if x.op == "idx" and v in x.args[1].fv:
        if v in x.args[0].fv:
            return False
        e = aspoly(x.args[1])
        c = pdict(e).get(((v, F(1)),))
        if c is None or c <= 0 or v in sub(e, scale(aspoly(v), c)).fv:
            return False
        n = length(x.args[0])
        if not prove_ge0(sub(sub(n, ONE), subst(e, {v: sub(full, ONE)}))):
            return False
        return prove_ge0(subst(e, {v: add(full, num(k))}))
    kids = []
    _scan(x.args, kids)
    return all(reaches(y, v, full, k) for y in kids)


def indexes_any(x, v):
    """does v select elements of any sequence in x?"""
    if v not in x.fv:
        return False
    if x.op == "idx" and v in x.args[1].fv:
        return True
    kids = []
    _scan(x.args, kids)
    return any(indexes_any(k, v) for k in kids)


def _shift(x, v):
    """least constant offset at which v indexes sequences in x (0 if none or large)"""
    best = [None]
    seen = set()

    def walk(y):
        if v not in y.fv or y in seen:
            return
        seen.add(y)
        if y.op == "idx" and v not in y.args[0].fv:
            d = pdict(aspoly(y.args[1]))
            if d.get(((v, F(1)),)) == 1:
                c = d.get((), F(0))
                if c.denominator == 1 and (best[0] is None or c < best[0]):
                    best[0] = int(c)
        kids = []
        _scan(y.args, kids)
        for k in kids:
            walk(k)

    walk(x)
    if best[0] is None or abs(best[0]) > 2:
        return 0
    return best[0]


def b_sum(L, lam):
    v = fresh()
    return sum_(L, v, apply(lam, v))


def maxr(L, v, body, least=None):
    """maximum over 0 <= v < L (assumed non-empty unless combined)"""
    c = const(aspoly(L))
    if v not in body.fv:
        return aspoly(body)
    if c is not None and (c == 1 or 0 < c <= 24 and not indexes_data(body, v)):
        out = None
        for i in range(int(c)):
            x = subst(body, {v: num(i)})
            out = x if out is None else max2(out, x)
        return out
    return aspoly(mk("maxr", aspoly(L), mklam([v], aspoly(body))))


def b_maxr(L, lam):
    v = fresh()
    return maxr(L, v, apply(lam, v))


# ----------------------------------------------------------------------------
# faces

HEADS = var("heads", "face")
TAILS = var("tails", "face")


def is_face(t):
    if t is HEADS or t is TAILS:
        return True
    if t.op == "idx":
        return t.args[2] == "face"
    if t.op in ("fresh", "var", "bv") and t.args[-1] == "face":
        return True
    if t.op == "ite":
        return is_face(t.args[1]) and is_face(t.args[2])
    return False


def hd(t):
    if t is HEADS:
        return ONE
    if t is TAILS:
        return ZERO
    if t.op == "ite":
        c, a, b = t.args
        return add(mul(c, hd(a)), mul(not_(c), hd(b)))
    if t.op == "face":
        return t.args[0]
    return _look(mk("hd", t))


def eq(a, b):
    """Python =="""
    if a is b:
        return ONE
    if is_face(a) and is_face(b):
        x, y = hd(a), hd(b)
        return add(mul(x, y), mul(not_(x), not_(y)))
    r = _lift_ite(eq, a, b)
    if r is not None and not (a.op == "ite" and numeric(a)):
        return r
    if numeric(a) and numeric(b):
        return eq0(sub(a, b))
    if distinct(a, b):
        return ZERO
    if is_seq(a) and is_seq(b):
        r = seq_eq(a, b)
        if r is not None:
            return r
    if (a.op in ("none", "str", "tup", "seq", "arr", "dict") and numeric(b)) or (
        b.op in ("none", "str", "tup", "seq", "arr", "dict") and numeric(a)
    ):
        return ZERO
    if (a is NONE and b.op in ("rec", "ref", "obj", "arr", "seq", "tup", "str", "cls", "clo")) or (
        b is NONE and a.op in ("rec", "ref", "obj", "arr", "seq", "tup", "str", "cls", "clo")
    ):
        return ZERO
    if a.id > b.id:
        a, b = b, a
    return _look(mk("eq", a, b))


# ----------------------------------------------------------------------------
# sequences

SEQOPS = {"seq", "tup", "arr", "cat", "flat", "lset", "lcontent"}
SEQAPPS = {"dkeys", "values", "ditems", "fft", "slice", "sorted", "uniq"}


def is_seq(t):
    return t.op in SEQOPS or (t.op == "ite" and is_seq(t.args[1]) and is_seq(t.args[2])) or (
        t.op in ("var", "fresh", "bv") and t.args[-1] in ("seq", "faces")
    ) or (t.op in ("idx", "proj") and t.args[2] == "seq") or (t.op == "app" and t.args[0] in SEQAPPS)


def seq(*items):
    return mk("seq", *items)


def arr(L, v, body):
    L = aspoly(L)
    c = const(L)
    if c is not None and (c <= 1 or c <= 64 and not indexes_data(body, v)):
        return mk("seq", *[subst(body, {v: num(i)}) for i in range(max(0, int(c)))])
    # eta
    if body.op == "idx" and body.args[1] is v and v not in body.args[0].fv:
        if length(body.args[0]) is L:
            return body.args[0]
    return mk("arr", L, mklam([v], body))


def b_arr(L, lam):
    v = fresh()
    return arr(L, v, apply(lam, v))


def b_flat(L, lam):
    v = fresh()
    return flat(L, v, apply(lam, v))


def flat(L, v, body):
    """concatenation over v of the sequences body"""
    L = aspoly(L)
    if body.op in ("seq", "tup") and len(body.args) == 1:
        return arr(L, v, body.args[0])
    if body.op in ("seq", "tup") and len(body.args) == 0:
        return seq()
    c = const(L)
    if c is not None and (c <= 1 or c <= 24 and not indexes_data(body, v)):
        return cat(*[subst(body, {v: num(i)}) for i in range(max(0, int(c)))])
    return mk("flat", L, mklam([v], body))


def b_idx(s, i, kind):
    return index(s, i)


LENS = {}


def length(s):
    op = s.op
    if op in ("seq", "tup"):
        return num(len(s.args))
    if op == "arr":
        return s.args[0]
    if op == "cat":
        return add(*[length(x) for x in s.args])
    if op == "flat":
        v = fresh()
        return sum_(s.args[0], v, length(apply(s.args[1], v)))
    if op == "ite":
        c, a, b = s.args
        return add(mul(c, length(a)), mul(not_(c), length(b)))
    if op == "str":
        return num(len(s.args[0]))
    if op == "dict":
        return num(len(s.args[0]))
    if s in LENS:
        return LENS[s]
    return aspoly(mk("len", s))


def cat(*ss):
    parts = []
    for s in ss:
        if s.op == "cat":
            parts.extend(s.args)
        elif s.op in ("seq", "tup"):
            if not s.args:
                continue
            if parts and parts[-1].op == "seq":
                parts[-1] = mk("seq", *(parts[-1].args + s.args))
            else:
                parts.append(mk("seq", *s.args))
        else:
            parts.append(s)
    if not parts:
        return seq()
    if len(parts) == 1:
        return parts[0]
    # absorb a one-element prefix/suffix continuing the element function
    changed = True
    while changed and len(parts) > 1:
        changed = False
        for i in range(len(parts) - 1):
            a, b = parts[i], parts[i + 1]
            if a.op == "arr" and b.op == "seq":
                L = a.args[0]
                if apply(a.args[1], L) is b.args[0]:
                    v = fresh()
                    parts[i] = arr(add(L, ONE), v, apply(a.args[1], v))
                    rest = b.args[1:]
                    parts[i + 1 : i + 2] = [mk("seq", *rest)] if rest else []
                    changed = True
                    break
            if a.op == "seq" and b.op == "arr":
                v = fresh()
                with assume([], []):
                    g = apply(b.args[1], sub(mkpoly({((v, F(1)),): F(1)}), ONE))
                z = subst(g, {v: ZERO})
                if z is a.args[-1]:
                    w = arr(add(b.args[0], ONE), v, g)
                    rest = a.args[:-1]
                    parts[i : i + 2] = ([mk("seq", *rest)] if rest else []) + [w]
                    changed = True
                    break
    if len(parts) == 1:
        return parts[0]
    return mk("cat", *parts)


def index(s, i):
    i = aspoly(i)
    op = s.op
    c = const(i)
    if op in ("seq", "tup"):
        n = len(s.args)
        if c is not None and c.denominator == 1:
            if -n <= c < n:
                return s.args[int(c)]
            return mk("app", "indexerror")
        if n == 0:
            return mk("app", "indexerror")
        # symbolic index
        if n <= 64:
            out = s.args[n - 1]
            for k in range(n - 2, -1, -1):
                out = ite(eq0(sub(i, num(k))), s.args[k], out)
            return out
    if op == "arr":
        if c is not None and c < 0:
            return apply(s.args[1], add(s.args[0], i))
        return apply(s.args[1], i)
    if op == "cat":
        if c is not None and c < 0:
            last = s.args[-1]
            L = length(last)
            if prove_ge0(add(L, i)):
                return index(last, add(L, i))
            return index(s, add(length(s), i))
        first = s.args[0]
        L = length(first)
        rest = cat(*s.args[1:])
        inside = gt0(sub(L, i))
        k = const(inside)
        if k == 1:
            return index(first, i)
        if k == 0:
            return index(rest, sub(i, L))
        return ite(inside, index(first, i), index(rest, sub(i, L)))
    if op == "ite":
        return ite(s.args[0], index(s.args[1], i), index(s.args[2], i))
    kind = "any"
    if s.op in ("var", "fresh", "bv") and s.args[-1] == "faces":
        kind = "face"
    if c is not None and c < 0:
        i = add(length(s), i)
    if s in ELEM:
        kind = ELEM[s]
    elif s.op == "app" and s.args[0] in ELEM:
        kind = ELEM[s.args[0]]
    elif s.op in ("proj", "flat", "lset"):
        kind = elem_kind(s, {})
        if kind == "bot":
            kind = "any"
    return mk("idx", s, i, kind)


def _kind_of(x):
    if is_face(x):
        return "face"
    if not numeric(x):
        return "any"
    if is_int(x):
        return "nat" if nonneg(x) else "int"
    return "real"


def _join_kind(a, b):
    if a == b or b == "bot":
        return a
    if a == "bot":
        return b
    s = {a, b}
    if s <= {"nat", "int"}:
        return "int"
    if s <= {"nat", "int", "real"}:
        return "real"
    return "any"


_ek = {}


def elem_kind(s, env):
    """the kind of every element of sequence s"""
    if s in env:
        return env[s]
    op = s.op
    if op in ("seq", "tup"):
        k = "bot"
        for x in s.args:
            k = _join_kind(k, _kind_of(x))
        return k
    if op == "cat":
        k = "bot"
        for x in s.args:
            k = _join_kind(k, elem_kind(x, env))
        return k
    if op == "ite":
        return _join_kind(elem_kind(s.args[1], env), elem_kind(s.args[2], env))
    if op == "arr":
        v = fresh("nat")
        return _kind_of(apply(s.args[1], v))
    if op == "flat":
        v = fresh("nat")
        return elem_kind(apply(s.args[1], v), env)
    if op == "lset":
        return _join_kind(elem_kind(s.args[0], env), _kind_of(s.args[2]))
    if op in ("var", "fresh", "bv"):
        return "face" if s.args[-1] == "faces" else "any"
    if op == "proj" and s.args[0].op in ("fold", "while"):
        key = s
        if not env and key in _ek:
            return _ek[key]
        f, i, _ = s.args
        inits = f.args[2]
        lam = f.args[1]
        if inits.op != "tup":
            return "any"
        carry = [fresh("any") for _ in inits.args]
        nxt = apply(lam, *([fresh("nat")] if f.op == "fold" else []), *carry)
        if nxt.op != "tup":
            return "any"
        k = elem_kind(inits.args[i], env)
        for _ in range(3):
            e2 = dict(env)
            e2[carry[i]] = k
            k2 = _join_kind(k, elem_kind(nxt.args[i], e2))
            if k2 == k:
                break
            k = k2
        else:
            k = "any"
        if not env:
            _ek[key] = k
        return k
    return "any"


#: element kinds of opaque sequences
ELEM = {}


def clampi(x, L):
    """slice bound x brought into 0..L"""
    x = aspoly(x)
    c = const(x)
    if c is not None and c < 0:
        x = add(L, x)
        return max2(ZERO, x)
    if not prove_ge0(x):
        # a possibly negative bound counts from the end
        neg_ = sub(ONE, ge0(x))
        if neg_ is not ZERO:
            lo = max2(ZERO, add(L, x))
            return add(mul(neg_, lo), mul(ge0(x), min2(x, L)))
    return min2(x, L)


def slice_(s, a, b, step=None):
    """s[a:b:step], a/b/step terms or None"""
    if s.op == "ite":
        return ite(s.args[0], slice_(s.args[1], a, b, step), slice_(s.args[2], a, b, step))
    st = ONE if step is None else step
    k = const(st)
    L = length(s)
    if k is not None and k < 0:
        if a is None and b is None:
            r = reverse(s)
            return r if k == -1 else slice_(r, None, None, num(-k))
        return mk("app", "slice", s, a or NONE, b or NONE, st)
    lo = ZERO if a is None else clampi(a, L)
    hi = L if b is None else clampi(b, L)
    n = sub(hi, lo)
    if not prove_ge0(n):
        n = max2(n, ZERO)
    if k != 1:
        n = ceil_(div(n, st))
    if s.op in ("seq", "tup") and const(lo) is not None and const(n) is not None and k == 1:
        i = int(const(lo))
        return mk(s.op, *s.args[i : i + int(const(n))])
    if n is L and lo is ZERO and k == 1:
        return s
    if s.op == "cat" and k == 1:
        # drop or keep whole parts when the cut falls on a border
        r = _cat_slice(s, lo, n)
        if r is not None:
            return r
    v = fresh()
    with assume([sub(n, add(v, ONE)), v]):
        e = index(s, add(lo, v if k == 1 else mul(v, st)))
    return arr(n, v, e)


def _cat_slice(s, lo, n):
    parts = list(s.args)
    while parts and const(sub(lo, length(parts[0]))) is not None and const(sub(lo, length(parts[0]))) >= 0:
        lo = sub(lo, length(parts[0]))
        parts = parts[1:]
    if not parts:
        return None
    while parts and lo is ZERO:
        tot = length(cat(*parts))
        rest = sub(tot, n)
        Lp = length(parts[-1])
        c = const(sub(rest, Lp))
        if c is not None and c >= 0:
            parts = parts[:-1]
            continue
        break
    if lo is ZERO and parts and length(cat(*parts)) is n:
        return cat(*parts)
    p = parts[0]
    if p.op == "seq" and const(lo) is not None and const(lo) < len(p.args):
        k = int(const(lo))
        if k:
            return slice_(cat(mk("seq", *p.args[k:]), *parts[1:]), None, n)
    return None


def reverse(s):
    if s.op in ("seq", "tup"):
        return mk(s.op, *reversed(s.args))
    if s.op == "cat":
        return cat(*[reverse(x) for x in reversed(s.args)])
    if s.op == "ite":
        return ite(s.args[0], reverse(s.args[1]), reverse(s.args[2]))
    L = length(s)
    v = fresh()
    with assume([sub(L, add(v, ONE)), v]):
        e = index(s, sub(L, add(v, ONE)))
    return arr(L, v, e)


def smap(s, f):
    """map a Python function over the elements"""
    op = s.op
    if op in ("seq", "tup"):
        return mk("seq", *[f(x) for x in s.args])
    if op == "cat":
        return cat(*[smap(x, f) for x in s.args])
    if op == "ite":
        return ite(s.args[0], smap(s.args[1], f), smap(s.args[2], f))
    if op == "flat":
        v = fresh()
        with assume([sub(s.args[0], add(v, ONE)), v]):
            b = smap(apply(s.args[1], v), f)
        return flat(s.args[0], v, b)
    L = length(s)
    v = fresh()
    with assume([sub(L, add(v, ONE)), v]):
        e = f(index(s, v))
    return arr(L, v, e)


def sexpand(s, f):
    """concatenate f(element) (each a sequence) over the elements"""
    op = s.op
    if op in ("seq", "tup"):
        return cat(*[f(x) for x in s.args])
    if op == "cat":
        return cat(*[sexpand(x, f) for x in s.args])
    if op == "ite":
        return ite(s.args[0], sexpand(s.args[1], f), sexpand(s.args[2], f))
    L = s.args[0] if op == "flat" else length(s)
    v = fresh()
    with assume([sub(L, add(v, ONE)), v]):
        e = sexpand(apply(s.args[1], v), f) if op == "flat" else f(index(s, v))
    return flat(L, v, e)


def ssum(s, g=None):
    """sum of g(element)"""
    op = s.op
    if op in ("seq", "tup"):
        r = ZERO
        for x in s.args:
            r = add(r, g(x) if g else x)
        return r
    if op == "cat":
        r = ZERO
        for x in s.args:
            r = add(r, ssum(x, g))
        return r
    if op == "ite":
        return add(mul(s.args[0], ssum(s.args[1], g)), mul(not_(s.args[0]), ssum(s.args[2], g)))
    if op == "flat":
        v = fresh()
        with assume([sub(s.args[0], add(v, ONE)), v]):
            b = ssum(apply(s.args[1], v), g)
        return sum_(s.args[0], v, b)
    if op == "app" and s.args[0] == "values":
        r = sum_values(s.args[1], g)
        if r is not None:
            return r
    L = length(s)
    v = fresh()
    with assume([sub(L, add(v, ONE)), v]):
        e = index(s, v)
        e = g(e) if g else e
    return sum_(L, v, e)


def sum_values(d, g):
    """sum over a tally's values of g(value)"""
    v = fresh("real")
    body = g(mkpoly({((v, F(1)),): F(1)})) if g else mkpoly({((v, F(1)),): F(1)})
    if d.op == "tally":
        base = d.args[0]
        # linear in the value: total of weights (keys of the base are none)
        if body is mkpoly({((v, F(1)),): F(1)}) and base.op == "dict" and not base.args[0]:
            return tally_total(d)
        kind = "int" if tally_int(d) else "real"
        w = fresh("nat" if kind == "int" else "real")
        body = subst(aspoly(body), {v: w})
        out = ZERO
        for m, c in pdict(body).items():
            dep = tuple((a, e) for a, e in m if w in a.fv)
            invm = tuple((a, e) for a, e in m if w not in a.fv)
            if dep == ((w, F(1)),) and base.op == "dict" and not base.args[0]:
                out = add(out, mul(mkpoly({invm: c}), tally_total(d)))
                continue
            if not dep:
                out = add(out, mul(mkpoly({invm: c}), length_keys(d)))
                continue
            lam = mklam([w], mkpoly({dep: F(1)}))
            out = add(out, mul(mkpoly({invm: c}), aspoly(mk("sumv", d, lam))))
        return out
    return None


def length_keys(d):
    return aspoly(mk("len", mk("app", "values", d)))


def tally_int(d):
    if d.op != "tally":
        return False
    lam = d.args[2]
    body = lam.args[2]
    return is_int(body.args[1])


def tally_total(d):
    base, L, lam = d.args
    v = fresh()
    kv = apply(lam, v)
    return sum_(L, v, kv.args[1])


def b_sumv(d, lam):
    if d.op == "tally":
        return sum_values(d, lambda x: apply(lam, x))
    return mk("sumv", d, lam)


def smax(s, g=None, init=None, sign=1):
    """max (sign=-1: min) of a sequence, with an optional element to include"""
    g = g or (lambda x: x)
    op = s.op
    m2 = max2 if sign == 1 else min2

    def comb(a, b):
        return b if a is None else a if b is None else m2(a, b)

    if op in ("seq", "tup"):
        r = init
        for x in s.args:
            r = comb(r, g(x))
        return r
    if op == "cat":
        r, none = init, ZERO
        for x in s.args:
            y = smax(x, g, None, sign)
            if y is None:
                continue
            e = eq0(length(x))
            if r is None:
                r, none = y, e
            else:
                r, none = ite(none, y, ite(e, r, m2(r, y))), mul(none, e)
        return r
    if op == "ite":
        a, b = smax(s.args[1], g, init, sign), smax(s.args[2], g, init, sign)
        return b if a is None else a if b is None else ite(s.args[0], a, b)
    if op == "flat":
        v = fresh()
        inner = apply(s.args[1], v)
        # filtered or nested sequences: value -inf when empty is not representable
        if inner.op == "ite":
            c, a, b = inner.args
            for cc, x, y in ((c, a, b), (not_(c), b, a)):
                if y.op == "seq" and not y.args and x.op == "seq" and len(x.args) == 1 and sign == 1:
                    e = g(x.args[0])
                    z = const(init) if init is not None else None
                    if z == 0 and numeric(e) and nonneg(e):
                        return maxr(s.args[0], v, mul(cc, e))
        r = mk("app", "maxseq" if sign == 1 else "minseq", smap(s, g), init if init is not None else NONE)
        return aspoly(r)
    L = length(s)
    v = fresh()
    with assume([sub(L, add(v, ONE)), v]):
        e = aspoly(g(index(s, v)))
    r = maxr(L, v, scale(e, sign))
    r = scale(r, sign)
    if init is not None:
        r = ite(eq0(L), init, m2(init, r))
    return r


def seq_eq(a, b):
    la, lb = length(a), length(b)
    if a.op in ("seq", "tup") and b.op in ("seq", "tup"):
        if len(a.args) != len(b.args):
            return ZERO
        r = ONE
        for x, y in zip(a.args, b.args):
            r = and_(r, eq(x, y))
        return r
    leq = eq0(sub(la, lb))
    if leq is ZERO:
        return ZERO
    if a.op in ("flat", "cat") or b.op in ("flat", "cat"):
        return None
    L = la
    v = fresh()
    with assume([sub(L, add(v, ONE)), v]):
        e = eq(index(a, v), index(b, v))
    return mul(leq, eq0(sum_(L, v, not_(e))))


# ----------------------------------------------------------------------------
# special functions


def erfc(x):
    x = aspoly(x)
    c = const(x)
    if c == 0:
        return ONE
    if c is None and not prove_ge0(x) and (prove_ge0(neg(x)) or _lead(x) < 0):
        return sub(num(2), mkpoly({((mk("erfc", neg(x)), F(1)),): F(1)}))
    return mkpoly({((mk("erfc", x), F(1)),): F(1)})


def gammaincc(a, x):
    return mkpoly({((mk("gammaincc", aspoly(a), aspoly(x)), F(1)),): F(1)})


def app(name, *args):
    return mk("app", name, *args)


def b_ge0(p):
    return ge0(p)


def b_grp(p):
    return aspoly(p)


def b_app(name, *args):
    f = APP_BUILD.get(name)
    if f:
        return f(*args)
    return mk("app", name, *args)


APP_BUILD = {}


def b_lam(k, n, body):
    # bodies are rebuilt under the binder: recompute canonical height
    nk = body.hgt + 1
    if nk == k:
        return mk("lam", k, n, body)
    found = {}
    _find_bv(body, k, found, set())
    fr = {}
    vs = [None] * n
    for j, b in found.items():
        f = fresh(b.args[2])
        fr[b] = f
        vs[j] = f
    for j in range(n):
        if vs[j] is None:
            vs[j] = fresh()
    return mklam(vs, subst(body, fr))


def b_tally(base, L, lam):
    return mk("tally", base, L, lam)


BUILDERS = {
    "sum": b_sum,
    "maxr": b_maxr,
    "arr": b_arr,
    "flat": b_flat,
    "idx": b_idx,
    "ge0": ge0,
    "gt0": gt0,
    "eq0": eq0,
    "eq": eq,
    "hd": lambda t: hd(t),
    "floor": floor_,
    "trunc": trunc,
    "abs": abs_,
    "grp": b_grp,
    "pow": lambda b, e: power(b, e),
    "log": log,
    "erfc": erfc,
    "ite": ite,
    "cat": cat,
    "app": b_app,
    "lam": b_lam,
    "len": lambda s: length(s),
    "sumv": b_sumv,
    "num": lambda t: aspoly(t),
}


# ----------------------------------------------------------------------------
# step functions of one linear quantity

_stepc = {}


def _pw(q):
    """q as a piecewise linear function of one polynomial p: (p, value(y), breakpoints, has_kinks) or None"""
    groups = {}
    d = pdict(q)
    if len(d) > 60:
        return None
    for m, c in d.items():
        bs = tuple(a for a, e in m if a.op in ("ge0", "gt0", "eq0"))
        rest = tuple((a, e) for a, e in m if a.op not in ("ge0", "gt0", "eq0"))
        groups.setdefault(bs, {})[rest] = c
    base = [None]
    parts = []
    pts = set()
    kinks = False

    def norm(dd):
        p = mkpoly(dd)
        cont, _ = content(p)
        p = scale(p, qd(1, cont))
        if _lead(p) < 0:
            return neg(p), -cont
        return p, cont

    def setbase(p):
        if base[0] is None:
            base[0] = p
        return base[0] is p

    for bs, g in groups.items():
        tests = []
        for a in bs:
            s = stepinfo(a)
            if s is None or not setbase(s[0]):
                return None
            tests.append(s[2])
            pts.update(s[1])
            kinks = kinks or s[3]
        c0 = F(0)
        lin = {}
        ab = []
        al = F(0)
        for m, c in g.items():
            if m == ():
                c0 = c
            elif len(m) == 1 and m[0][0].op == "abs" and m[0][1] == 1:
                ab.append((c, m[0][0].args[0]))
            elif any(a.op == "abs" or is_boolatom(a) for a, e in m) and bs:
                return None
            else:
                lin[m] = c
        if lin:
            p, al = norm(lin)
            if not setbase(p):
                return None
        abl = []
        for c, arg in ab:
            w = _pw(arg)
            if w is None or not setbase(w[0]):
                return None
            abl.append((c, w[1]))
            pts.update(_roots(w[1], w[2]))
            kinks = True
        parts.append((tests, c0, al, abl))
    if base[0] is None:
        return None

    def val(y):
        tot = F(0)
        for tests, c0, al, abl in parts:
            if all(f(y) for f in tests):
                tot += c0 + al * y
                for k, w in abl:
                    tot += k * abs(w(y))
        return tot

    return base[0], val, sorted(pts), kinks or len(groups) > 1


def _roots(val, kinks):
    """the kinks and zeros of a piecewise linear function"""
    pts = set(kinks)
    edges = [None] + sorted(kinks) + [None]
    for i in range(len(edges) - 1):
        lo, hi = edges[i], edges[i + 1]
        if lo is None and hi is None:
            x0, x1 = F(0), F(1)
        elif lo is None:
            x0, x1 = hi - 2, hi - 1
        elif hi is None:
            x0, x1 = lo + 1, lo + 2
        else:
            x0, x1 = lo + qd(hi - lo, 3), lo + qd(2 * (hi - lo), 3)
        y0, y1 = val(x0), val(x1)
        if y0 != y1:
            root = x0 - qd(y0 * (x1 - x0), y1 - y0)
            if (lo is None or root >= lo) and (hi is None or root <= hi):
                pts.add(root)
    return pts


def stepinfo(atom):
    """a comparison as a test on one polynomial p: (p, points where it may change, test(y), compound)"""
    if atom in _stepc:
        return _stepc[atom]
    _stepc[atom] = None
    r = None
    if atom.op in ("ge0", "gt0", "eq0"):
        b = _pw(atom.args[0])
        if b is not None:
            p, val, kinks, comp = b
            pts = _roots(val, kinks)
            op = atom.op

            def test(y):
                z = val(y)
                return (z >= 0) if op == "ge0" else (z > 0) if op == "gt0" else (z == 0)

            r = (p, sorted(pts), test, comp)
    _stepc[atom] = r
    return r


_stepsc = {}


def steps(x, depth=4):
    if x.op in ("tup", "seq") and len(x.args) <= 64:
        a = [steps(y, depth) for y in x.args]
        return x if all(p is q for p, q in zip(a, x.args)) else mk(x.op, *a)
    if x.op == "rec":
        return mk("rec", x.args[0], tuple((k, steps(y, depth)) for k, y in x.args[1]))
    if x.op == "ite":
        c = steps(x.args[0])
        if c is not x.args[0]:
            return ite(c, x.args[1], x.args[2])
        return x
    if x.op != "poly":
        if x.op in ("ge0", "gt0", "eq0"):
            return _steps_poly(aspoly(x))
        return x
    return _steps_poly(x)


def _steps_poly(x):
    key = (x, CTX.version)
    r = _stepsc.get(key)
    if r is not None:
        return r
    y = x
    for _ in range(3):
        z = _steps_once(y)
        if z is y:
            break
        y = z
    if len(_stepsc) > 20000:
        _stepsc.clear()
    _stepsc[key] = y
    return y


def _steps_once(x):
    bases = {}
    for m, c in pdict(x).items():
        for a, e in m:
            if a.op in ("ge0", "gt0", "eq0"):
                s = stepinfo(a)
                if s is not None:
                    bases.setdefault(s[0], {})[a] = s
    for p in sorted(bases, key=lambda q: q.id):
        atoms = bases[p]
        if len(atoms) < 2 and not any(s[3] for s in atoms.values()):
            continue
        if len(atoms) > 60:
            continue
        groups = {}
        for m, c in pdict(x).items():
            mine = tuple(a for a, e in m if a in atoms)
            rest = tuple((a, e) for a, e in m if a not in atoms)
            groups.setdefault(rest, []).append((c, mine))
        out = ZERO
        for rest, items in groups.items():
            used = {a for _, mine in items for a in mine}
            if len(used) < 2 and not any(atoms[a][3] for a in used):
                for c, mine in items:
                    out = add(out, mkpoly({tuple(sorted(rest + tuple((a, F(1)) for a in mine), key=lambda it: it[0].id)): c}))
                continue
            f = _rebuild_steps(p, items, atoms, used)
            out = add(out, mul(mkpoly({rest: F(1)}), f))
        if out is not x:
            return out
    return x


def _rebuild_steps(p, items, atoms, used):
    def f(y):
        tot = F(0)
        memo = {}
        for c, mine in items:
            ok = True
            for a in mine:
                r = memo.get(a)
                if r is None:
                    r = memo[a] = atoms[a][2](y)
                if not r:
                    ok = False
                    break
            if ok:
                tot += c
        return tot

    pts = sorted({b for a in used for b in atoms[a][1]})
    if is_int(p):
        th = sorted({-((-b.numerator) // b.denominator) for b in pts} | {b.numerator // b.denominator + 1 for b in pts})
        base = f(F(th[0] - 1))
        out = num(base)
        jumps = []
        prev = base
        for b in th:
            v = f(F(b))
            if v != prev:
                jumps.append((b, v - prev))
            prev = v
        i = 0
        while i < len(jumps):
            b, j = jumps[i]
            if i + 1 < len(jumps) and jumps[i + 1] == (b + 1, -j):
                out = add(out, scale(eq0(sub(p, num(b))), j))
                i += 2
                continue
            out = add(out, scale(ge0(sub(p, num(b))), j))
            i += 1
        return out
    out = None
    prev = f(pts[0] - 1)
    out = num(prev)
    for i, b in enumerate(pts):
        w = f(b)
        nx = f(qd(b + pts[i + 1], 2) if i + 1 < len(pts) else b + 1)
        j1, j2 = w - prev, nx - w
        if j1 and j1 == -j2:
            out = add(out, scale(eq0(sub(p, num(b))), j1))
        else:
            if j1:
                out = add(out, scale(ge0(sub(p, num(b))), j1))
            if j2:
                out = add(out, scale(gt0(sub(p, num(b))), j2))
        prev = nx
    return out


def maxi(L, j, body, init, sgn):
    """running maximum (sgn 1) or minimum (-1) of init and body over 0 <= j < L"""
    L = aspoly(L)
    c = const(L)
    f = max2 if sgn == 1 else min2
    if c is not None and c <= 24:
        out = init
        for i in range(int(max(c, 0))):
            out = f(out, subst(body, {j: num(i)}))
        return out
    if j not in body.fv:
        if nonneg(sub(L, ONE)):
            return f(init, body)
    else:
        # the initial value continues the element function: one range
        prev = subst(body, {j: num(-1)})
        if prev is init:
            k = fresh("nat")
            r = maxr(add(L, ONE), k, scale(subst(body, {j: sub(aspoly(k), ONE)}), sgn))
            return scale(r, sgn)
        if nonneg(sub(L, ONE)):
            with assume([aspoly(j), sub(L, add(aspoly(j), ONE))]):
                if prove_ge0(scale(sub(body, init), sgn)):
                    return scale(maxr(L, j, scale(body, sgn)), sgn)
    return aspoly(mk("maxi", L, mklam([j], aspoly(body)), aspoly(init), sgn))


def b_maxi(L, lam, init, sgn):
    v = fresh("nat")
    return maxi(L, v, apply(lam, v), init, sgn)


def bitop(op, a, b):
    if a.id > b.id:
        a, b = b, a
    return aspoly(mk(op, aspoly(a), aspoly(b)))


def first(L, lam):
    return aspoly(mk("first", L, lam))


def isref(x):
    return x.op in ("list", "set", "iter", "hdict", "dlist", "inst", "lazy")


def merge(c, a, b):
    if a is b:
        return a
    if a.op == b.op and a.op in ("list", "set", "iter"):
        return mk(a.op, ite(c, a.args[0], b.args[0]))
    return ite(c, a, b)


MISSING = mk("missing")


def keyeq(a, b):
    if a is b:
        return ONE
    return aspoly(eq(a, b))


def dget(d, k, default):
    if d.op == "dict":
        out = default
        for k2, v2, p2 in reversed(d.args[0]):
            c = mul(keyeq(k, k2), p2)
            cc = const(c)
            if cc == 0:
                continue
            if cc == 1:
                out = v2
                continue
            out = v2 if out is MISSING else merge(c, v2, out)
        return steps(out)
    if d.op == "dset":
        c = keyeq(k, d.args[1])
        if const(c) == 1:
            return d.args[2]
        rest = dget(d.args[0], k, default)
        return merge(c, d.args[2], rest) if const(c) != 0 else rest
    if d.op == "ite":
        return merge(d.args[0], dget(d.args[1], k, default), dget(d.args[2], k, default))
    if d.op == "tally":
        base, L, lam = d.args
        if const(L) is not None and const(L) <= 0:
            return dget(base, k, default)
        b = dget(base, k, default)
        if default is ZERO or (numeric(b) and b is not default):
            if numeric(b):
                v = fresh("nat")
                with assume([aspoly(v), sub(L, add(aspoly(v), ONE))]):
                    e = apply(lam, v)
                    body = mul(keyeq(e.args[0], k), e.args[1], e.args[2])
                return add(b, sum_(L, v, body))
    if d.op == "dgroup" and default.op == "list":
        base, L, lam = d.args
        b = dget(base, k, default)
        if b.op == "list":
            v = fresh("nat")
            with assume([aspoly(v), sub(L, add(aspoly(v), ONE))]):
                e = apply(lam, v)
                c = mul(keyeq(e.args[0], k), e.args[2])
            return mk("list", cat(b.args[0], flat(L, v, ite(c, e.args[1], seq()))))
    if d.op == "scat" and const(d.args[1]) is not None and const(d.args[1]) <= 0:
        return dget(d.args[0], k, default)
    return mk("dget", d, k, default)


def dhas(d, k):
    if d.op == "dict":
        r = ZERO
        for k2, v2, p2 in d.args[0]:
            r = or_(r, mul(keyeq(k, k2), p2))
        return steps(r)
    if d.op == "dset":
        return or_(keyeq(k, d.args[1]), dhas(d.args[0], k))
    if d.op in ("tally", "scat", "dgroup"):
        base, L, lam = d.args
        v = fresh("nat")
        with assume([aspoly(v), sub(L, add(aspoly(v), ONE))]):
            e = apply(lam, v)
            c = mul(keyeq(e.args[0], k), e.args[2])
        return or_(dhas(base, k), gt0(sum_(L, v, c)))
    if d.op == "ite":
        return aspoly(ite(d.args[0], dhas(d.args[1], k), dhas(d.args[2], k)))
    return _look(mk("dhas", d, k))


def b_tally2(kind):
    def f(base, L, lam):
        c = const(aspoly(L))
        if c is not None and c <= 0:
            return base
        return mk(kind, base, L, lam)

    return f


def dset(d, k, v):
    if d.op == "dict":
        ents = d.args[0]
        ok = True
        for i, (k2, v2, p2) in enumerate(ents):
            c = const(keyeq(k, k2))
            if c == 1:
                new = list(ents)
                new[i] = (k2, v, ONE)
                return mk("dict", tuple(new))
            if c is None:
                ok = False
        if ok:
            return mk("dict", ents + ((k, v, ONE),))
    return mk("dset", d, k, v)


def lset(X, i, v):
    """list X with element i replaced"""
    i = aspoly(i)
    c = const(i)
    if X.op in ("seq", "tup"):
        n = len(X.args)
        if c is not None and c.denominator == 1 and -n <= c < n:
            xs = list(X.args)
            xs[int(c)] = v
            return mk("seq", *xs)
        if n <= 40:
            return mk("seq", *[merge(eq0(sub(i, num(k))), v, x) for k, x in enumerate(X.args)])
    if c is not None and c < 0:
        i = add(length(X), i)
        c = None
    if X.op == "arr":
        k = fresh("nat")
        L = X.args[0]
        kp = aspoly(k)
        with assume([kp, sub(L, add(kp, ONE))]):
            old = apply(X.args[1], kp)
            new = merge(eq0(sub(i, kp)), v, old)
        return arr(L, k, new)
    if X.op == "ite":
        return ite(X.args[0], lset(X.args[1], i, v), lset(X.args[2], i, v))
    return mk("lset", X, i, v)


def lcontent(x):
    if x.op in ("list", "set", "iter"):
        return x.args[0]
    if x.op == "ite":
        return ite(x.args[0], lcontent(x.args[1]), lcontent(x.args[2]))
    return mk("lcontent", x)


def dlcontent(x):
    if x.op == "dlist":
        return x.args[0]
    if x.op == "ite":
        return ite(x.args[0], dlcontent(x.args[1]), dlcontent(x.args[2]))
    return mk("dlcontent", x)


def proj(f, i, kind):
    if f.op == "tup":
        return f.args[i]
    return mk("proj", f, i, kind)


def fold(L, lam, inits):
    L = aspoly(L)
    c = const(L)
    if c is not None and c <= 12:
        cur = inits
        for k in range(int(max(c, 0))):
            cur = apply(lam, num(k), *cur.args)
            if cur.op != "tup" or cur.size > 4000:
                return mk("fold", L, lam, inits)
        return cur
    return mk("fold", L, lam, inits)


def while_(lamc, lamn, inits):
    cur = inits
    for _ in range(12):
        c = const(aspoly(apply(lamc, *cur.args)))
        if c is None:
            break
        if c == 0:
            return cur
        cur = apply(lamn, *cur.args)
        if cur.op != "tup" or cur.size > 4000:
            break
    return mk("while", lamc, lamn, inits)


def dkeys(d):
    if d.op == "dict":
        return cat(*[seq(k) if const(p) == 1 else ite(p, seq(k), seq()) for k, v, p in d.args[0]])
    return mk("app", "dkeys", d)


def dvalues(d):
    if d.op == "dict":
        return cat(*[seq(v) if const(p) == 1 else ite(p, seq(v), seq()) for k, v, p in d.args[0]])
    return mk("app", "values", d)


def ditems(d):
    if d.op == "dict":
        return cat(*[seq(mk("tup", k, v)) if const(p) == 1 else ite(p, seq(mk("tup", k, v)), seq()) for k, v, p in d.args[0]])
    return mk("app", "ditems", d)


APP_BUILD["dkeys"] = dkeys
APP_BUILD["values"] = dvalues
APP_BUILD["ditems"] = ditems

BUILDERS["def"] = lambda x, k: define(x)
BUILDERS.update({
    "maxi": b_maxi,
    "first": first,
    "dget": dget,
    "dhas": dhas,
    "dset": dset,
    "tally": b_tally2("tally"),
    "scat": b_tally2("scat"),
    "dgroup": b_tally2("dgroup"),
    "lset": lset,
    "lcontent": lcontent,
    "proj": proj,
    "fold": fold,
    "dlcontent": dlcontent,
    "while": while_,
})


# ----------------------------------------------------------------------------
# printing


def pretty(t, depth=7):
    if depth <= 0:
        return "…"
    op = t.op
    d = depth - 1
    if op == "poly":
        if not t.args[0]:
            return "0"
        parts = []
        for m, c in t.args[0]:
            f = []
            for a, e in m:
                s = pretty(a, d)
                if e != 1:
                    s = f"{s}^{e}" if e.denominator == 1 and e > 0 else f"{s}^({e})"
                f.append(s)
            body = "·".join(f)
            if not body:
                parts.append(str(c))
            elif c == 1:
                parts.append(body)
            elif c == -1:
                parts.append("-" + body)
            else:
                parts.append(f"{c}·{body}")
        s = " + ".join(parts).replace("+ -", "- ")
        return s if len(parts) == 1 else f"({s})"
    if op == "var":
        return t.args[0]
    if op == "fresh":
        return f"_{t.args[0]}"
    if op == "bv":
        return f"i{t.args[0]}" + (f".{t.args[1]}" if t.args[1] else "")
    if op == "str":
        return repr(t.args[0])
    if op == "none":
        return "None"
    if op == "idx":
        return f"{pretty(t.args[0], d)}[{pretty(t.args[1], d)}]"
    if op in ("ge0", "gt0", "eq0"):
        return f"[{pretty(t.args[0], d)} {'≥' if op == 'ge0' else '>' if op == 'gt0' else '='} 0]"
    if op == "lam":
        return f"λi{t.args[0]}.{pretty(t.args[2], d)}"
    if op == "ite":
        return f"({pretty(t.args[1], d)} if {pretty(t.args[0], d)} else {pretty(t.args[2], d)})"
    if op == "sum":
        return f"Σ(i{t.args[1].args[0]}<{pretty(t.args[0], d)}) {pretty(t.args[1].args[2], d)}"
    if op == "floor":
        return f"⌊{pretty(t.args[0], d)}⌋"
    if op == "abs":
        return f"|{pretty(t.args[0], d)}|"
    if op == "pow":
        return f"({pretty(t.args[0], d)}**{pretty(t.args[1], d)})"
    if op == "app":
        return f"{t.args[0]}({', '.join(_pa(a, d) for a in t.args[1:])})"
    if op in ("seq", "tup"):
        xs = [pretty(a, d) for a in t.args[:12]]
        if len(t.args) > 12:
            xs.append("…")
        return ("[%s]" if op == "seq" else "(%s)") % ", ".join(xs)
    if op == "rec":
        return f"{_pa(t.args[0], d)}({', '.join(k + '=' + pretty(v, d) for k, v in t.args[1])})"
    return f"{op}({', '.join(_pa(a, d) for a in t.args)})"


def _pa(a, d):
    if type(a) is T:
        return pretty(a, d)
    if type(a) is tuple:
        return "(" + ", ".join(_pa(x, d) for x in a) + ")"
    return str(a)
