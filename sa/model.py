"""Finite models of value terms.

A term denotes a function of its symbols (sequence length, parameters, which
positions hold the larger face).  Two terms whose normal forms differ are told
apart by giving the symbols values and folding both terms: only a difference
that shows in a model is reported.  Anything a model cannot give a definite
value (unknown operations, division by zero, comparisons within rounding
error) raises Undef and settles nothing.
"""
import cmath
import math
import random
from fractions import Fraction as F

from .terms import T


class Undef(Exception):
    pass


class Face:
    __slots__ = ("name", "rank", "text")

    def __init__(self, name, rank, text=None):
        self.name, self.rank, self.text = name, rank, text or name

    def __repr__(self):
        return self.name

    def __lt__(self, o):
        return self.rank < o.rank


H = Face("H", 1)
TL = Face("T", 0)
X3 = Face("X", 2)


class Rec:
    __slots__ = ("name", "fields")

    def __init__(self, name, fields):
        self.name, self.fields = name, fields

    def __repr__(self):
        return "%s(%s)" % (self.name, self.fields)


class Sym:
    """something opaque: equal only to itself"""

    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return "<%s>" % (str(self.term)[:60])

    def __eq__(self, o):
        return isinstance(o, Sym) and o.term is self.term

    def __hash__(self):
        return hash(self.term)


class Hole:
    """a value nothing is known about"""

    def __init__(self, why):
        self.why = why


EPS = 1e-9
NOTHING = F(7919, 13)  # stands for the largest of nothing, which the code has no value for either


def tidy(x):
    if isinstance(x, F) and x.denominator == 1:
        return x.numerator
    return x


def exact(x):
    return isinstance(x, (int, F))


def sgn(x):
    """sign of a real, not trusting rounding"""
    if isinstance(x, complex) or isinstance(x, (list, tuple, dict, str, Face, Rec, Sym)) or x is None:
        raise Undef("sign of %r" % (x,))
    if exact(x):
        return (x > 0) - (x < 0)
    if math.isnan(x):
        raise Undef("nan")
    if abs(x) < EPS:
        raise Undef("too close to zero")
    return 1 if x > 0 else -1


def hashable(x):
    if isinstance(x, (list, tuple)):
        return tuple(hashable(y) for y in x)
    if isinstance(x, dict):
        raise Undef("dict as key")
    if isinstance(x, Hole):
        raise Undef("unknown key")
    if isinstance(x, float) and x == int(x) if isinstance(x, float) and math.isfinite(x) else False:
        return int(x)
    return tidy(x)


def veq(a, b):
    """Python equality of model values"""
    if isinstance(a, Hole) or isinstance(b, Hole):
        raise Undef("comparison with an unknown")
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, F, float)) and isinstance(b, (int, F, float)):
        return sgn(a - b) == 0
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(veq(a[k], b[k]) for k in a)
    if type(a) is not type(b):
        if isinstance(a, Sym) or isinstance(b, Sym):
            raise Undef("opaque comparison")
        return False
    return a == b


def gser(a, x):
    s = 1.0 / a
    d = s
    k = a
    for _ in range(100000):
        k += 1
        d *= x / k
        s += d
        if abs(d) < abs(s) * 1e-17:
            break
    return s * math.exp(-x + a * math.log(x) - math.lgamma(a))


def gcf(a, x):
    tiny = 1e-300
    b = x + 1 - a
    c = 1 / tiny
    d = 1 / b
    h = d
    for i in range(1, 100000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        d = tiny if abs(d) < tiny else d
        c = b + an / c
        c = tiny if abs(c) < tiny else c
        d = 1 / d
        de = d * c
        h *= de
        if abs(de - 1) < 1e-16:
            break
    return math.exp(-x + a * math.log(x) - math.lgamma(a)) * h


def gammaincc(a, x):
    if a <= 0 or x < 0:
        raise Undef("gammaincc(%s, %s)" % (a, x))
    if x == 0:
        return 1.0
    if x > 1e6 * (a + 1):
        return 0.0
    return 1 - gser(a, x) if x < a + 1 else gcf(a, x)


def hyp1f1(a, b, x):
    s = d = 1.0
    for k in range(100000):
        d *= (a + k) / (b + k) * x / (k + 1)
        s += d
        if abs(d) < abs(s) * 1e-17:
            return s
    raise Undef("hyp1f1")


_free = {}


def free(t):
    """bound variables (level, position) free in t"""
    r = _free.get(t)
    if r is None:
        if t.op == "bv":
            r = frozenset([(t.args[0], t.args[1])])
        else:
            acc = set()
            _acc(t.args, acc)
            if t.op == "lam":
                acc = {x for x in acc if x[0] != t.args[0]}
            r = frozenset(acc)
        _free[t] = r
    return r


def _acc(args, acc):
    for a in args:
        if type(a) is T:
            acc |= free(a)
        elif type(a) is tuple:
            _acc(a, acc)


class Model:
    """values for symbols: {name: value}; faces as lists of Face"""

    def __init__(self, vals, limit=400000, seed=1):
        self.vals = vals
        self.memo = {}
        self.limit = limit
        self.steps = limit
        self.seed = seed
        self.used = 0

    def junk(self, *key):
        """Normal forms may split off terms that lie outside a sequence's range
        or a function's domain and cancel.  Such terms get an arbitrary value;
        what depends on it is undefined (see settle)."""
        self.used += 1
        return F(random.Random(repr((self.seed, key))).randint(10 ** 6, 10 ** 7), 1009)

    def settle(self, t):
        """value of t, Undef when arbitrary values show in it"""
        self.steps = self.limit
        a = self.get(t)
        if self.used:
            if not hasattr(self, "twin"):
                self.twin = Model(self.vals, self.limit, self.seed + 1)
                self.twin.twin = None
            self.twin.steps = self.limit
            b = self.twin.get(t)
            if differ(a, b):
                raise Undef("depends on a value out of range")
        return a

    def __repr__(self):
        out = []
        for k, v in self.vals.items():
            if isinstance(v, list) and v and isinstance(v[0], Face):
                v = "".join("1" if x is H else "0" if x is TL else "?" for x in v)
                if len(v) > 70:
                    v = v[:60] + "…"
            out.append("%s=%s" % (k, v))
        return " ".join(out)

    def get(self, t):
        return self.ev(t, {})

    def holds(self, t):
        return self.truth(self.ev(t, {}))

    def truth(self, v):
        if isinstance(v, (int, F, float)):
            return sgn(v) != 0
        if isinstance(v, (list, tuple, dict, str)):
            return len(v) > 0
        if v is None:
            return False
        raise Undef("truth of %r" % (v,))

    def ev(self, t, env):
        op = t.op
        if op == "poly":
            a = t.args[0]
            if not a:
                return 0
            if len(a) == 1 and a[0][0] == ():
                return tidy(a[0][1])
        elif op == "bv":
            try:
                return env[(t.args[0], t.args[1])]
            except KeyError:
                raise Undef("unbound")
        fr = free(t)
        if fr:
            try:
                key = (t, tuple([hashable_env(env[x]) for x in sorted(fr)]))
            except KeyError:
                raise Undef("unbound")
            except Unh:
                key = None
        else:
            key = (t, ())
        if key is not None and key in self.memo:
            r = self.memo[key]
            if isinstance(r, Undef):
                raise r
            return r
        self.steps -= 1
        if self.steps < 0:
            raise Undef("too large a model")
        f = getattr(self, "e_" + op, None)
        if f is None:
            raise Undef("operation " + op)
        try:
            r = f(t, env)
            if isinstance(r, bool):
                r = int(r)
            elif isinstance(r, F):
                r = tidy(r)
        except Undef as e:
            if key is not None and self.steps >= 0:
                self.memo[key] = e
            raise
        except (ZeroDivisionError, OverflowError, ValueError, IndexError, TypeError, AttributeError) as e:
            e2 = Undef("%s in %s" % (e, op))
            if key is not None:
                self.memo[key] = e2
            raise e2
        if key is not None:
            self.memo[key] = r
        return r

    def call(self, lam, env, *xs):
        k = lam.args[0]
        e = dict(env)
        for j, x in enumerate(xs):
            e[(k, j)] = x
        return self.ev(lam.args[2], e)

    def number(self, v):
        if isinstance(v, (int, F, float, complex)):
            return v
        raise Undef("not a number: %r" % (v,))

    def nat(self, t, env):
        v = self.number(self.ev(t, env))
        if isinstance(v, float):
            r = round(v)
            if abs(v - r) > EPS:
                raise Undef("fractional count")
            v = r
        if isinstance(v, F):
            raise Undef("fractional count")
        return v

    # ------------------------------------------------------------ numbers
    def e_poly(self, t, env):
        tot = 0
        for m, c in t.args[0]:
            x = c
            # conditions first: what they switch off is not looked at
            rest = []
            dead = False
            for a, e in m:
                if a.op in BOOLS or (a.op in ("var", "fresh", "bv") and a.args[-1] == "bool"):
                    v = self.number(self.ev(a, env))
                    if sgn(v) == 0:
                        dead = True
                        break
                    x = x * v
                else:
                    rest.append((a, e))
            if dead:
                continue
            for a, e in rest:
                x = x * self.power(self.number(self.ev(a, env)), tidy(e))
            tot = tot + x
        return tidy(tot)

    def power(self, b, e):
        if e == 1:
            return b
        if isinstance(b, complex):
            return b ** float(e)
        if exact(b) and isinstance(e, int):
            if e >= 0:
                if e > 5000:
                    raise Undef("power")
                return b ** e
            if b == 0:
                return self.junk("inv", e)
            return F(1) / F(b) ** (-e)
        if exact(b) and exact(e):
            e = F(e)
            if b == 0:
                if e > 0:
                    return 0
                return self.junk("inv", e)
            if b > 0 and e.denominator == 2:
                f = F(b)
                p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if p * p == f.numerator and q * q == f.denominator:
                    return self.power(tidy(F(p, q)), e.numerator)
        bf = float(b)
        if bf == 0 and e < 0:
            raise Undef("division by zero")
        if bf < 0 and not (exact(e) and F(e).denominator == 1):
            raise Undef("root of a negative number")
        return bf ** float(e)

    def e_var(self, t, env):
        try:
            return self.vals[t.args[0]]
        except KeyError:
            raise Undef("symbol " + str(t.args[0]))

    def e_face(self, t, env):
        return H if self.truth(self.ev(t.args[0], env)) else TL

    def e_hd(self, t, env):
        v = self.ev(t.args[0], env)
        if not isinstance(v, Face):
            raise Undef("hd of non-face")
        return int(v is H)

    def e_ge0(self, t, env):
        return sgn(self.number(self.ev(t.args[0], env))) >= 0

    def e_gt0(self, t, env):
        return sgn(self.number(self.ev(t.args[0], env))) > 0

    def e_eq0(self, t, env):
        return sgn(self.number(self.ev(t.args[0], env))) == 0

    def e_eq(self, t, env):
        return veq(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def e_isnone(self, t, env):
        return self.ev(t.args[0], env) is None

    def e_truth(self, t, env):
        return self.truth(self.ev(t.args[0], env))

    def e_in(self, t, env):
        x, c = self.ev(t.args[0], env), self.ev(t.args[1], env)
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            raise Undef("in")
        if isinstance(c, dict):
            return hashable(x) in c
        return any(veq(x, y) for y in c)

    def e_floor(self, t, env):
        v = self.number(self.ev(t.args[0], env))
        if exact(v):
            return math.floor(v)
        if abs(v - round(v)) < EPS:
            raise Undef("floor at an integer")
        return math.floor(v)

    def e_trunc(self, t, env):
        v = self.number(self.ev(t.args[0], env))
        if not exact(v) and abs(v - round(v)) < EPS:
            raise Undef("truncation at an integer")
        return math.trunc(v)

    def e_abs(self, t, env):
        return abs(self.number(self.ev(t.args[0], env)))

    def e_pow(self, t, env):
        return self.power(self.number(self.ev(t.args[0], env)), self.number(self.ev(t.args[1], env)))

    def e_nroot(self, t, env):
        return t.args[0]

    def e_grp(self, t, env):
        return self.number(self.ev(t.args[0], env))

    def e_num(self, t, env):
        v = self.ev(t.args[0], env)
        return self.number(v)

    def e_def(self, t, env):
        return self.ev(t.args[0], env)

    def e_log(self, t, env):
        v = self.number(self.ev(t.args[0], env))
        if sgn(v) <= 0:
            return self.junk("log", v)
        return 0 if v == 1 else math.log(v)

    def e_econst(self, t, env):
        return math.e

    def e_pi(self, t, env):
        return math.pi

    def e_erfc(self, t, env):
        return math.erfc(self.number(self.ev(t.args[0], env)))

    def e_normcdf(self, t, env):
        return 0.5 * math.erfc(-self.number(self.ev(t.args[0], env)) / math.sqrt(2))

    def e_gammaincc(self, t, env):
        return gammaincc(float(self.number(self.ev(t.args[0], env))), float(self.number(self.ev(t.args[1], env))))

    def e_hyp1f1(self, t, env):
        return hyp1f1(*[float(self.number(self.ev(a, env))) for a in t.args])

    def _bit(f):
        def g(self, t, env):
            return f(self.nat(t.args[0], env), self.nat(t.args[1], env))

        return g

    e_band = _bit(lambda a, b: a & b)
    e_bor = _bit(lambda a, b: a | b)
    e_bxor = _bit(lambda a, b: a ^ b)
    e_xor = e_bxor
    e_shl = _bit(lambda a, b: a << b)
    e_shr = _bit(lambda a, b: a >> b)

    def e_fftabs(self, t, env):
        s = self.ev(t.args[0], env)
        i = self.nat(t.args[1], env)
        n = len(s)
        key = ("fft", t.args[0], id(s))
        z = sum(complex(self.number(x)) * cmath.exp(-2j * cmath.pi * ((i * k) % n) / n) for k, x in enumerate(s))
        r = abs(z)
        return 0 if r < 1e-9 else r

    def e_bflag(self, t, env):
        k = t.args[0]
        if k == "isclose":
            x, y = [self.number(self.ev(a, env)) for a in t.args[1:3]]
            rel = 1e-9 if t.args[3].op == "none" else self.ev(t.args[3], env)
            ab = 0.0 if t.args[4].op == "none" else self.ev(t.args[4], env)
            if exact(x) and exact(y) and x == y:
                return 1
            d = abs(x - y)
            tol = max(rel * max(abs(x), abs(y)), ab)
            if 0.1 * tol <= d <= 10 * tol:
                raise Undef("closeness")
            return d < tol
        if k == "hasnans":
            return self.vals.get("hasnans", 0)
        raise Undef("flag %s" % (k,))

    # ------------------------------------------------------------ folds
    def rng(self, L, env):
        n = self.nat(L, env)
        if n > 100000:
            raise Undef("long range")
        return range(n)

    def e_sum(self, t, env):
        tot = 0
        for i in self.rng(t.args[0], env):
            tot = tot + self.number(self.call(t.args[1], env, i))
        return tidy(tot)

    def e_maxr(self, t, env):
        best = float("-inf")
        for i in self.rng(t.args[0], env):
            x = self.number(self.call(t.args[1], env, i))
            if x > best:
                best = x
        return best

    def e_maxi(self, t, env):
        s = t.args[3]
        best = self.number(self.ev(t.args[2], env))
        for i in self.rng(t.args[0], env):
            x = self.number(self.call(t.args[1], env, i))
            if (x - best) * s > 0:
                best = x
        return best

    def e_first(self, t, env):
        for i in self.rng(t.args[0], env):
            if self.truth(self.call(t.args[1], env, i)):
                return i
        raise Undef("no first")

    def e_fold(self, t, env):
        L, lam, init = t.args
        cur = self.ev(init, env)
        for i in self.rng(L, env):
            cur = self.call(lam, env, i, *cur)
        return cur

    def e_while(self, t, env):
        lc, ln, init = t.args
        cur = self.ev(init, env)
        for _ in range(20000):
            if not self.truth(self.call(lc, env, *cur)):
                return cur
            cur = self.call(ln, env, *cur)
        raise Undef("endless loop")

    def e_proj(self, t, env):
        f = self.ev(t.args[0], env)
        return f[t.args[1]]

    def e_sumv(self, t, env):
        d = self.ev(t.args[0], env)
        tot = 0
        for v in d.values():
            tot = tot + self.number(self.call(t.args[1], env, v))
        return tidy(tot)

    # ------------------------------------------------------------ sequences
    def e_len(self, t, env):
        return len(self.ev(t.args[0], env))

    def e_arr(self, t, env):
        return [self.call(t.args[1], env, i) for i in self.rng(t.args[0], env)]

    def e_seq(self, t, env):
        return [self.ev(a, env) for a in t.args]

    def e_tup(self, t, env):
        return tuple(self.ev(a, env) for a in t.args)

    def e_cat(self, t, env):
        out = []
        for a in t.args:
            v = self.ev(a, env)
            if isinstance(v, str):
                raise Undef("text")
            out.extend(v)
        return out

    def e_flat(self, t, env):
        out = []
        for i in self.rng(t.args[0], env):
            out.extend(self.call(t.args[1], env, i))
        return out

    def e_idx(self, t, env):
        s = t.args[0]
        i = self.nat(t.args[1], env)
        if s.op == "arr" and i >= 0:
            return self.call(s.args[1], env, i)
        v = self.ev(s, env)
        if not -len(v) <= i < len(v):
            if v and isinstance(v[0], Face):
                return H if self.junk("face", i) % 2 < 1 else TL
            if v and isinstance(v[0], (int, F, float)):
                return self.junk("elem", len(v), i)
            raise Undef("index")
        return v[i]

    def e_list(self, t, env):
        return self.ev(t.args[0], env)

    e_iter = e_list

    def e_nd(self, t, env):
        return self.ev(t.args[0], env)

    def e_series(self, t, env):
        return self.ev(t.args[0], env)

    def e_input(self, t, env):
        return self.ev(t.args[0], env)

    def e_lcontent(self, t, env):
        return self.ev(t.args[0], env)

    def e_lset(self, t, env):
        v = list(self.ev(t.args[0], env))
        v[self.nat(t.args[1], env)] = self.ev(t.args[2], env)
        return v

    def e_ite(self, t, env):
        return self.ev(t.args[1] if self.truth(self.ev(t.args[0], env)) else t.args[2], env)

    # ------------------------------------------------------------ mappings
    def e_dict(self, t, env):
        d = {}
        for k, v, p in t.args[0]:
            if self.truth(self.ev(p, env)):
                d[hashable(self.ev(k, env))] = self.ev(v, env)
        return d

    def e_hdict(self, t, env):
        return self.ev(t.args[0], env)

    def e_dlist(self, t, env):
        return self.ev(t.args[0], env)

    e_dlcontent = e_dlist

    def e_dset(self, t, env):
        d = dict(self.ev(t.args[0], env))
        d[hashable(self.ev(t.args[1], env))] = self.ev(t.args[2], env)
        return d

    def e_dget(self, t, env):
        d = self.ev(t.args[0], env)
        k = hashable(self.ev(t.args[1], env))
        if k in d:
            return d[k]
        return self.ev(t.args[2], env)

    def e_missing(self, t, env):
        return Hole(t.op)

    e_unbound = e_unknown = e_havoc = e_opaque = e_missing

    def e_dhas(self, t, env):
        return hashable(self.ev(t.args[1], env)) in self.ev(t.args[0], env)

    def _entries(self, t, env):
        for i in self.rng(t.args[1], env):
            k, v, g = self.call3(t.args[2], env, i)
            yield k, v, g

    def call3(self, lam, env, i):
        e = dict(env)
        e[(lam.args[0], 0)] = i
        k, v, g = lam.args[2].args
        if not self.truth(self.ev(g, e)):
            return None, None, False
        return hashable(self.ev(k, e)), self.ev(v, e), True

    def e_tally(self, t, env):
        d = dict(self.ev(t.args[0], env))
        for k, v, g in self._entries(t, env):
            if g:
                d[k] = d.get(k, 0) + self.number(v)
        return d

    def e_scat(self, t, env):
        d = dict(self.ev(t.args[0], env))
        for k, v, g in self._entries(t, env):
            if g:
                d[k] = v
        return d

    def e_dgroup(self, t, env):
        d = dict(self.ev(t.args[0], env))
        for k, v, g in self._entries(t, env):
            if g:
                d[k] = list(d.get(k, [])) + list(v)
        return d

    # ------------------------------------------------------------ the rest
    def e_str(self, t, env):
        return t.args[0]

    def e_none(self, t, env):
        return None

    def e_fstr(self, t, env):
        out = []
        for a in t.args:
            out.append(self.text(self.ev(a, env)))
        return "".join(out)

    def text(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, int):
            return str(v)
        if isinstance(v, Face):
            return v.text
        raise Undef("text of %r" % (v,))

    def e_rec(self, t, env):
        name = t.args[0]
        return Rec(clsname(name), {k: self.ev(v, env) for k, v in t.args[1]})

    e_inst = e_rec

    def e_cls(self, t, env):
        return Sym(t)

    e_builtin = e_clo = e_ellipsis = e_cls

    def e_app(self, t, env):
        f = getattr(self, "a_" + t.args[0], None)
        if f is None:
            raise Undef("operation " + t.args[0])
        return f(t, env)

    def a_byte(self, t, env):
        return random.Random(repr(("byte", self.ev(t.args[1], env)))).randrange(256)

    def a_bitlen(self, t, env):
        return max(self.ev(t.args[2], env), int(self.ev(t.args[1], env)).bit_length())

    def a_ndistinct(self, t, env):
        v = self.ev(t.args[1], env)
        return len({hashable(x) for x in v})

    def a_values(self, t, env):
        return list(self.ev(t.args[1], env).values())

    def a_ditems(self, t, env):
        return list(self.ev(t.args[1], env).items())

    def a_dkeys(self, t, env):
        return list(self.ev(t.args[1], env))

    def a_libseq(self, t, env):
        v = self.ev(t.args[1], env)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (list, tuple)):
            return v
        raise Undef("libseq")

    def a_maxseq(self, t, env):
        v = list(self.ev(t.args[1], env))
        if t.args[2].op != "none":
            v.append(self.ev(t.args[2], env))
        return max(v) if v else NOTHING

    def a_minseq(self, t, env):
        v = list(self.ev(t.args[1], env))
        if t.args[2].op != "none":
            v.append(self.ev(t.args[2], env))
        return min(v) if v else NOTHING

    def a_slice(self, t, env):
        s = self.ev(t.args[1], env)
        b = [None if x.op == "none" else self.nat(x, env) for x in t.args[2:5]]
        return list(s)[b[0]:b[1]:b[2]]

    def a_sorted(self, t, env):
        s = list(self.ev(t.args[1], env))
        rev = self.truth(self.ev(t.args[3], env))
        if t.args[2].op == "none":
            if s and all(x is H or x is TL for x in s):
                # a model in which heads come before tails
                return sorted(s, key=lambda x: x is TL, reverse=rev)
            return sorted(s, reverse=rev)
        return sorted(s, key=lambda x: self.call(t.args[2], env, x), reverse=rev)

    def a_sortdict(self, t, env):
        d = self.ev(t.args[1], env)
        return {k: d[k] for k in sorted(d)}

    def a_argbest(self, t, env):
        s = self.ev(t.args[1], env)
        best = None
        sign = self.ev(t.args[3], env)
        for i, x in enumerate(s):
            k = self.call(t.args[2], env, i)
            if best is None or (k > best[0] if sign == 1 else k < best[0]):
                best = (k, x)
        if best is None:
            raise Undef("empty")
        return best[1]

    def a_comb(self, t, env):
        return math.comb(self.nat(t.args[1], env), self.nat(t.args[2], env))

    def a_factorial(self, t, env):
        return math.factorial(self.nat(t.args[1], env))

    def a_round0(self, t, env):
        v = self.number(self.ev(t.args[1], env))
        if not exact(v) and abs(abs(v - math.floor(v)) - 0.5) < EPS:
            raise Undef("rounding at a half")
        return round(v)

    def a_round(self, t, env):
        v = self.number(self.ev(t.args[1], env))
        d = self.nat(t.args[2], env)
        return round(float(v), d)

    def a_uniq(self, t, env):
        out = []
        for x in self.ev(t.args[1], env):
            if x not in out:
                out.append(x)
        return out

    def a_bit_length(self, t, env):
        return self.nat(t.args[1], env).bit_length()

    def a_elements(self, t, env):
        return [k for k, c in self.ev(t.args[1], env).items() for _ in range(c)]

    def a_tail(self, t, env):
        return self.ev(t.args[1], env)[1:]

    def a_fft(self, t, env):
        s = self.ev(t.args[1], env)
        n = len(s)
        return [sum(complex(x) * cmath.exp(-2j * cmath.pi * ((i * k) % n) / n) for k, x in enumerate(s)) for i in range(n)]

    def a_str(self, t, env):
        return self.text(self.ev(t.args[1], env))

    def a_inf(self, t, env):
        return float("inf")

    def a_vc_values(self, t, env):
        raise Undef("order of counts")


BOOLS = {"ge0", "gt0", "eq0", "eq", "hd", "isnone", "truth", "in", "isinst", "lt", "present", "dhas", "bflag"}


class Unh(Exception):
    pass


def hashable_env(v):
    if isinstance(v, (int, F, float, str, Face, Sym, Hole)) or v is None:
        return v
    if isinstance(v, (list, tuple)):
        return tuple([hashable_env(x) for x in v])
    if isinstance(v, dict):
        return ("d", tuple([(hashable_env(k), hashable_env(x)) for k, x in v.items()]))
    raise Unh


def clsname(c):
    if isinstance(c, T):
        return str(c.args[-1]) if c.args else c.op
    return str(c)


def differ(a, b, tol=1e-7):
    """do two model values definitely differ"""
    if a is b:
        return False
    num = (int, F, float, complex)
    if isinstance(a, num) and isinstance(b, num):
        if exact(a) and exact(b):
            return a != b
        if isinstance(a, complex) or isinstance(b, complex):
            return abs(a - b) > tol * max(1, abs(a), abs(b))
        if not (math.isfinite(a) and math.isfinite(b)):
            raise Undef("not finite")
        return abs(a - b) > max(tol * max(abs(a), abs(b)), 1e-9)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return True
        und = None
        for x, y in zip(a, b):
            try:
                if differ(x, y, tol):
                    return True
            except Undef as e:
                und = e
        if und:
            raise und
        return False
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return True
        return any(differ(a[k], b[k], tol) for k in a)
    if isinstance(a, Rec) and isinstance(b, Rec):
        ks = set(a.fields) & set(b.fields)
        return any(differ(a.fields[k], b.fields[k], tol) for k in ks)
    if isinstance(a, (Sym, Hole)) or isinstance(b, (Sym, Hole)):
        raise Undef("opaque")
    if isinstance(a, (dict, Rec)) or isinstance(b, (dict, Rec)):
        raise Undef("shape")
    if type(a) is not type(b):
        return True
    return a != b
