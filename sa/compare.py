"""Comparing what the code computes with what the specification computes.

proved     the two value terms are the same normal form
violation  the terms differ, and a finite model of their symbols in which the
           preconditions of both hold gives them different values
undecided  anything else (reported in the evidence, never an alarm)
"""
import random
import time
from fractions import Fraction as F

from . import terms as t
from .model import H, TL, X3, Model, Undef, differ
from .terms import T, const, pdict


def unfold(x, memo=None):
    """replace named subexpressions by what they stand for"""
    memo = {} if memo is None else memo
    r = memo.get(x)
    if r is not None:
        return r
    if x.op == "def":
        r = unfold(x.args[0], memo)
    else:
        r = t._rebuild(x, lambda y: unfold(y, memo))
    memo[x] = r
    return r


def plain(x, memo=None):
    """the value of x without the kinds of its containers: records become
    dictionaries of their fields, lists and tuples sequences"""
    memo = {} if memo is None else memo
    r = memo.get(x)
    if r is not None:
        return r
    if x.op == "def":
        r = plain(x.args[0], memo)
    elif x.op == "inst":
        if len(x.args[1]) == 1 and x.args[1][0][0] in ("_sdict", "data"):
            r = plain(x.args[1][0][1], memo)  # a mapping kept in one attribute
        else:
            r = table([(t.string(k), plain(v, memo), t.ONE) for k, v in x.args[1]])
    elif x.op in ("hdict", "list", "nd", "series", "iter"):
        r = plain(x.args[0], memo)
    elif x.op == "dict":
        r = table([(plain(k, memo), plain(v, memo), p if not isinstance(p, T) else plain(p, memo)) for k, v, p in x.args[0]])
    elif x.op == "tup":
        r = t.seq(*[plain(y, memo) for y in x.args])
    else:
        r = t._rebuild(x, lambda y: plain(y, memo))
    if r.op == "ite" and r.size < 3000 or r.op == "poly" and r.size < 200000:
        r = t.steps(r)
    memo[x] = r
    return r


def table(entries):
    if entries and all(k.op == "str" for k, v, p in entries):
        entries = sorted(entries, key=lambda e: e[0].args[0])
    return t.mk("dict", tuple(entries))


def same(a, b):
    if a is b:
        return True
    if a.op == "poly" or b.op == "poly":
        if t.aspoly(a) is t.aspoly(b):
            return True
    if a.op in ("rec", "tup", "seq", "list") and b.op in ("rec", "tup", "seq", "list"):
        ka, kb = kids(a), kids(b)
        if ka is not None and kb is not None and len(ka) == len(kb):
            return all(same(x, y) for x, y in zip(ka, kb))
    if a.op in ("list", "nd", "series", "hdict", "iter"):
        return same(a.args[0], b)
    if b.op in ("list", "nd", "series", "hdict", "iter"):
        return same(a, b.args[0])
    return False


def kids(a):
    if a.op == "rec":
        return [v for _, v in a.args[1]]
    if a.op == "list":
        return kids(a.args[0])
    if a.op in ("tup", "seq"):
        return list(a.args)
    return None


def atoms(x, ops, out, seen):
    if x in seen:
        return
    seen.add(x)
    if x.op in ops:
        out.append(x)
    acc = []
    t._scan(x.args, acc)
    for y in acc:
        atoms(y, ops, out, seen)


def tainted(x):
    out = []
    atoms(x, {"unknown", "opaque", "havoc"}, out, set())
    return out


def thresholds(xs, known=()):
    """{symbol: values at which some condition in xs turns}"""
    conds = []
    seen = set()
    for x in xs:
        atoms(x, {"ge0", "gt0", "eq0", "abs", "floor"}, conds, seen)
    res = {}
    for c in conds:
        d = pdict(c.args[0])
        lin, k, ok, inner = {}, F(0), True, None
        for m, co in d.items():
            if m == ():
                k = co
            elif len(m) == 1 and m[0][1] == 1 and m[0][0].op == "var":
                lin[m[0][0].args[0]] = co
            else:
                ok = False
        if ok and len(lin) == 1:
            (s, co), = lin.items()
            res.setdefault(s, set()).add(-k / co)
            if c.op == "floor":
                res[s].add((1 - k) / co)
        elif not ok and k and k.denominator == 1 and abs(k) <= 5000:
            res.setdefault("*", set()).add(abs(k))
        elif ok and len(lin) == 2:
            for s, co in lin.items():
                for o, oc in lin.items():
                    if o != s:
                        res.setdefault((s, o), set()).add((-oc / co, -k / co))
    return res


def sequences(n, rnd, count):
    """index sets of heads, always with both faces"""
    out = []
    if n < 2:
        return [[H] * n, [TL] * n][:1]
    base = [
        [H if i % 2 else TL for i in range(n)],
        [H if i < n // 2 else TL for i in range(n)],
        [TL] * (n - 1) + [H],
        [H] * (n - 1) + [TL],
        [H] + [TL] * (n - 1),
    ]
    k = 0
    while len(out) < count:
        if k < 3:
            p = (0.5, 0.5, 0.3)[k]
            s = [H if rnd.random() < p else TL for _ in range(n)]
        elif k % 2:
            s = base[(k // 2) % len(base)]
        else:
            s = [H if rnd.random() < rnd.choice((0.2, 0.5, 0.5, 0.7)) else TL for _ in range(n)]
        k += 1
        if n >= 2:
            if all(x is H for x in s):
                s = s[:-1] + [TL]
            if all(x is TL for x in s):
                s = s[:-1] + [H]
        out.append(list(s))
    return out


class Space:
    """models to try: base cases for the symbols plus values near the thresholds of the terms"""

    def __init__(self, cases, seqs=10, most=400, seed=1, seconds=25):
        self.seconds = seconds
        self.cases = cases  # list of dicts: n and parameters
        self.seqs = seqs
        self.most = most
        self.seed = seed

    def near(self, th, rnd):
        """the base cases moved to where a condition turns"""
        out = []
        for c in self.cases:
            for s, vs in th.items():
                if isinstance(s, tuple):
                    a, b = s
                    if a in c and b in c:
                        for f, k in vs:
                            v = f * c[b] + k
                            for e in (-1, 0, 1):
                                w = int(v) + e
                                if w >= 0:
                                    out.append(dict(c, **{a: w}))
                elif s in c:
                    for v in vs:
                        for e in (-1, 0, 1):
                            w = int(v) + e
                            if w >= 0:
                                out.append(dict(c, **{s: w}))
                                if s != "n" and w > c.get("n", w):
                                    out.append(dict(c, **{s: w, "n": w * rnd.choice((1, 1, 2, 3, 7)) + rnd.randrange(w)}))
        return out

    def __call__(self, terms, needs_seq=True):
        rnd = random.Random(self.seed)
        end = time.time() + self.seconds
        th = thresholds(terms)
        a, b = thresholds(terms[:1]), thresholds(terms[1:])
        odd = {k: set(a.get(k, ())) ^ set(b.get(k, ())) for k in set(a) | set(b)}
        cases = [dict(c) for c in self.cases]
        stars = odd.pop("*", ())
        th.pop("*", None)
        for s in {s for c in self.cases for s in c}:
            odd[s] = odd.get(s, set()) | {k + 1 for k in stars}
        first = self.near({k: v for k, v in odd.items() if v}, rnd)
        extra = self.near(th, rnd)
        seen = set()
        allc = []
        small = [c for c in extra if c.get("n", 0) <= 3000]
        large = [c for c in extra if c.get("n", 0) > 3000]
        rnd.shuffle(small)
        rnd.shuffle(large)
        rnd.shuffle(first)
        first = [c for c in first if c.get("n", 0) <= 3000][:60] + [c for c in first if c.get("n", 0) > 3000][:30]
        pools = [cases[:20], first, cases[20:], small[:120], large[:40]]
        for pool in pools:
            for c in pool:
                k = tuple(sorted(c.items()))
                if k not in seen:
                    seen.add(k)
                    allc.append(c)
        made = 0
        for rnd_no in range(self.seqs):
            for c in allc:
                n = c.get("n", 0)
                if n > 2000000:
                    continue
                if not needs_seq or n > 20000:
                    if rnd_no:
                        continue
                if made >= self.most or time.time() > end:
                    return
                made += 1
                r2 = random.Random((self.seed, rnd_no, n).__repr__())
                s = []
                if needs_seq or n < 20000:
                    some = sequences(n, r2, rnd_no + 1)
                    if rnd_no >= len(some):
                        continue
                    s = some[rnd_no]
                yield Model(dict(c, S=s, heads=H, tails=TL))


def uses(x, name, memo={}):
    r = memo.get((x, name))
    if r is None:
        out = []
        atoms(x, {"var"}, out, set())
        r = any(v.args[0] == name for v in out)
        memo[(x, name)] = r
    return r


def hold(m, conds):
    for c in conds:
        if not m.truth(m.settle(c)):
            return False
    return True


class Verdict:
    def __init__(self, kind, detail="", witness=None):
        self.kind, self.detail, self.witness = kind, detail, witness

    def __repr__(self):
        return "%s %s" % (self.kind, self.detail)


def compare(a, specs, pre, space, tol=1e-7):
    """a: term of the code; specs: accepted terms; pre: conditions (terms) on models"""
    for s in specs:
        if same(a, s):
            return Verdict("proved", "identical normal forms")
    ua = plain(a)
    us = [plain(s) for s in specs]
    for s in us:
        if same(ua, s):
            return Verdict("proved", "identical normal forms")
    bad = tainted(ua)
    # separation
    tried = judged = 0
    why = None
    need = any(uses(x, "S") for x in [ua] + us)
    for m in space([ua] + us + list(pre), need):
        tried += 1
        try:
            if not hold(m, pre):
                continue
            va = m.settle(ua)
            ok = False
            vs = None
            und = None
            for s in us:
                try:
                    vs = m.settle(s)
                    if not differ(va, vs, tol):
                        ok = True
                        break
                except Undef as e:
                    und = e
            if ok:
                judged += 1
                continue
            if und:
                raise und
            return Verdict("violation", "%s where the specification has %s" % (short(va), short(vs)), repr(m))
        except Undef as e:
            why = e
            continue
        except RecursionError as e:
            why = e
            continue
    return Verdict("undecided", "normal forms differ; %d models agree of %d tried%s%s" % (
        judged, tried, "" if why is None else " (%s)" % (str(why)[:80],), " unknown: " + str([u.args[:1] for u in bad[:2]]) if bad else ""))


def short(v):
    s = repr(v) if not isinstance(v, (int, F, float)) else str(v if not isinstance(v, F) else float(v))
    return s if len(s) < 160 else s[:157] + "..."


def first_diff(a, b, path=()):
    """chain of places where two terms differ, outermost first"""
    if a is b:
        return None
    path = path + ((a, b),)
    if a.op != b.op or len(path) > 80:
        return path
    if a.op == "poly":
        da, db = pdict(a), pdict(b)
        onlya = [(m, c) for m, c in da.items() if db.get(m) != c]
        onlyb = [(m, c) for m, c in db.items() if da.get(m) != c]
        if len(onlya) == len(onlyb) >= 1:
            best = None
            for ma, ca in onlya:
                for mb, cb in onlyb:
                    if ca == cb and len(ma) == len(mb):
                        xa = [x for x in ma if x not in mb]
                        xb = [x for x in mb if x not in ma]
                        if len(xa) == len(xb) == 1 and xa[0][1] == xb[0][1]:
                            r = first_diff(xa[0][0], xb[0][0], path)
                            if r and (best is None or len(r) > len(best)):
                                best = r
                if best:
                    return best
        return path
    ka, kb = [], []
    t._scan(a.args, ka)
    t._scan(b.args, kb)
    if len(ka) != len(kb):
        return path
    for x, y in zip(ka, kb):
        r = first_diff(x, y, path)
        if r:
            return r
    return path
