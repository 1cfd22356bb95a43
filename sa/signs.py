"""Showing values non-negative: counts, absolute values, even powers, and
quadratic forms that are sums of squares (decided by exact elimination)."""
from fractions import Fraction as F

from . import terms as t
from .terms import ONE, aspoly, mkpoly, pdict


def nonneg(x, depth=3):
    x = aspoly(x)
    if t.nonneg(x):
        return True
    d = pdict(x)
    if all(sign_mono(m, c, depth) for m, c in d.items()):
        return True
    if depth > 0:
        if squares(d):
            return True
        y = merged(d)
        if y is not None:
            return y
    return False


def sign_mono(m, c, depth):
    """is c * m known to be non-negative?"""
    s = 1 if c > 0 else -1
    for a, e in m:
        e = F(e)
        if e.denominator == 1 and e % 2 == 0:
            continue
        if e.denominator % 2 == 0:
            continue  # an even root, of something non-negative if it has a value
        if t.nonneg_atom(a):
            continue
        inner = a.args[0] if a.op == "grp" else None
        if inner is not None:
            if nonneg(inner, depth - 1) if depth > 0 else t.nonneg(inner):
                continue
            if nonneg(t.neg(aspoly(inner)), depth - 1) if depth > 0 else t.nonneg(t.neg(aspoly(inner))):
                s = -s
                continue
        if a.op == "log" and t.prove_ge0(t.sub(aspoly(a.args[0]), ONE)):
            continue
        return False
    return s > 0


def times(m, k):
    d = dict(m)
    for a, e in k:
        d[a] = d.get(a, F(0)) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: (str(x[0].op), id(x[0]))))


def norm(d):
    out = {}
    for m, c in d.items():
        k = times(m, ())
        out[k] = out.get(k, F(0)) + F(c)
    return {m: c for m, c in out.items() if c}


def squares(d):
    """is the polynomial, up to a positive factor, a sum of squares?"""
    d = norm(d)
    mults = [()]
    atoms = {}
    for m in d:
        for a, e in m:
            if F(e).denominator == 1:
                atoms.setdefault(a, set()).add(e)
    for a, es in atoms.items():
        if any(e < 0 and e % 2 for e in es) and (t.nonneg_atom(a) or a.op == "grp" and t.nonneg(a.args[0])):
            mults += [times(k, ((a, F(1)),)) for k in list(mults)]
        if len(mults) > 32:
            break
    if 2 <= len(d) <= 400:
        for k in mults:
            if gram({times(m, k): c for m, c in d.items()}):
                return True
        for a in atoms:  # an odd power of something non-negative throughout
            if t.nonneg_atom(a) and gram({times(m, ((a, F(1)),)): c for m, c in d.items()}):
                return True
    return False


def gram(d):
    basis = {}
    for m in d:
        if all(e % 2 == 0 for a, e in m):
            basis[tuple((a, e / 2) for a, e in m)] = len(basis)
    if len(basis) > 40:
        return False
    bs = list(basis)
    n = len(bs)
    where = {}
    for i in range(n):
        for j in range(i, n):
            where.setdefault(times(bs[i], bs[j]), []).append((i, j))
    G = [[F(0)] * n for _ in range(n)]
    for m, c in d.items():
        at = where.get(m)
        if not at:
            return False
        i, j = min(at, key=lambda ij: ij[0] != ij[1])
        if i == j:
            G[i][i] += c
        else:
            G[i][j] += c / 2
            G[j][i] += c / 2
    # exact elimination
    live = list(range(n))
    while live:
        i = next((i for i in live if G[i][i] > 0), None)
        if i is None:
            return all(G[a][b] == 0 for a in live for b in live)
        if any(G[a][a] < 0 for a in live):
            return False
        live.remove(i)
        for a in live:
            f = G[a][i] / G[i][i]
            if f:
                for b in live:
                    G[a][b] -= f * G[i][b]
    return True


def merged(d):
    """a combination of sums over one range, as one sum"""
    ranges = {}
    for m, c in d.items():
        for a, e in m:
            if a.op == "sum" and e == 1:
                ranges.setdefault(a.args[0], 0)
    for L in ranges:
        v = t.fresh()
        body = t.ZERO
        ok = True
        for m, c in d.items():
            hit = [a for a, e in m if a.op == "sum" and a.args[0] is L and e == 1]
            if len(hit) == 1:
                rest = mkpoly({tuple((a, e) for a, e in m if a is not hit[0]): F(c)})
                if rest.op != "poly" and False:
                    ok = False
                body = t.add(body, t.mul(aspoly(rest), aspoly(t.apply(hit[0].args[1], v))))
            elif not hit:
                q = t.div(mkpoly({m: F(c)}), L)
                body = t.add(body, q)
            else:
                ok = False
        if not ok:
            continue
        with t.assume([aspoly(v), t.sub(aspoly(L), t.add(aspoly(v), ONE))]):
            if squares(pdict(aspoly(body))) or t.nonneg(aspoly(body)):
                return True
    return None
