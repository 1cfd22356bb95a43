"""C27: Bins and FloorDict round keys as documented."""
from fractions import Fraction as F

from checks.values import pack
from sa import cli, jobs, lib, terms as t
from sa.cli import fact
from sa.terms import NONE, ONE, ZERO, mk, num, seq, string, var

TECHNIQUE = "abstract interpretation of the mappings with symbolic keys and values; the value graphs decided cell by cell of the key line"
NOTE = (
    "Exact for every real key (and every value stored) for the listed sets of intervals, including the one the library uses: conditions in the value graph turn "
    "only at their roots, so one point per cell decides.  Other sets of intervals are not covered; floats are read as reals.  Constructs the analysis cannot "
    "read are reported as undecided, not as violations."
)
RULE = (
    "The two mappings' methods are run abstractly on given sets of intervals with a symbolic key and symbolic values.  The results are value graphs whose "
    "conditions are linear in the key; one point in every cell they cut the key line into decides them.  Required: writing at a key puts the value in exactly one "
    "interval, a closest one, which reading at that key gives back; counting twice adds up; intervals are kept and duplicates refused with ValueError; removing an "
    "interval adds its value to a nearest remaining one; FloorDict gives the value at the greatest stored key not above the key and raises KeyError under exactly "
    "the condition that there is none."
)
MOD = "coinflip._randtests.common.collections"
KEY, KEY2, VAL = var("key", "real"), var("key2", "real"), var("val", "real")
SETS = [
    (F(0),), (F(0), F(10)), (F(-6), F(-3), F(0), F(3), F(6)), (F(-5, 2), F(-3, 2), F(-1, 2), F(1, 2), F(3, 2), F(5, 2)), (F(-7), F(-1), F(0), F(2), F(100)),
    (F(8), F(-1), F(3)), (F(1), F(2), F(4), F(8), F(16), F(32), F(64), F(128)), (F(-30), F(-29), F(5), F(6)),
]


def roots(x, key, others=()):
    """({points at which a condition in x turns}, whether these are all)"""
    pts, exact = set(), True
    for y in cli.leaves_of(x):
        if y.op in ("num", "var", "str", "none", "seq", "tup", "dict", "hdict", "none", "inst", "rec", "cls", "poly", "builtin"):
            continue
        ps = [z for z in y.args if isinstance(z, t.T)]
        for p in ps:
            if not lib.numeric(p) or key not in set(cli.leaves_of(p)):
                continue
            p = t.aspoly(p)
            a = [t.const(t.subst(p, {key: num(k)})) for k in (F(0), F(1), F(2), F(1000))]
            if None not in a and a[1] - a[0] == a[2] - a[1] and a[3] == a[0] + 1000 * (a[1] - a[0]) and y.op in ("ge0", "gt0", "eq0", "eq", "lt", "abs"):
                if a[1] != a[0]:
                    pts.add(-a[0] / (a[1] - a[0]))
                elif any(z.op in ("floor", "unknown", "app") for z in cli.leaves_of(p)):
                    exact = False
            else:
                bad = [z for z in cli.leaves_of(p) if z.op not in OPS]
                if bad:
                    exact = False
    return pts, exact


OPS = {"num", "var", "poly", "ge0", "gt0", "eq0", "eq", "lt", "abs", "max", "min", "ite"}


def cells(pts):
    pts = sorted(pts)
    out = [pts[0] - 1000, pts[0] - F(1, 7)]
    for a, b in zip(pts, pts[1:]):
        d = b - a
        out += [a, a + d / 1000, a + d / 3, a + d / 2, a + d * 2 / 3, b - d / 1000]
    return out + [pts[-1], pts[-1] + F(1, 7), pts[-1] + 1000]


def closest(intervals, k):
    d = min(abs(i - k) for i in intervals)
    return [i for i in intervals if abs(i - k) == d]


def grid(intervals):
    s = sorted(intervals)
    return set(s) | {(a + b) / 2 for a, b in zip(s, s[1:])}


def at(x, m):
    return t.const(t.subst(t.aspoly(x), m))


def setup():
    I = cli.start(mods=(MOD,))
    return I


def made(I, intervals):
    return I.call(cli.attr(I, MOD, "Bins"), [I.alloc(mk("list", seq(*[num(i) for i in intervals])))], {})


def get(I, b, k):
    return I.call(I.getattr(b, "__getitem__"), [k], {})


def put(I, b, k, v):
    return I.call(I.getattr(b, "__setitem__"), [k, v], {})


def show(k):
    return str(float(k)).rstrip("0").rstrip(".")


def kept(I, b):
    """the intervals iterating over b gives"""
    try:
        v = I.call(mk("builtin", "tuple"), [b], {})
    except Exception:
        return None
    v = cli.plain(I, v)
    if v.op not in ("seq", "tup"):
        return None
    out = [t.const(t.aspoly(x)) if lib.numeric(x) else None for x in v.args]
    return None if None in out else out


def bins_job(intervals):
    def run(conds):
        out = []
        pos = MOD + ".Bins"
        what = "{%s}" % ", ".join(show(i) for i in intervals)
        want = sorted(intervals)
        I = setup()
        b = made(I, intervals)
        k = kept(I, b)
        out.append(fact("keeps", None if k is None else sorted(k) == want, "%s: holds %s" % (what, "?" if k is None else "exactly its intervals" if sorted(k) == want else ", ".join(map(show, k))), pos))
        zero = [at(get(I, b, num(i)), {}) for i in want]
        out.append(fact("empty", None if None in zero else not any(zero), "%s: starts %s" % (what, "empty" if not any(zero) else zero), pos))
        # one write, one read
        I = setup()
        b = made(I, intervals)
        before = get(I, b, KEY)
        put(I, b, KEY, VAL)
        after = get(I, b, KEY)
        slots = [get(I, b, num(i)) for i in want]
        pts, exact = grid(intervals), True
        for x in [before, after] + slots:
            p, e = roots(x, KEY)
            pts |= p
            exact = exact and e
        for c in cells(pts):
            m = {KEY: num(c), VAL: num(F(17))}
            got = [at(x, m) for x in slots]
            rd, was = at(after, m), at(before, m)
            near = closest(want, c)
            hit = [i for i, g in zip(want, got) if g == 17]
            if None in got or rd is None or was is None:
                good, say = None, "is not understood"
            else:
                good = len(hit) == 1 and hit[0] in near and all(g in (0, 17) for g in got) and rd == 17 and was == 0
                say = "is written to %s and read as %s" % (" and ".join(map(show, hit)) or "nowhere", "written" if rd == 17 else show(rd))
                if good and not exact:
                    good = None
            out.append(fact("rounds", good, "%s: key %s %s" % (what, show(c), say), MOD + ".Bins.find_closest_interval"))
        # counting twice
        I = setup()
        b = made(I, intervals)
        for k in (KEY, KEY2):
            put(I, b, k, t.add(t.aspoly(get(I, b, k)), ONE))
        slots = [get(I, b, num(i)) for i in want]
        some = cells(grid(intervals))
        some = some[:: max(1, len(some) // 9)] + some[-1:]
        for c in some:
            for d in some:
                m = {KEY: num(c), KEY2: num(d)}
                got = [at(x, m) for x in slots]
                good = None if None in got else sum(got) == 2 and any(
                    got == [(i == x) + (i == y) for i in want] for x in closest(want, c) for y in closest(want, d))
                if good is not True or (c, d) == (some[0], some[-1]):
                    out.append(fact("counts", good, "%s: counting at %s and %s gives %s" % (what, show(c), show(d), [None if g is None else show(g) for g in got]), pos))
        # removal
        if len(want) > 1:
            for gone in want:
                I = setup()
                b = made(I, intervals)
                vs = {i: var("v%d" % n, "real") for n, i in enumerate(want)}
                for i in want:
                    put(I, b, num(i), vs[i])
                I.call(I.getattr(b, "__delitem__"), [num(gone)], {})
                left = [i for i in want if i != gone]
                k = kept(I, b)
                out.append(fact("removes", None if k is None else sorted(k) == left, "%s: without %s it holds %s" % (what, show(gone), None if k is None else ", ".join(map(show, sorted(k)))), pos))
                if k is None or sorted(k) != left:
                    continue
                got = {i: t.aspoly(get(I, b, num(i))) for i in left}
                ok = [n for n in closest(left, gone) if all(got[i] is (t.add(t.aspoly(vs[i]), t.aspoly(vs[gone])) if i == n else t.aspoly(vs[i])) for i in left)]
                m = {v: num(F(3) ** (n + 1)) for n, v in enumerate(vs.values())}
                sure = all(at(x, m) is not None for x in got.values())
                out.append(fact("removes", True if ok else False if sure else None, "%s: the value of %s removed goes to %s" % (what, show(gone), show(ok[0]) if ok else "none of its nearest"), MOD + ".Bins.__delitem__"))
        out.append(dict(name="#functions", verdict="info", detail=[MOD + ".Bins." + x for x in ("__init__", "__getitem__", "__setitem__", "__delitem__", "find_closest_interval")]))
        return out

    return run


def duplicates(conds):
    out = []
    I = setup()
    B = cli.attr(I, MOD, "Bins")
    for xs, dup in (((1, 1, 2), True), ((1, 2, 1), True), ((2, 1, 2, 3), True), ((1, 2, 3, 3), True), ((5, 5), True), ((1, 2, 3), False), ((3, 1, 2), False), ((7,), False)):
        for what, arg in (("a list", I.alloc(mk("list", seq(*[num(x) for x in xs])))), ("an iterator", I.call(mk("builtin", "iter"), [seq(*[num(x) for x in xs])], {}))):
            o = cli.run(I, B, [arg])
            refused = [c for g, c, p in o.ends if t.const(t.aspoly(g)) == 1]
            maybe = [c for g, c, p in o.ends if t.const(t.aspoly(g)) not in (0, 1)]
            name = "%s of intervals %s" % (what, ", ".join(map(str, xs)))
            if dup:
                good = any("ValueError" in c for c in refused) or (None if maybe else False)
                out.append(fact("duplicates", good, "%s %s" % (name, "is refused" if good else "is accepted" if not refused else "ends in %s" % refused[0][0]), MOD + ".Bins"))
            else:
                out.append(fact("duplicates", False if refused else None if maybe else True, "%s is %s" % (name, "refused" if refused else "accepted"), MOD + ".Bins"))
                if not refused and what == "an iterator":
                    b = I.call(B, [I.call(mk("builtin", "iter"), [seq(*[num(x) for x in xs])], {})], {})
                    k = kept(I, b)
                    out.append(fact("keeps", None if k is None else sorted(k) == sorted(xs), "%s: holds %s" % (name, None if k is None else ", ".join(map(show, k)) or "nothing"), MOD + ".Bins"))
    return out


DICTS = [(1, 5, 3), (0,), (10, 20), (8, 4, 2, 16), (-3, 0, 7, 100), (6272, 128, 750000)]


def floor_job(ks):
    def run(conds):
        out = []
        I = setup()
        pos = MOD + ".FloorDict"
        what = "{%s}" % ", ".join(map(str, ks))
        vs = {k: var("v%d" % n, "real") for n, k in enumerate(ks)}
        d = mk("dict", tuple((num(k), vs[k], ONE) for k in ks))
        f = I.call(cli.attr(I, MOD, "FloorDict"), [I.alloc(mk("hdict", d, NONE, "dict"))], {})
        o = cli.run(I, I.getattr(f, "__getitem__"), [KEY])
        pts, exact = {F(k) for k in ks}, True
        terms = [t.aspoly(g) for g, c, p in o.ends] + ([t.aspoly(o.value)] if o.value is not None and lib.numeric(o.value) else [])
        for x in terms:
            p, e = roots(x, KEY)
            pts |= p
            exact = exact and e
        val = {v: num(F(3) ** (n + 1)) for n, v in enumerate(vs.values())}
        for c in cells(pts):
            m = dict(val)
            m[KEY] = num(c)
            ends = [(at(g, m), cl, p) for g, cl, p in o.ends]
            sure = [e for e in ends if e[0] == 1]
            doubt = any(e[0] is None for e in ends)
            low = [k for k in ks if k <= c]
            if not low:
                good = any("KeyError" in e[1] for e in sure) or (None if doubt else False)
                say = "is refused" if good else "ends in %s" % sure[0][1][0] if sure else "is not refused"
            elif sure:
                good, say = False, "ends in %s" % sure[0][1][0]
            else:
                v = None if doubt or o.value is None or not lib.numeric(o.value) else at(o.value, m)
                k = [k for k in ks if v is not None and val[vs[k]] is num(v)]
                good = None if v is None else k == [max(low)]
                say = "reads %s" % ("?" if v is None else "the value of %s" % k[0] if k else "no stored value")
            if good and not exact:
                good = None
            out.append(fact("floors", good, "%s: key %s %s" % (what, show(c), say), pos + ".__getitem__"))
        k = kept(I, f)
        out.append(fact("keeps", None if k is None else sorted(k) == sorted(ks), "%s: holds %s" % (what, None if k is None else ", ".join(map(show, k))), pos))
        out.append(dict(name="#functions", verdict="info", detail=[pos + ".__getitem__"]))
        return out

    return run


def run(tier):
    r = jobs.Runner(8, 150 if tier == "quick" else 560)
    for s in SETS:
        r.submit("Bins " + " ".join(map(show, s)), bins_job(s))
    r.submit("duplicates", duplicates)
    for ks in DICTS:
        r.submit("FloorDict " + " ".join(map(str, ks)), floor_job(ks))
    return pack(r.collect(), RULE)
