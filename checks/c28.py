"""C28: generators yield bits forever and independently."""
import itertools
from fractions import Fraction as F

from checks.values import pack
from sa import cli, jobs, lib, terms as t
from sa.cli import fact
from sa.model import Model, Undef
from sa.terms import NONE, ONE, ZERO, mk, num, seq, string, var

TECHNIQUE = "abstract interpretation of the generators' steps over a symbolic seed, with induction over the object's state; reachability of shared mutable objects"
RULE = (
    "Each published generator is made and stepped abstractly.  Required: iter() of it is itself; no step can raise, whatever its own fields hold; each value is "
    "0 or 1 for every result the random source can give.  The Lehmer generator's value, from a symbolic seed, must have the normal form of "
    "[16807 seed mod (2^31 - 1) >= (2^31 - 1)/2] and its state after the step must be the state of a generator made with the stepped seed (so that all later steps "
    "follow).  Two generators must have no changing object in common, and a step of one must change nothing but objects reachable from it alone."
)
MOD = "coinflip.generators"
P, A = 2**31 - 1, 16807
SEEDS = [1, 2, 3, 42, 7, 1000, 16807, 65536, 127773, 127774, 2**20 + 7, 2**30 - 1, 2**30, 2**30 + 1, 2**31 - 2, 1073741823, 1866394000, 63887, 63888, 63889, 123456789, 1407677000]
# seeds whose successor is next to the middle
INV = pow(A, P - 2, P)
SEEDS += [(k * INV) % P for k in (1, P // 2 - 1, P // 2, P // 2 + 1, P // 2 + 2, P - 1, P // 4, 3 * (P // 4))]
RANDOM = ("getrandbits", "randint", "randrange", "random", "choice", "uniform", "randbelow", "sample", "choices", "betavariate", "triangular", "gauss")


def step(I, g):
    o = I.call(mk("builtin", "next"), [g], {})
    return o


def stepped(I, g):
    """(value, conditions under which it raises): a step from the state as it is"""
    o = cli.run(I, mk("builtin", "next"), [g])
    return o


def known(I, g):
    f = I.freeze(g)
    return f.op == "inst"


def gives(x):
    """the values a draw can have: representatives enough to tell 0/1 from others; None if not known"""
    name = x.args[0].rsplit(".", 1)[-1]
    a = [t.const(t.aspoly(y)) if lib.numeric(y) else None for y in x.args[1]]
    if x.args[2]:
        return None
    if name in ("getrandbits", "randbits") and len(a) == 1 and a[0] is not None and 0 <= a[0] <= 64:
        top = 2 ** int(a[0]) - 1
    elif name == "randint" and len(a) == 2 and None not in a:
        return sorted({a[0], a[1], min(a[0] + 1, a[1]), min(a[0] + 2, a[1])})
    elif name == "randrange" and a and None not in a and len(a) <= 2:
        lo, hi = (F(0), a[0]) if len(a) == 1 else a
        return sorted({lo, hi - 1, min(lo + 1, hi - 1), min(lo + 2, hi - 1)})
    elif name == "randbelow" and len(a) == 1 and a[0] is not None:
        top = a[0] - 1
    elif name == "random" and not a:
        return [F(0), F(1, 4), F(1, 2) - F(1, 10**9), F(1, 2), F(3, 4), 1 - F(1, 10**9)]
    elif name == "uniform" and len(a) == 2 and None not in a:
        return [a[0], (a[0] + a[1]) / 2, a[1], a[0] + (a[1] - a[0]) / 4, a[0] + (a[1] - a[0]) * 3 / 4]
    elif name == "choice" and len(x.args[1]) == 1:
        s = x.args[1][0]
        s = s.args[0] if s.op in ("list", "iter") else s
        if s.op not in ("seq", "tup") or not all(lib.numeric(y) for y in s.args):
            return None
        v = [t.const(t.aspoly(y)) for y in s.args]
        return None if None in v else v
    else:
        return None
    return sorted({F(0), F(min(1, top)), F(min(2, top)), F(min(3, top)), F(top)})


def bits(v, extra=()):
    """whether a value is 0 or 1 whatever is drawn; (good, what)"""
    if v is None:
        return None, "nothing"
    if v.op == "ref":
        return None, "an object"
    if v.op in ("str", "none") or t.is_face(v):
        return False, t.pretty(v, 2)
    if not lib.numeric(v) and v.op not in ("libcall",):
        return None, t.pretty(v, 2)[:60]
    p = t.aspoly(v)
    if t.is_boolpoly(p):
        return True, "0 or 1"
    draws = [x for x in cli.leaves_of(v) if x.op == "libcall"]
    draws = [x for x in draws if not any(x is not y and x in set(cli.leaves_of(y)) for y in draws)]
    sets = [gives(x) for x in draws]
    if None in sets:
        return None, t.pretty(v, 3)[:60]
    names = [x for x in cli.leaves_of(v) if x.op == "var" and x not in extra]
    if names:
        return None, t.pretty(v, 3)[:60]
    sure = not extra
    for xs in itertools.product(*sets):
        for e in itertools.product(*[[F(k) for k in SEEDS]] * len(extra)):
            m = dict(zip(draws, map(num, xs)))
            m.update(dict(zip(extra, map(num, e))))
            c = t.const(t.subst(p, m))
            if c is None:
                return None, t.pretty(v, 3)[:60]
            if c not in (0, 1):
                return False, "%s when %s" % (float(c), ", ".join("%s is %s" % (t.pretty(k, 1), t.pretty(z, 1)) for k, z in m.items()) or "asked")
    return (True if sure else None), "0 or 1"


def itself(I, g):
    """whether iterating over g is iterating g itself"""
    todo, seen = [I.freeze(g).args[0]], []
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.append(c)
        if c.op != "cls":
            if c.args and str(c.args[0]).endswith("abc.Iterator") or str(c.args[0]) in ("typing.Iterator", "Iterator"):
                return True
            if str(c.args[0]) not in ("object", "abc.ABC", "typing.Generic"):
                return None
            continue
        o = I.get(c)
        if "__iter__" in o.members:
            r = I.call(I.getattr(g, "__iter__"), [], {})
            return True if r is g else False if r is NONE or r.op in ("str", "seq", "tup") else None
        todo += list(o.bases)
    return False


def reach(I, v):
    """the mutable objects reachable from a value through its fields"""
    out, todo = set(), [v]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        if x.op == "ref":
            out.add(x)
            x = I.deref(x)
        if x.op in ("cls", "clo", "builtin", "module"):
            continue
        acc = []
        t._scan(x.args, acc)
        for y in acc:
            if y.op == "ref" and y not in out or y.op in ("inst", "list", "hdict", "dict", "tup", "seq", "rec", "bound", "iter"):
                todo.append(y)
    return out


def changed(before, after):
    return {k for k in set(before) | set(after) if before.get(k) is not after.get(k)}


def make(I, C, args):
    return I.call(C, list(args), {})


def shared_job(name):
    def run(conds):
        out = []
        I = cli.start(mods=(MOD,))
        C = cli.attr(I, MOD, name)
        pos = "%s.%s" % (MOD, name)
        o = cli.run(I, C, [])
        ends = [e for e in o.ends if t.const(t.aspoly(e[0])) != 0]
        out.append(fact("made", True if not ends else None, "%s() is made" % name, pos))
        g, h = make(I, C, []), make(I, C, [])
        if not known(I, g):
            return out + [fact("bits", None, "what %s() makes is not understood" % name, pos)]
        good = itself(I, g)
        out.append(fact("itself", good, "iter() of %s() is %s" % (name, "itself" if good else "something else"), pos))
        both = reach(I, g) & reach(I, h)
        out.append(fact("own", not both, "two of %s() %s" % (name, "have no object in common" if not both else "share %s" % t.pretty(I.freeze(sorted(both, key=repr)[0]), 1)[:60]), pos))
        mine = reach(I, g)
        before = dict(I.st)
        I.actions = []
        v = step(I, g)
        diff = changed(before, dict(I.st))
        foreign = []
        for k in diff:
            if k not in before:
                continue
            if isinstance(k, t.T):
                if k not in mine:
                    foreign.append(k)
            elif isinstance(k, tuple) and k and k[0] == "v":
                foreign.append(k[2])
            elif not any(isinstance(x, t.T) and x in mine for x in (k if isinstance(k, tuple) else (k,))):
                if not any(x.op == "ref" and x.args and x.args[0] == k for x in mine):
                    foreign.append(k)
        glob = [x for x in cli.leaves_of(I.freeze(v)) if x.op == "libcall" and x.args[0].rsplit(".", 1)[0] in ("random", "numpy.random", "np.random") and x.args[0].rsplit(".", 1)[-1] in RANDOM + ("randint", "rand", "integers")] if v is not None else []
        out.append(fact("alone", False if foreign or glob else True, "a step of %s() changes %s" % (name, "what others use: %s" % (str(foreign[0])[:40] if foreign else glob[0].args[0]) if foreign or glob else "nothing else"), pos))
        good, what = bits(I.deref(v) if v is not None and v.op == "ref" else v)
        out.append(fact("bits", good, "%s() gives %s" % (name, what), pos + ".__next__"))
        # later steps: anything the first has changed may hold anything
        out += later(I, g, C, name, pos)
        out.append(dict(name="#functions", verdict="info", detail=[pos + ".__next__"]))
        return out

    return run


def later(I, g, C, name, pos):
    """a step from any state: numbers changed by stepping are replaced by symbols"""
    out = []
    a = I.deref(g)
    first = dict(a.args[1])
    step(I, g)
    now = dict(I.deref(g).args[1])
    fresh = {}
    for k, v in list(now.items()):
        if first.get(k) is not v and lib.numeric(v):
            fresh[k] = var("state_" + k, "int")
    for k, s in fresh.items():
        I.setattr(g, k, s) if hasattr(I, "setattr") else None
    o = stepped(I, g)
    ends = [(t.aspoly(x), c, p) for x, c, p in o.ends if t.const(t.aspoly(x)) != 0]
    if not ends:
        out.append(fact("endless", True, "no step of %s() can raise" % name, pos + ".__next__"))
    for x, c, p in ends:
        witness = None
        vs = list(fresh.values())
        pts = {F(k) for k in (0, 1, 2, 3, 100, 10**6, 2**30, 2**31)}
        for s in vs:
            from checks.c27 import roots

            q, _ = roots(x, s)
            pts |= {F(int(y)) + d for y in q for d in (-1, 0, 1, 2)}
        for e in itertools.product(sorted(pts), repeat=len(vs)) if len(vs) <= 2 else ():
            if t.const(t.subst(x, dict(zip(vs, map(num, e))))) == 1:
                witness = dict(zip(vs, e))
                break
        if t.const(x) == 1:
            witness = {}
        out.append(fact("endless", None if witness is None else False, "a step of %s() %s raise %s%s" % (
            name, "may" if witness is None else "will", c[0], "" if not witness else " when " + ", ".join("%s is %d" % (k.args[0][6:], v) for k, v in witness.items())), "%s:%s" % p if p else pos))
    v = o.value
    good, what = bits(I.deref(v) if v is not None and v.op == "ref" else v, tuple(fresh.values()))
    if v is not None and v.op == "none":
        good, what = False, "None"
    out.append(fact("bits", good, "a later step of %s() gives %s" % (name, what), pos + ".__next__"))
    return out


def orbit(k, seed):
    """spec: (state, bit) terms after k steps"""
    s = t.aspoly(seed)
    for _ in range(k):
        s = t.sub(t.mul(num(A), s), t.mul(num(P), t.floor_(t.mul(num(F(A, P)), s))))
    return s


def lehmer(conds):
    out = []
    pos = MOD + ".Mersenne.__next__"
    I = cli.start(mods=(MOD,))
    C = cli.attr(I, MOD, "Mersenne")
    SEED = var("seed", "int")

    def go(seed, steps, other=False):
        g = make(I, C, [seed])
        h = make(I, C, [var("seed2", "int")]) if other else None
        vs = []
        for _ in range(steps):
            if h is not None:
                step(I, h)
            vs.append(step(I, g))
        return g, vs

    g, vs = go(SEED, 3)
    _, ws = go(SEED, 3, True)
    for k, (v, w) in enumerate(zip(vs, ws), 1):
        num_ = v is not None and lib.numeric(v)
        out.append(fact("independent", True if v is w else None, "step %d of one generator is the same beside another" % k, pos))
        for which, x in (("", v),) + ((("beside another", w),) if w is not v else ()):
            bad = None
            seen = 0
            if x is not None and lib.numeric(x):
                for s in SEEDS:
                    z = pow(A, k, P) * s % P
                    want = 0 if F(z, P) < F(1, 2) else 1
                    m = {SEED: num(s), var("seed2", "int"): num(271828)}
                    c = t.const(t.subst(t.aspoly(x), m))
                    if c is None:
                        try:
                            c = Model({"seed": F(s), "seed2": F(271828)}).settle(x)
                        except Undef:
                            continue
                    seen += 1
                    if c != want:
                        bad = "seed %d gives %s instead of %d" % (s, c, want)
                        break
            if x is not None and x.op in ("str", "none"):
                bad = "gives %s" % t.pretty(x, 2)
            want = spec(k, SEED)
            ok = False if bad else True if x is not None and lib.numeric(x) and t.aspoly(x) is t.aspoly(want) else None
            out.append(fact("sequence", ok, "step %d%s: %s" % (k, which and " " + which, bad or ("the recurrence's bit, by normal form" if ok else "agrees at %d seeds" % seen)), pos))
    # induction: a generator after a step is a generator of the stepped seed
    a = I.freeze(go(SEED, 1)[0])
    b = I.freeze(go(orbit(1, SEED), 0)[0])
    out.append(fact("sequence", True if a is b else None, "a generator after a step %s one made with the stepped seed" % ("equals" if a is b else "is not seen to equal"), pos))
    out += counting(I, C, SEED, pos)
    return out


def counting(I, C, SEED, pos):
    """later steps of a generator that counts its steps: the recurrence must go on whatever the count"""
    g = make(I, C, [SEED])
    if not known(I, g):
        return []
    first = dict(I.deref(g).args[1])
    step(I, g)
    now = dict(I.deref(g).args[1])
    moved = [k for k in now if first.get(k) is not now[k]]
    state = [k for k in moved if first.get(k) is SEED]
    if len(state) != 1 or len(moved) == 1:
        return []
    (state,) = state
    sym = {k: var("state_" + k, "int") for k in moved}
    for k in moved:
        I.setattr(g, k, sym[k])
    v = step(I, g)
    then = dict(I.deref(g).args[1])
    step_of, start = {}, {}
    for k in moved:
        if k == state:
            continue
        c = t.const(t.sub(t.aspoly(then[k]), t.aspoly(sym[k]))) if lib.numeric(then[k]) else None
        i = t.const(t.aspoly(first[k])) if k in first and lib.numeric(first[k]) else None
        if not c or i is None:
            return [fact("sequence", None, "later steps: how %s changes is not understood" % k, pos)]
        step_of[k], start[k] = c, i
    if v is None or not lib.numeric(v) or not lib.numeric(then[state]):
        return [fact("sequence", None, "a later step is not understood", pos)]
    v, nxt = t.aspoly(v), t.aspoly(then[state])
    if v is t.aspoly(spec(1, sym[state])) and nxt is orbit(1, sym[state]):
        return [fact("sequence", True, "any later step gives the recurrence's bit and state, whatever %s" % ", ".join(step_of), pos)]
    from checks.c27 import roots

    steps = {0, 1, 2, 3}
    for k in step_of:
        for x in (v, nxt):
            for y in roots(x, sym[k])[0]:
                n = (y - start[k]) / step_of[k]
                steps |= {int(n) + d for d in (-2, -1, 0, 1, 2)}
    for n in sorted(x for x in steps if x >= 0):
        for s in SEEDS:
            z = A * s % P
            m = {SEED: num(s * pow(INV, n, P) % P), sym[state]: num(s)}
            m.update({sym[k]: num(start[k] + n * step_of[k]) for k in step_of})
            got = [t.const(t.subst(x, m)) for x in (v, nxt)]
            want = [0 if 2 * z < P else 1, z]
            if got[0] is not None and got[0] != want[0]:
                return [fact("sequence", False, "step %d after %d others, from state %d, gives %s instead of %d" % (n + 1, n, s, got[0], want[0]), pos)]
            if got[1] is not None and got[1] != want[1]:
                return [fact("sequence", False, "step %d after %d others goes from state %d to %s instead of %d" % (n + 1, n, s, got[1], want[1]), pos)]
    return [fact("sequence", None, "later steps agree at %d counts" % len(steps), pos)]


def spec(k, seed):
    """1 when the stepped seed is at least half of 2^31 - 1 (which is odd: above (P - 1)/2)"""
    s = orbit(k, seed)
    return t.sub(ONE, t.ge0(t.sub(num((P - 1) // 2), s)))


def run(tier):
    r = jobs.Runner(8, 150 if tier == "quick" else 560)
    I = cli.start(mods=(MOD,))
    names = cli.names(I, MOD)
    if not names:
        raise jobs.Anchor(MOD + ".__all__")
    for n in names:
        r.submit(n, shared_job(n))
    if "Mersenne" in names:
        r.submit("Lehmer", lehmer)
    return pack(r.collect(), RULE)
