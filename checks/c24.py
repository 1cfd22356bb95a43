"""C24: the summary's verdicts follow from the p-values."""
import re
from fractions import Fraction as F

from checks import c21
from checks.values import pack
from sa import cli, jobs, lib, terms as t
from sa.cli import fact
from sa.leaves import TESTS
from sa.terms import NONE, ONE, ZERO, mk, num, seq, string, var

TECHNIQUE = "abstract interpretation of the summary over symbolic p-values; verdict conditions and cells as normal forms"
RULE = (
    "Abstract interpretation of the results summary - called by itself, at the end of a run and by read - with each test's result a single one with a "
    "symbolic p-value, a multiple one, or missing.  Each table row comes with its condition and its cells as terms: every single or missing result must "
    "have exactly one row, under the test's own display name; the verdict must be PASS under exactly the condition p >= the level the caption states, FAIL "
    "under its complement, N/A when the result is missing; the p cell must render, for the p of that very test, to its three-decimal rounding.  Multiple "
    "results must be named in a printed notice.  Terms other than the known normal forms are told apart by rendering them at chosen p-values."
)
SAMPLES = [F(0), F(1), F(1, 2), F(1, 100), F(1, 100) - F(1, 10**9), F(1, 100) + F(1, 10**9), F(95, 10000), F(99, 10000), F(9951, 10**6), F(10049, 10**6), F(101, 10000),
           F(49, 1000), F(1, 20), F(51, 1000), F(1, 10), F(99999, 100000), F(12345, 10**5), F(1, 10**7), F(11, 1000), F(9, 1000), F(4, 1000), F(1, 1000), F(999, 1000)]


def render(x):
    """the text a term without variables stands for; None if not known"""
    x = strip(x)
    if x.op == "str":
        return x.args[0]
    if x.op == "fstr":
        parts = [render(y) if isinstance(y, t.T) else str(y) for y in x.args]
        return None if None in parts else "".join(parts)
    if x.op == "cat":
        parts = [render(y) for y in x.args]
        return None if None in parts else "".join(parts)
    if x.op == "app" and x.args[0] in ("str", "repr") or x.op == "str()":
        v = number(x.args[1])
        return None if v is None else repr(float(v))
    if x.op == "strrep" or x.op == "app" and x.args[0] == "strrep":
        a = x.args if x.op == "strrep" else x.args[1:]
        s, n = render(a[0]), number(a[1])
        return None if s is None or n is None else s * int(n)
    if x.op == "app" and x.args[0] == "format":
        v = number(x.args[1])
        spec = render(x.args[2]) if len(x.args) > 2 else ""
        if v is None or spec is None:
            return None
        try:
            return format(float(v), spec)
        except ValueError:
            return None
    if x.op == "app" and x.args[0] == "substr":
        a, k = render(x.args[1]), x.args[2]
        if a is None:
            return None
        if k.op == "slice":
            b = [None if z is NONE else number(z) for z in k.args]
            if any(z is None and y is not NONE for z, y in zip(b, k.args)):
                return None
            return a[slice(*[None if z is None else int(z) for z in b])]
        z = number(k)
        return None if z is None else a[int(z)]
    if x.op == "app" and isinstance(x.args[0], str) and (x.args[0].startswith("strm_") or x.args[0] == "strip"):
        a, b = render(x.args[1]), []
        for z in x.args[2:]:
            v = render(z) if z.op in ("str", "fstr") else number(z)
            if v is None:
                return None
            b.append(v if isinstance(v, str) else int(v))
        m = x.args[0][5:] if x.args[0].startswith("strm_") else "strip"
        if a is None or m not in ("ljust", "rjust", "zfill", "strip", "lstrip", "rstrip", "center", "replace"):
            return None
        return getattr(a, m)(*b)
    if x.op == "ite":
        c = number(x.args[0])
        return None if c is None else render(x.args[1] if c else x.args[2])
    v = number(x)
    return None if v is None else repr(float(v))


def number(x):
    """the value of a term without variables"""
    x = strip(x) if isinstance(x, t.T) else num(x)
    try:
        p = t.aspoly(x)
    except Exception:
        return None
    if p.op != "poly":
        return atom(p)
    tot = F(0)
    for mono, c in p.args[0]:
        v = F(c)
        for a, k in mono:
            y = atom(a)
            if y is None:
                return None
            v *= F(y) ** k
        tot += v
    return tot


def atom(a):
    if a.op == "app" and a.args[0] == "round" or a.op == "round":
        b = a.args[1:] if a.op == "app" else a.args
        v = number(b[0])
        n = number(b[1]) if len(b) > 1 else 0
        return None if v is None or n is None else F(repr(round(float(v), int(n)))) if len(b) > 1 else F(round(float(v)))
    if a.op in ("strlen", "len") or a.op == "app" and a.args[0] == "len":
        s = render(a.args[-1])
        return None if s is None else len(s)
    if a.op in ("ge0", "gt0", "eq0"):
        v = number(a.args[0])
        return None if v is None else int(v >= 0 if a.op == "ge0" else v > 0 if a.op == "gt0" else v == 0)
    if a.op == "app" and a.args[0] == "tofloat":
        s = render(a.args[1])
        try:
            return None if s is None else F(s.strip())
        except ValueError:
            return None
    if a.op == "abs":
        v = number(a.args[0])
        return None if v is None else abs(v)
    return None


def strip(x):
    """what a rich text shows"""
    while x.op == "inst" and x.args[0].op == "builtin" and x.args[0].args[0].endswith("Text"):
        a = dict(x.args[1]).get("args")
        if a is None or not a.args:
            break
        x = a.args[0]
    return x


def worded(x, word):
    """the condition under which a cell's text has a word; None if not known"""
    x = strip(x)
    if x.op == "ite":
        a, b = worded(x.args[1], word), worded(x.args[2], word)
        if a is None or b is None:
            return None
        return t.add(t.mul(x.args[0], a), t.mul(t.not_(x.args[0]), b))
    s = render(x)
    return None if s is None else ONE if word in s else ZERO


def level(o):
    """the significance level the printed table states"""
    for g, a, w in o.actions:
        if a[0].endswith("Console.print"):
            for y in a[2:]:
                if y.op == "inst" and y.args[0].op == "builtin" and y.args[0].args[0].endswith("Table"):
                    for k, v in dict(y.args[1])["kw"].args[0]:
                        if k in ("caption", "title"):
                            s = render(v)
                            m = re.findall(r"\d*\.\d+", s or "")
                            if len(m) == 1:
                                return F(m[0])
    return None


def summary(I, o, present, missing, multi, where):
    """present: {name: condition of having an entry}, missing: {name: flag of the entry being none}"""
    out = []
    L = level(o)
    if L is None:
        return [fact("caption", None, "the significance level stated is not found")]
    shown = cli.entries(I, cli.attr(I, cli.RUNNER, "f_randtest_names"))
    shown = {k: v.args[0] for k, v, g in shown or () if v.op == "str"}
    last = [i for i, (g, a, w) in enumerate(o.actions) if a[0].endswith("Console.print") and any(y.op == "inst" and y.args[0].op == "builtin" and y.args[0].args[0].endswith("Table") for y in a[2:])]
    rows = [(i, g, a) for i, (g, a, w) in enumerate(o.actions) if a[0].endswith("Table.add_row")]
    if not last or not rows:
        return [fact("table", None, "the summary's table is not found")]
    out.append(fact("table", c21.holds(o.actions[last[-1]][0], ONE) if rows[-1][0] < last[-1] else False, "the table is printed once all its rows are there", where))
    for name in TESTS:
        fname = shown.get(name)
        if fname is None or name not in present:
            continue
        mine = [(g, a) for i, g, a in rows if len(a) > 2 and render(a[2]) is not None and fname == render(a[2]).strip()]
        tot = ZERO
        for g, a in mine:
            tot = t.add(tot, g)
        miss = missing.get(name, ZERO)
        want = t.mul(present[name], miss) if name in multi else present[name]
        out.append(fact("listed", c21.holds(tot, want), "%s has a row when %s" % (name, c21.text(tot)), where))
        for g, a in mine:
            if len(a) < 5:
                out.append(fact("row", None, "%s's row has %d cells" % (name, len(a) - 2), where))
                continue
            cells = a[3:]
            (fa,) = cli.atoms(miss) or (None,) if miss is not ZERO else (None,)
            none = [t.subst(c, {fa: ONE}) for c in cells] if fa is not None else None
            some = [t.subst(c, {fa: ZERO}) for c in cells] if fa is not None else cells
            if none:
                w = worded(none[1], "N/A")
                out.append(fact("N/A", w if w is None else w is ONE, "%s without a result is shown as %s" % (name, t.pretty(strip(none[1]), 2)[:60]), where))
            if name in multi:
                continue
            p = var("p_" + name, "real")
            out += cell(name, some, p, L, where)
        if name in multi:
            # named in something printed
            g = ZERO
            sub = {fa: ZERO for fa in cli.atoms(miss)} if miss is not ZERO else {}
            for g2, a, w in o.actions:
                if a[0] != "rich.table.Table.add_row":
                    for y in a[1:]:
                        if isinstance(y, t.T):
                            g = t.or_(g, t.mul(t.subst(g2, sub), mentions(t.subst(y, sub), fname)))
            need = t.subst(present[name], sub)
            good = c21.holds(t.or_(g, t.not_(need)), ONE)
            out.append(fact("named", good, "%s is named as not summarised when %s" % (name, c21.text(g)), where))
    return out


def mentions(y, word):
    """the condition under which a text has a word"""
    y = strip(y)
    if y.op == "ite":
        return t.add(t.mul(y.args[0], mentions(y.args[1], word)), t.mul(t.not_(y.args[0]), mentions(y.args[2], word)))
    if y.op in ("fstr", "cat", "seq", "tup", "list") or y.op == "app" and y.args[0] in ("join", "str"):
        g = ZERO
        for z in y.args:
            if isinstance(z, t.T):
                g = t.or_(g, mentions(z, word))
        return g
    return ONE if y.op == "str" and word in y.args[0] else ZERO


def cell(name, cells, p, L, where):
    out = []
    yes, no = worded(cells[1], "PASS"), worded(cells[1], "FAIL")
    want = t.ge0(t.sub(t.aspoly(p), num(L)))
    if yes is want and no is t.not_(want):
        out.append(fact("verdict", True, "%s is PASS when %s" % (name, c21.text(yes)), where))
    else:
        bad = None
        if yes is not None and c21.known(yes) and p not in cli.leaves_of(yes):
            out.append(fact("verdict", False, "%s is PASS when %s, whatever p is" % (name, c21.text(yes)), where))
            yes = None
        if yes is not None and no is not None:
            for s in SAMPLES + [L, L - F(1, 10**6), L + F(1, 10**6)]:
                a, b = number(t.subst(yes, {p: num(s)})), number(t.subst(no, {p: num(s)}))
                if a is not None and b is not None and (a, b) != (int(s >= L), int(s < L)):
                    bad = s
                    break
        out.append(fact("verdict", None if bad is None else False, "%s is %s" % (name, "PASS when " + c21.text(yes) if yes is not None else "not understood")
                        + ("" if bad is None else "; wrong for p = %s" % float(bad)), where))
    c = cells[0]
    others = [x for x in cli.leaves_of(c) if x.op == "var" and str(x.args[0]).startswith(("p_", "stat_", "failures_")) and x is not p]
    if others:
        out.append(fact("p-value", False, "%s's p cell shows %s" % (name, others[0].args[0]), where))
        return out
    bad = None
    n = 0
    for s in SAMPLES:
        x = render(t.subst(c, {p: num(s)}))
        if x is None:
            continue
        n += 1
        try:
            good = F(x.strip()) == F(repr(round(float(s), 3)))
        except ValueError:
            good = False
        if not good:
            bad = (s, x)
            break
    form = canonical(c, p)
    out.append(fact("p-value", False if bad else True if form else None, "%s's p cell %s" % (name, "shows %r for p = %s" % (bad[1], float(bad[0])) if bad else "is p rounded to three decimals" if form else "renders right at %d p-values" % n), where))
    return out


def canonical(c, p):
    """forms known to be p to three decimals"""
    c = strip(c)
    texts = [x for x in cli.leaves_of(c) if x is p or x.op in ("var", "unknown", "libcall")]
    if any(x is not p for x in texts):
        return False
    r = [x for x in cli.leaves_of(c) if (x.op == "round" or x.op == "app" and x.args[0] == "round") and p in [a for a in x.args if isinstance(a, t.T)] + [y for a in x.args if isinstance(a, t.T) and a.op == "poly" for y in cli.atoms(a)]]
    f = [x for x in cli.leaves_of(c) if x.op == "app" and x.args[0] == "format"]
    if len(r) == 1 and not f:
        # p is read only inside round(p, 3), the rest pads with zeros
        return True
    return len(f) == 1 and not r and any(isinstance(y, t.T) and y.op == "str" and y.args[0] == ".3f" for y in f[0].args)


def direct(multi):
    def run(conds):
        I = cli.start(c21.maker(None), mods=(cli.RUNNER,))
        pairs = tuple((string(n), t.ite(c21.flag(n), NONE, c21.result(I, n, n in multi)), ONE) for n in TESTS)
        d = I.alloc(mk("hdict", mk("dict", pairs), NONE, "dict"))
        o = cli.run(I, cli.attr(I, cli.RUNNER, "print_results_summary"), [d])
        out = summary(I, o, {n: ONE for n in TESTS}, {n: c21.flag(n) for n in TESTS}, multi, cli.RUNNER)
        for g, cls, pos in o.ends:
            out.append(fact("goes on", False if c21.known(g) else None, "ends in %s when %s" % (cls[:1], c21.text(g)), "%s:%s" % pos))
        return out

    return run


def after_run(conds):
    I = cli.start(c21.maker("TestError"))
    o = c21.go(I, cli.attr(I, cli.COMMANDS, "run"), dict(data=string("DATA"), out=string("OUT"), binary=ZERO))
    return summary(I, o, {n: ONE for n in TESTS}, {n: c21.flag(n) for n in TESTS}, c21.MULTI, cli.RUNNER)


def at_read(conds):
    I = cli.start(c21.maker(None))
    has = {n: t.aspoly(mk("bflag", "has", n)) for n in TESTS}
    o = c21.reading(I, has)
    return summary(I, o, has, {}, c21.MULTI, cli.RUNNER)


def run(tier):
    r = jobs.Runner(8, 150 if tier == "quick" else 560)
    r.submit("summary of single results", direct([]))
    r.submit("summary of both kinds", direct(c21.MULTI))
    for n in TESTS if tier != "quick" else TESTS[:2]:
        r.submit("summary, multiple result of %s" % n, direct([n]))
    r.submit("summary after a run", after_run)
    r.submit("summary when reading", at_read)
    return pack(r.collect(), RULE)
