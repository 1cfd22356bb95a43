"""One analysis of a test against its specification (a leaf of the case tree)."""
import ast
import os
import time

from . import compare as C
from . import driver, pairs, signs
from . import terms as t
from .driver import INPUT, N
from .jobs import Anchor
from .terms import ONE, ZERO, mk, num, seq, string, var

TESTS = [
    "monobit", "frequency_within_block", "runs", "longest_runs", "binary_matrix_rank", "spectral",
    "non_overlapping_template_matching", "overlapping_template_matching", "maurers_universal",
    "linear_complexity", "serial", "approximate_entropy", "cusum", "random_excursions", "random_excursions_variant",
]
SPECMOD = {
    "monobit": "frequency", "frequency_within_block": "frequency", "runs": "runs", "longest_runs": "runs",
    "binary_matrix_rank": "matrix", "spectral": "fourier", "non_overlapping_template_matching": "template",
    "overlapping_template_matching": "template", "maurers_universal": "universal", "linear_complexity": "complexity",
    "serial": "serial", "approximate_entropy": "serial", "cusum": "walk", "random_excursions": "walk",
    "random_excursions_variant": "walk",
}
PARAMS = {
    "frequency_within_block": ["blocksize"], "binary_matrix_rank": ["matrix_dimen"],
    "non_overlapping_template_matching": ["template_size", "blocksize"],
    "overlapping_template_matching": ["template_size", "blocksize", "matches_ceil"],
    "maurers_universal": ["blocksize", "init_nblocks"], "linear_complexity": ["blocksize"],
    "serial": ["blocksize"], "approximate_entropy": ["blocksize"], "cusum": ["reverse"],
}


def value(p):
    if p == "matrix_dimen":
        return seq(var("nrows", "pos"), var("ncols", "pos"))
    if p == "reverse=True":
        return ONE
    if p == "reverse=False":
        return ZERO
    return var(p, "pos")


def modes(test, which):
    """names of the ways of calling a test: which parameters are given"""
    ps = PARAMS.get(test, [])
    if test == "cusum":
        given = ["reverse=False", "reverse=True"]
        return {"given": given, "default": [""], "partial": [""]}[which]
    if which == "given":
        return [",".join(ps)]
    if which == "default":
        return [""]
    out = []
    for m in range(2 ** len(ps) - 1):
        out.append(",".join(p for i, p in enumerate(ps) if m >> i & 1))
    return out


def kwargs(mode):
    return {p.split("=")[0]: value(p) for p in mode.split(",") if p}


SIZES = {
    "monobit": [2, 3, 5, 8, 17, 99, 100, 101, 128],
    "frequency_within_block": [8, 9, 16, 17, 30, 99, 100, 101, 130, 200],
    "runs": [2, 3, 5, 8, 17, 40, 99, 100, 101],
    "longest_runs": [128, 129, 136, 135, 150, 200, 300],
    "binary_matrix_rank": [4, 9, 17, 30, 37, 64, 152],
    "spectral": [2, 3, 4, 5, 8, 11, 16, 21, 30],
    "non_overlapping_template_matching": [3, 8, 12, 17, 30, 41],
    "overlapping_template_matching": [3, 8, 17, 30, 45, 61],
    "maurers_universal": [4, 9, 17, 30, 41, 60],
    "linear_complexity": [4, 9, 14, 20, 27, 33],
    "serial": [2, 3, 5, 8, 11, 20, 33],
    "approximate_entropy": [2, 3, 5, 8, 11, 20, 33],
    "cusum": [2, 3, 5, 8, 17, 30, 99, 100, 101],
    "random_excursions": [2, 3, 6, 12, 25, 40],
    "random_excursions_variant": [2, 3, 6, 12, 25, 40],
}
DSIZES = {
    "frequency_within_block": [8, 50, 99, 100, 150, 300, 700, 2500],
    "non_overlapping_template_matching": [288, 320],
    "overlapping_template_matching": [288, 1100],
    "maurers_universal": [700, 2020],
    "linear_complexity": [8, 100, 500],
    "binary_matrix_rank": [152, 200, 400],
    "serial": [8, 30, 100, 200],
    "approximate_entropy": [8, 30, 100, 200],
}
VALUES = {
    "nrows": [1, 2, 3, 4, 5], "ncols": [1, 2, 3, 5, 4],
    "template_size": [1, 2, 3], "matches_ceil": [1, 2, 3, 5, 7], "init_nblocks": [1, 2, 3, 4, 6],
    "blocksize": [1, 2, 3, 4, 5, 7, 8, 10, 20, 25],
}
BLOCKS = {
    "maurers_universal": [1, 2, 3, 4], "serial": [1, 2, 3, 4], "approximate_entropy": [1, 2, 3, 4],
    "linear_complexity": [1, 2, 3, 4, 5, 8], "non_overlapping_template_matching": [2, 3, 4, 5, 8, 10, 12],
    "overlapping_template_matching": [2, 3, 4, 5, 8, 10, 15],
}


def cases(test, mode):
    import itertools

    names = []
    for p in mode.split(","):
        if not p or "=" in p:
            continue
        names += ["nrows", "ncols"] if p == "matrix_dimen" else [p]
    sizes = SIZES[test] if mode or test not in DSIZES else DSIZES[test]
    lists = [BLOCKS.get(test, VALUES["blocksize"]) if p == "blocksize" else VALUES[p] for p in names]
    out = []
    for vs in itertools.product(sizes, *lists):
        out.append(dict(zip(["n"] + names, vs)))
    if names:
        import random

        random.Random(7).shuffle(out)
        out = out[:60]
    return out


class Pair:
    """code and specification run over the same symbolic input"""


def run_pair(test, mode, conds, ctx=False, spec=True, mod="coinflip.randtests", setup=None, light=False, ref=None):
    p = Pair()
    p.test, p.mode = test, mode
    I = p.I = pairs.interp()
    I.light = light
    p.f = lookup(I, mod, test)
    kw = kwargs(mode)
    if ref and "matches_ceil" in kw:
        kw["matches_ceil"] = num(5)  # the only one the reference knows
    p.kw = kw
    m = I.mark()
    st = dict(I.st)
    if setup:
        setup(p)
    t0 = time.time()
    kw2 = dict(kw)
    if ctx:
        kw2["ctx"] = seq(var("progress", "any"), var("task", "any"))
    p.code = driver.run(I, p.f, [INPUT], kw2, true=conds)
    p.functions = sorted(I.functions)
    p.events = list(p.code.events)
    p.code_s = time.time() - t0
    I.hooks = {}
    if spec:
        I.reset(m)
        I.pc = []
        I.events = []
        t0 = time.time()
        if ref:
            g = lookup(I, ref, test)
            v = t.fresh()
            bits = I.alloc(mk("list", t.arr(N, v, t.aspoly(t.hd(t.index(driver.S, v))))))
            p.spec = driver.run(I, g, [bits], {k: x for k, x in kw.items() if k != "matches_ceil"}, true=list(conds) + [p.code.guard])
            p.functions = sorted(set(p.functions) | set(I.functions))
        else:
            g = lookup(I, "spec." + SPECMOD[test], test)
            p.spec = driver.run(I, g, [INPUT], kw, true=conds)
        p.spec_s = time.time() - t0
        p.want = {}
        if ref and p.spec.value is not None:
            I.st = p.spec.state
            p.ref = I.freeze(p.spec.value)
        elif p.spec.value is not None:
            I.st = p.spec.state
            o = I.deref(p.spec.value).args[0]
            for k, x, _ in o.args[0]:
                p.want[k.args[0]] = I.freeze(x)
    p.got, p.cls = {}, None
    if p.code.value is not None:
        I.st = p.code.state
        o = I.deref(p.code.value)
        p.value = o
        if o.op == "inst":
            p.cls = o.args[0]
            p.got = {k: I.freeze(v) for k, v in o.args[1]}
    I.reset(m)
    I.pc = []
    for c in conds:
        t.add_true(c)
    t._bump()
    return p


def lookup(I, mod, name):
    try:
        return pairs.lookup(I, mod, name)
    except pairs.Anchor as e:
        raise Anchor(str(e))


def space(test, mode, tier="quick", seed=1):
    return C.Space(cases(test, mode), seqs=6 if tier == "quick" else 14, most=160 if tier == "quick" else 900, seed=seed, seconds=25 if tier == "quick" else 120)


def pre(p, conds):
    return list(conds) + [p.code.guard, p.spec.guard]


def rec(name, v, pos=""):
    d = dict(name=name, verdict=v.kind, detail=v.detail)
    if v.witness:
        d["witness"] = v.witness
    if pos:
        d["pos"] = pos
    return d


def site(p, field):
    """file:line of the value of a field of the result"""
    cls = p.I.get(p.cls).name if p.cls.op == "cls" else ""
    root = os.path.join(driver.SRC, "coinflip", "_randtests")
    try:
        files = sorted(os.listdir(root))
    except OSError:
        return ""
    best = ""
    for f in files:
        if not f.endswith(".py"):
            continue
        path = os.path.join(root, f)
        try:
            tree = ast.parse(open(path).read())
        except (SyntaxError, UnicodeDecodeError):
            continue
        fields = None
        for n in ast.walk(tree):
            if isinstance(n, ast.ClassDef) and n.name == cls:
                for c in ast.walk(tree):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == cls:
                        best = "%s:%d" % (path, c.lineno)
                        for a in list(c.args) + [k.value for k in c.keywords]:
                            if isinstance(a, ast.Name) and a.id == field:
                                return "%s:%d" % (path, a.lineno)
                        for k in c.keywords:
                            if k.arg == field:
                                return "%s:%d" % (path, k.value.lineno)
    return best


# ------------------------------------------------------------------ aspects
SUB = ("statistic", "p")


def split_results(p):
    """{feature term: {field: term}} of code and specification, or None"""
    out = []
    for x in (p.got.get("results"), p.want.get("results")):
        if x is None:
            return None
        y = C.plain(x)
        if y.op != "dict":
            return None
        d = {}
        for k, v, c in y.args[0]:
            if v.op != "dict":
                return None
            d[k] = ({a.args[0]: b for a, b, _ in v.args[0]}, c)
        out.append(d)
    return out


def values(p, conds, sp):
    """statistic and p-value"""
    out = []
    if p.cls is None and not p.want:
        return out
    if p.spec.value is not None:
        v = C.compare(p.code.guard if p.code.value is not None else ZERO, [ONE], list(conds) + [p.spec.guard], sp)
        if v.kind == "violation":
            pos = next((q for g, e, q in p.code.raises if q), "")
            v.detail = "no value where the specification has one: " + v.detail
            return [rec("answers", v, "%s:%s" % pos if pos else "")]
    if p.code.value is None or p.spec.value is None:
        return out
    if p.cls is None:
        return [dict(name="result", verdict="undecided", detail="the test's result is not one record")]
    for f in SUB + ("results",):
        if f in p.want:
            if f not in p.got:
                out.append(dict(name=f, verdict="undecided", detail="no such field"))
                continue
            if f == "results":
                out += sub_results(p, conds, sp)
            else:
                k = p.want.get("known")
                if k is not None and k.args[0].args[0] == f and C.compare(p.got[f], [k.args[2]], pre(p, conds), sp).kind != "violation":
                    out.append(dict(name=f, verdict="finding", id=k.args[1].args[0], detail="the value is " + t.pretty(k.args[2], 6)[:200], pos=site(p, f)))
                    continue
                out.append(rec(f, C.compare(p.got[f], [p.want[f]], pre(p, conds), sp), site(p, f)))
    return out


def only_sub(x):
    """results reduced to statistic and p per feature"""
    return x


def sub_results(p, conds, sp, extra=False):
    a, b = C.plain(p.got["results"]), C.plain(p.want["results"])
    v = C.compare(project(a, extra), [project(b, extra)], pre(p, conds), sp)
    return [rec("results", v, site(p, "results"))]


def project(x, extra, memo=None):
    """keep statistic and p of every record with these fields"""
    memo = {} if memo is None else memo
    r = memo.get(x)
    if r is not None:
        return r
    if x.op == "dict" and not extra:
        names = [k.args[0] for k, v, c in x.args[0] if k.op == "str"]
        if "statistic" in names and "p" in names and len(names) == len(x.args[0]):
            r = C.table([(k, project(v, extra, memo), c) for k, v, c in x.args[0] if k.args[0] in SUB])
            memo[x] = r
            return r
        r = mk("dict", tuple((project(k, extra, memo), project(v, extra, memo), c) for k, v, c in x.args[0]))
    else:
        r = t._rebuild(x, lambda y: project(y, extra, memo))
    memo[x] = r
    return r


IGNORE = ("known", "steps", "refdist", "failures", "p", "statistic")


def fields(p, conds, sp):
    """everything a result reports besides statistic and p"""
    out = []
    if p.code.value is None or p.spec.value is None:
        return out
    if p.cls is None:
        return [dict(name="result", verdict="undecided", detail="the test's result is not one record")]
    for f in sorted(p.want):
        if f in IGNORE:
            continue
        if f not in p.got:
            out.append(dict(name=f, verdict="undecided", detail="no such field"))
            continue
        out.append(rec(f, C.compare(p.got[f], [p.want[f]], pre(p, conds), sp), site(p, f)))
    extra = sorted(set(p.got) - set(p.want))
    for f in extra:
        out.append(dict(name=f, verdict="undecided", detail="a field the specification does not know"))
    return out


def failures(p, conds, sp):
    if p.code.value is None or p.spec.value is None:
        return []
    if "failures" not in p.got:
        return [dict(name="failures", verdict="undecided", detail="no such field")]
    return [rec("failures", C.compare(p.got["failures"], [p.want["failures"]], pre(p, conds), sp), site(p, "failures"))]


def refusals(p, conds, sp):
    """when which error is raised"""
    I = p.I
    out = []
    byname = []
    for o in (p.code, p.spec):
        d = []
        for (g, e, pos), st in zip(o.raises, o.raised_in):
            d.append((g, names_of(I, e, st), "%s:%s" % pos if pos else ""))
        byname.append(d)
    code, spec = byname
    fam = sorted({n for _, ns, _ in spec for n in ns if n.startswith(("Test", "NonBinary", "Minimum", "Value", "NotImpl"))})
    some = lambda d, pick: t.or_(*[g for g, ns, _ in d if pick(ns)]) if any(pick(ns) for _, ns, _ in d) else ZERO
    seen = []
    for name in fam:
        a = some(code, lambda ns: name in ns)
        b = some(spec, lambda ns: name in ns)
        pos = next((q for g, ns, q in code if name in ns), "")
        out.append(rec("raises " + name, C.compare(a, [b], list(conds), sp), str(pos)))
    stray = next((q for g, ns, q in code if not any(n in fam for n in ns)), "")
    out.append(rec("answers", C.compare(p.code.guard if p.code.value is not None else ZERO, [p.spec.guard if p.spec.value is not None else ZERO], list(conds), sp), str(stray)))
    return out


def names_of(I, e, st):
    """names of an exception's class and its bases, most derived first"""
    old = I.st
    I.st = st
    try:
        return [x.rsplit(".", 1)[-1] for x in I.exc_class(e)]
    finally:
        I.st = old


def progress_setup(p):
    """the display's methods, as the totals they leave behind"""
    I = p.I
    I.st[("fx", "adv")] = ZERO
    I.st[("fx", "total")] = mk("none")
    I.st[("fx", "touched")] = ZERO
    names = ("task", "total", "completed", "advance")

    def update(I, recv, o, args, kw):
        if o is not PROGRESS:
            return None
        I.st[("fx", "touched")] = ONE
        kw = dict(kw)
        if len(args) > 1:
            kw.update(zip(names[1:], args[1:]))
        if "total" in kw and kw["total"].op != "none":
            I.st[("fx", "total")] = I.freeze(kw["total"])
        if "completed" in kw and kw["completed"].op != "none":
            I.st[("fx", "adv")] = t.aspoly(kw["completed"])
        if "advance" in kw and kw["advance"].op != "none":
            I.st[("fx", "adv")] = t.add(I.st[("fx", "adv")], t.aspoly(kw["advance"]))
        return t.NONE

    def advance(I, recv, o, args, kw):
        if o is not PROGRESS:
            return None
        I.st[("fx", "touched")] = ONE
        k = args[1] if len(args) > 1 else kw.get("advance", ONE)
        I.st[("fx", "adv")] = t.add(I.st[("fx", "adv")], t.aspoly(k))
        return t.NONE

    I.hooks = {"update": update, "advance": advance}


PROGRESS = var("progress", "any")


def progress(p, conds, sp):
    """steps advanced against the total announced"""
    if p.code.value is None:
        return []
    st = p.code.state
    total, adv = st.get(("fx", "total")), st.get(("fx", "adv"))
    out = []
    if total.op == "none":
        return [dict(name="total", verdict="undecided", detail="no total seen")]
    # a total is compared where the test answers
    m = p.I.mark()
    t.add_true(p.code.guard)
    t._bump()
    v = C.compare(anew(t.aspoly(adv)), [anew(t.aspoly(total))], list(conds) + [p.code.guard], sp)
    p.I.reset(m)
    out.append(rec("steps", v, where_total(p)))
    out[-1]["detail"] += " (total %s)" % t.pretty(t.aspoly(total), 5)[:120]
    return out


def where_total(p):
    """file:line where the test announces its total"""
    root = os.path.join(driver.SRC, "coinflip", "_randtests")
    for f in sorted(os.listdir(root)) if os.path.isdir(root) else ():
        if f.endswith(".py"):
            try:
                tree = ast.parse(open(os.path.join(root, f)).read())
            except (SyntaxError, UnicodeDecodeError):
                continue
            for d in ast.walk(tree):
                if isinstance(d, ast.FunctionDef) and d.name == p.test:
                    for c in ast.walk(d):
                        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and "total" in c.func.id:
                            return "%s:%d" % (os.path.join(root, f), c.lineno)
                    return "%s:%d" % (os.path.join(root, f), d.lineno)
    return p.test


def anew(x, memo=None):
    """x built again under what is known by now"""
    memo = {} if memo is None else memo
    r = memo.get(x)
    if r is None:
        r = t._rebuild(x, lambda y: anew(y, memo))
        if r is x and x.op in ("abs", "floor", "ge0", "gt0", "eq0", "mod"):
            r = t.build(x.op, x.args)
        memo[x] = r
    return r


def plots(p, conds, sp):
    """the reference distribution a result draws"""
    from .interp import Halt

    if p.code.value is None or p.spec.value is None or p.cls is None:
        return []
    I = p.I
    want = p.want.get("refdist")
    cls = I.get(p.cls)
    pos, has = method_site(cls.name, "plot_refdist")
    if not has:
        return []
    if want is None or want.op not in ("tup", "seq"):
        return [dict(name="plot_refdist", verdict="undecided", detail="no reference distribution known for this test")]
    m = I.mark()
    I.st = dict(p.code.state)
    I.pc = []
    try:
        f = I.getattr(p.code.value, "plot_refdist")
        o = driver.run(I, f, [], {}, true=list(conds) + [p.code.guard])
        v = I.freeze(o.value) if o.value is not None else None
        raises = o.raises
    except Halt:
        v, raises = None, []
    finally:
        I.reset(m)
        I.pc = []
    for c in conds:
        t.add_true(c)
    t._bump()
    if v is None:
        names = sorted({x.op for x in ()})
        return [dict(name="plot_refdist", verdict="violation", detail="the plot of every result fails", pos=pos)] if raises else [dict(name="plot_refdist", verdict="undecided", detail="no chart")]
    calls = []
    C.atoms(v, {"libcall"}, calls, set())
    pdfs = [c for c in calls if str(c.args[0]).startswith("scipy.stats.") and str(c.args[0]).endswith(".pdf")]
    if not pdfs:
        return [dict(name="plot_refdist", verdict="undecided", detail="no density found in the chart")]
    out = []
    fam = want.args[0].args[0]
    starts = []
    for c in pdfs:
        name = c.args[0].split(".")[2]
        if name != fam:
            out.append(dict(name="distribution", verdict="violation", detail="draws %s where the p-value comes from %s" % (name, fam), pos=pos))
            continue
        if len(c.args) > 2 and c.args[2] not in ((), None) and c.args[2]:
            out.append(dict(name="distribution", verdict="undecided", detail="density with keyword arguments", pos=pos))
            continue
        a = c.args[1]
        if len(a) != (2 if fam == "chi2" else 1):
            out.append(dict(name="distribution", verdict="undecided", detail="density with %d arguments" % len(a), pos=pos))
            continue
        x = a[0]
        if fam == "chi2":
            out.append(rec("degrees of freedom", C.compare(a[1], [want.args[2]], pre(p, conds), sp), pos))
        if x.op == "libcall" and x.args[0] == "numpy.linspace":
            starts.append(x.args[1][0])
        else:
            out.append(dict(name="statistic", verdict="undecided", detail="the x values are not an interval", pos=pos))
    marked = [s for s in starts if not (s.op == "poly" and t.const(s) == 0)]
    if starts and not marked:
        out.append(dict(name="statistic", verdict="undecided", detail="no area marked", pos=pos))
    for s in marked:
        v = C.compare(s, [want.args[1]], pre(p, conds), sp)
        if v.kind != "proved" and "p" in p.got:
            # against the p-value the test itself reports
            s = t.aspoly(s)
            q = t.erfc(t.div(s, t.power(num(2), num(t.F(1, 2))))) if fam == "halfnorm" else t.aspoly(mk("gammaincc", t.scale(t.aspoly(want.args[2]), t.F(1, 2)), t.scale(s, t.F(1, 2))))
            w = C.compare(q, [p.got["p"]], pre(p, conds), sp)
            v = w if w.kind == "proved" or v.kind != "violation" or w.kind == "undecided" else v
        out.append(rec("statistic", v, pos))
    if raises:
        g = t.or_(*[g for g, e, q in raises])
        out.append(rec("always drawn", C.compare(t.aspoly(g), [ZERO], pre(p, conds), sp), pos))
    if not [r for r in out if r["name"] == "distribution"]:
        out.append(dict(name="distribution", verdict="proved", detail="every density drawn is %s" % fam))
    return out


def method_site(cls, name):
    root = os.path.join(driver.SRC, "coinflip", "_randtests")
    trees = {}
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith(".py"):
                try:
                    tree = ast.parse(open(os.path.join(d, f)).read())
                except (SyntaxError, UnicodeDecodeError):
                    continue
                for n in tree.body:
                    if isinstance(n, ast.ClassDef):
                        trees[n.name] = (os.path.join(d, f), n)
    todo = [cls]
    while todo:
        c = todo.pop(0)
        if c not in trees:
            continue
        path, n = trees[c]
        for b in n.body:
            if isinstance(b, ast.FunctionDef) and b.name == name:
                return "%s:%d" % (path, b.lineno), True
        todo += [b.id for b in n.bases if isinstance(b, ast.Name)]
    return "", False


def result_class(test):
    """name of the record a test returns, as far as its return statements say"""
    root = os.path.join(driver.SRC, "coinflip", "_randtests")
    names = set()
    for f in sorted(os.listdir(root)) if os.path.isdir(root) else ():
        if f.endswith(".py"):
            try:
                tree = ast.parse(open(os.path.join(root, f)).read())
            except (SyntaxError, UnicodeDecodeError):
                continue
            for d in tree.body:
                if isinstance(d, ast.FunctionDef) and d.name == test:
                    for c in ast.walk(d):
                        if isinstance(c, ast.Return):
                            names.add(c.value.func.id if isinstance(c.value, ast.Call) and isinstance(c.value.func, ast.Name) else None)
    return names.pop() if len(names) == 1 else None


def params(p, conds, sp):
    """the parameters a result says were used"""
    if p.code.value is None or p.spec.value is None:
        return []
    if p.cls is None:
        return [dict(name="result", verdict="undecided", detail="the test's result is not one record")]
    out = []
    names = []
    for q in PARAMS.get(p.test, []):
        names += ["nrows", "ncols"] if q == "matrix_dimen" else [q]
    for f in names:
        if f not in p.got or f not in p.want:
            out.append(dict(name=f, verdict="undecided", detail="no such field"))
            continue
        out.append(rec(f, C.compare(p.got[f], [p.want[f]], pre(p, conds), sp), site(p, f)))
    return out


# ------------------------------------------------------------------ histories
SOURCES = ("random.", "numpy.random", "time.", "datetime.", "secrets.", "uuid.", "os.environ", "os.getenv", "os.urandom", "os.getpid", "id", "input", "open")


def changed(before, after):
    """state that outlives a call and is not as it was"""
    out = []
    for k, v in before.items():
        if k[0] in ("fx", "y") or k not in after:
            continue
        if after[k] is not v:
            out.append(k)
    for k in after:
        if k not in before and k[0] == "clsattr":
            out.append(k)
    return out


def described(I, k, st):
    if k[0] == "v":
        return "%s in %s" % (k[2], I.envmod.get(k[1], "?")), I.envmod.get(k[1]), k[2]
    if k[0] == "h":
        for k2, v in st.items():
            if k2[0] == "v" and v is k[1]:
                return "%s in %s" % (k2[2], I.envmod.get(k2[1], "?")), I.envmod.get(k2[1]), k2[2]
        return "an object made before the call", None, None
    return str(k[0]), None, None


def history(test, mode, conds, sp):
    """two calls in a row, and the display of the result"""
    p = run_pair(test, mode, conds, spec=False)
    I = p.I
    out = []
    if p.code.value is None:
        return p, out
    st1 = dict(p.code.state)
    ev = list(p.events)
    first = p.got

    def again(f, args, kw, *true):
        I.pc = []
        t.CTX.facts = []
        t.CTX.known = {}
        t._bump()
        I.events = []
        return driver.run(I, f, args, kw, true=true)

    # display, twice
    shown = []
    I.st = st = st1
    I.light = True
    I.frozen_refs = I.nref
    r = I.deref(p.code.value)
    if r.op == "inst" and p.code.value.op == "ref":
        # what is displayed may be any number
        fs = tuple((k, var("any " + k, "real") if t.numeric(v) and t.const(t.aspoly(v)) is None else v) for k, v in r.args[1])
        st1[("h", p.code.value)] = mk("inst", r.args[0], fs)
        st = dict(st1)
    if p.cls is not None:
        for _ in range(2):
            I.st = dict(st)
            f = I.getattr(p.code.value, "__rich_console__")
            if f is None:
                break
            o = again(f, [var("console", "any"), var("options", "any")], {}, *conds)
            ev += o.events
            if o.value is None:
                break
            I.st = dict(o.state)
            o = again(mk("builtin", "list"), [o.value], {}, *conds)
            ev += o.events
            if o.value is None:
                break
            I.st = dict(o.state)
            shown.append(I.freeze(o.value))
            st = dict(I.st)
        ks = changed(st1, st)
        for k in ks:
            what, mod, name = described(I, k, st)
            if k[0] == "h" and st1[k].op in ("lazy", "iter"):
                continue
            if C.tainted(st[k]):
                out.append(dict(name="display keeps state", verdict="undecided", detail="what the display does to %s is not understood" % what))
                continue
            out.append(dict(name="display keeps state", verdict="violation", detail="displaying the result changes " + what, pos=decl(mod, name)))
        if len(shown) < 2:
            out.append(dict(name="display keeps state", verdict="undecided", detail="the display is not understood"))
        elif not ks:
            out.append(dict(name="display keeps state", verdict="proved", detail="nothing that outlives the display changes"))
    # the test again
    I.light = False
    I.frozen_refs = 0
    I.st = dict(st)
    o = again(p.f, [INPUT], p.kw, *conds)
    ev += o.events
    ks = changed(st, o.state)
    for k in ks:
        what, mod, name = described(I, k, st)
        if C.tainted(o.state[k]):
            out.append(dict(name="test keeps state", verdict="undecided", detail="what the test does to %s is not understood" % what))
            continue
        out.append(dict(name="test keeps state", verdict="violation", detail="a call of the test changes " + what, pos=decl(mod, name)))
    if not ks:
        out.append(dict(name="test keeps state", verdict="proved", detail="nothing that outlives the call changes"))
    second = {}
    if o.value is not None:
        I.st = o.state
        r = I.deref(o.value)
        if r.op == "inst":
            second = {k: I.freeze(v) for k, v in r.args[1]}
    for c in list(conds) + [p.code.guard]:
        t.add_true(c)
    for f in sorted(first):
        if f not in second:
            out.append(dict(name="again " + f, verdict="undecided", detail="no second result"))
            continue
        v = C.compare(second[f], [first[f]], list(conds) + [p.code.guard], sp)
        if v.kind == "violation":
            v.detail = "differs when the test is called a second time: " + v.detail
        out.append(rec("again " + f, v, site(p, f)))
    seen = set()
    for kind, detail, mod, line, fn in ev:
        bad = None
        if kind == "mutates-input" or kind == "series-write" and not local_copy(mod, line, fn):
            bad = "the sequence passed in may be written to (%s)" % (detail or "item assignment")
        elif kind == "class-write":
            bad = "an attribute of a class or function is set (%s)" % detail
        elif kind == "setting":
            bad = "process-wide settings are changed (%s)" % detail
        elif kind == "cache-faces":
            bad = "cached by faces, where equal values such as 1 and True are mixed up (%s)" % detail
        elif kind == "effect" and any(detail == s or s.endswith((".", "random")) and detail.startswith(s) for s in SOURCES):
            bad = "the outcome may depend on %s" % detail
        if bad and (bad, mod, line) not in seen:
            seen.add((bad, mod, line))
            out.append(dict(name="effects", verdict="violation", detail="%s, in %s" % (bad, fn), pos="%s:%s" % (mod, line)))
    if not seen:
        out.append(dict(name="effects", verdict="proved", detail="no write to the input, no setting, no clock, no random source"))
    p.functions = sorted(I.functions)
    return p, out


def path_of(mod):
    for p in (os.path.join(driver.SRC, *str(mod).split(".")) + ".py", os.path.join(driver.SRC, *str(mod).split("."), "__init__.py")):
        if os.path.exists(p):
            return p


def decl(mod, name):
    p = mod and path_of(mod)
    if not p:
        return ""
    for n in ast.walk(ast.parse(open(p).read())):
        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
            return "%s:%d" % (p, n.lineno)
    return p


FRESH = {"copy", "deepcopy", "array", "zeros", "ones", "empty", "full", "astype", "zeros_like", "ones_like", "empty_like", "where", "concatenate", "arange", "cumsum", "diff", "repeat", "tile", "fromiter", "linspace", "fft"}


def local_copy(mod, line, fn):
    """is what is written at this line made in this function as a new array?"""
    p = mod and path_of(mod)
    if not p:
        return False
    tree = ast.parse(open(p).read())
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.Lambda)) and f.lineno <= line <= max([getattr(x, "lineno", 0) for x in ast.walk(f)]):
            names = set()
            for s in ast.walk(f):
                if isinstance(s, (ast.Assign, ast.AugAssign)) and s.lineno <= line <= max(getattr(x, "lineno", 0) for x in ast.walk(s)):
                    for tg in s.targets if isinstance(s, ast.Assign) else [s.target]:
                        while isinstance(tg, (ast.Subscript, ast.Attribute)):
                            tg = tg.value
                        if isinstance(tg, ast.Name):
                            names.add(tg.id)
            if not names:
                continue
            ok = True
            for nm in names:
                made = [s.value for s in ast.walk(f) if isinstance(s, ast.Assign) and any(isinstance(g, ast.Name) and g.id == nm for g in s.targets)]
                if not made or not all(isinstance(v, ast.Call) and (v.func.attr if isinstance(v.func, ast.Attribute) else getattr(v.func, "id", "")) in FRESH or isinstance(v, ast.BinOp) for v in made):
                    ok = False
            if ok:
                return True
    return False


# ------------------------------------------------------------------ p-values
def pvalues(x):
    """p-values in a result term, with the condition of their being there"""
    out = []

    def walk(y, g):
        y = C.plain(y)
        if y.op == "dict":
            names = [k.args[0] for k, v, c in y.args[0] if k.op == "str"]
            if "p" in names and "statistic" in names:
                out.append((next(v for k, v, c in y.args[0] if k.op == "str" and k.args[0] == "p"), g))
                return
            for k, v, c in y.args[0]:
                walk(v, t.mul(g, t.aspoly(c)) if isinstance(c, t.T) else g)
            return
        out.append((None, g))

    walk(x, ONE)
    return out


def leaves_of(x):
    """[(condition, value)] of a value by cases"""
    if x.op == "ite":
        return [(t.mul(x.args[0], c), v) for c, v in leaves_of(x.args[1])] + [(t.mul(t.not_(x.args[0]), c), v) for c, v in leaves_of(x.args[2])]
    return [(ONE, x)]


def probability(p, conds, sp):
    """erfc and gammaincc at arguments that make them probabilities"""
    out = []
    if p.code.value is None:
        return out
    if p.cls is None:
        return [dict(name="p", verdict="undecided", detail="the test's result is not one record")]
    todo = []
    if "p" in p.got:
        todo.append(("p", C.plain(p.got["p"]), ONE))
    if "results" in p.got:
        for i, (v, g) in enumerate(pvalues(p.got["results"])):
            todo.append(("results", v, g))
    prem = list(conds) + [p.code.guard]
    m = p.I.mark()
    for name, v, g in todo:
        pos = site(p, name)
        if v is None:
            out.append(dict(name=name, verdict="undecided", detail="p-values not found in the results", pos=pos))
            continue
        p.I.reset(m)
        for c in prem + [g]:
            t.add_true(c)
        t._bump()
        x = t.aspoly(anew(v))
        d = t.pdict(x) if x.op == "poly" else {}
        a = None
        if len(d) == 1:
            (mono, co), = d.items()
            rest = [f for f, e in mono if t.atom_kind(f) != "bool"]
            if co == 1 and len(rest) == 1 and all(e == 1 for f, e in mono):
                a = rest[0]  # where it is not zero
        elif len(d) == 2 and d.get(()) == 2:
            (mono, co), = [(m_, c_) for m_, c_ in d.items() if m_]
            if co == -1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "erfc":
                a = mk("erfc", t.neg(t.aspoly(mono[0][0].args[0])))
        ok = None
        if a is not None and a.op == "erfc":
            ok = "erfc" if signs.nonneg(a.args[0]) else None
        elif a is not None and a.op == "gammaincc":
            ok = "gammaincc" if signs.nonneg(a.args[1]) and t.positive(t.aspoly(a.args[0])) else None
        elif p.test == "cusum":
            continue
        if ok:
            out.append(dict(name=name, verdict="proved", detail="%s at an argument that is never negative" % ok, pos=pos))
            continue
        eps = num(t.F(1, 10 ** 9))
        inside = t.mul(t.ge0(t.add(x, eps)), t.ge0(t.sub(t.add(ONE, eps), x)))
        r = C.compare(inside, [ONE], prem + [g], sp)
        if r.kind == "violation":
            r.detail = "the p-value lies outside [0, 1]"
        elif r.kind == "undecided":
            r.detail = "argument not shown non-negative (%s)" % r.detail
        if r.kind == "proved":
            r.detail = "within [0, 1]"
        if r.kind != "violation" and a is not None and a.op in ("erfc", "gammaincc"):
            q = C.compare(t.ge0(t.add(a.args[-1], eps)), [ONE], prem + [g], sp)
            if q.kind == "violation":
                r = q
                r.detail = "%s is taken at a negative argument" % a.op
        if r.kind == "undecided" and a is not None and a.op == "gammaincc":
            q = C.compare(t.gt0(t.aspoly(a.args[0])), [ONE], prem + [g], sp)
            if q.kind == "violation":
                r = q
                r.detail = "gammaincc is taken with a shape that is not positive"
        out.append(rec(name, r, pos))
    p.I.reset(m)
    return out


# ----------------------------------------------------------------------------
# reference implementations


def agreement(p, conds, sp):
    """statistic and p-value against the reference implementation's"""
    if p.code.value is None or p.spec.value is None:
        return []
    if p.cls is None:
        return [dict(name="result", verdict="undecided", detail="the test's result is not one record")]
    want = C.plain(p.ref)
    if want.op != "seq" or len(want.args) != 2:
        return [dict(name="result", verdict="undecided", detail="the reference's result is not a pair")]
    out = []
    for i, f in enumerate(SUB):
        if p.test == "non_overlapping_template_matching" and "results" in p.got:
            # the reference lists templates in counting order, the test keeps them by template
            a, b = by_template(p.got["results"], f), in_order(p.kw["template_size"], want.args[i])
            if a is None:
                out.append(dict(name=f, verdict="undecided", detail="results are not a table of records"))
            else:
                out.append(rec(f, C.compare(bits(a), [b], pre(p, conds), sp), site(p, "results")))
            continue
        if f in p.got:
            got = p.got[f]
        elif "results" in p.got:
            got = column(p.got["results"], f)
            if got is None:
                out.append(dict(name=f, verdict="undecided", detail="results are not a table of records"))
                continue
        else:
            out.append(dict(name=f, verdict="undecided", detail="no such field"))
            continue
        out.append(rec(f, C.compare(bits(C.plain(got)), [want.args[i]], pre(p, conds), sp), site(p, f if f in p.got else "results")))
    return out


def bits(x, memo=None):
    """elements of the sequence replaced by 1 and 0: true to any value that only tells them apart"""
    memo = {} if memo is None else memo
    r = memo.get(x)
    if r is None:
        if t.is_face(x):
            r = t.aspoly(t.hd(x))
        elif x.op == "hd":
            r = x
        else:
            r = t._rebuild(x, lambda y: bits(y, memo))
        memo[x] = r
    return r


def column(x, f):
    """the values of one field over a table of records, in order"""
    while x.op in ("def", "hdict") or x.op == "inst" and len(x.args[1]) == 1:
        x = x.args[0] if x.op != "inst" else x.args[1][0][1]
    if x.op == "dict":
        vs = [field(C.plain(v), f) for k, v, c in x.args[0]]
        if all(vs) and all(c is ONE for k, v, c in x.args[0]):
            return t.seq(*vs)
    if x.op == "scat" and x.args[0].op == "dict" and not x.args[0].args[0]:
        v = t.fresh()
        e = t.apply(x.args[2], v)
        e = e.args[1] if e.op in ("seq", "tup") and len(e.args) == 3 and e.args[2] is ONE else None
        e = e and field(C.plain(e), f)
        return e and t.arr(x.args[1], v, e)
    return None


def by_template(x, f):
    while x.op in ("def", "hdict") or x.op == "inst" and len(x.args[1]) == 1:
        x = x.args[0] if x.op != "inst" else x.args[1][0][1]
    if x.op == "scat" and x.args[0].op == "dict" and not x.args[0].args[0]:
        v = t.fresh()
        e = t.apply(x.args[2], v)
        y = field(C.plain(e.args[1]), f) if e.op in ("seq", "tup") and len(e.args) == 3 and e.args[2] is ONE else None
        if y is not None:
            return mk("scat", mk("dict", ()), x.args[1], t.mklam([v], mk("tup", C.plain(e.args[0]), y, ONE)))
    return None


def in_order(size, values):
    """template (in counting order) to value"""
    v, j = t.fresh(), t.fresh()
    top = t.power(num(2), size)
    digit = t.sub(t.floor_(t.div(t.mul(v, t.power(num(2), t.add(j, ONE))), top)), t.scale(t.floor_(t.div(t.mul(v, t.power(num(2), j)), top)), 2))
    return mk("scat", mk("dict", ()), top, t.mklam([v], mk("tup", t.arr(size, j, digit), t.index(values, v), ONE)))


def field(v, f):
    if v.op == "dict":
        for k, x, c in v.args[0]:
            if k.op == "str" and k.args[0] == f and c is ONE:
                return x
    return None
