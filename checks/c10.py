"""C10: a sequence counts only through which positions hold the larger of its two values."""
from checks.values import pack
from sa import compare as C
from sa import jobs, leaves, terms as t
from sa.leaves import TESTS, modes

TECHNIQUE = "abstract interpretation: no element of the sequence flows into anything but comparisons of faces; index never read"
RULE = (
    "Abstract interpretation of each public test over a sequence of two abstract faces (values with no structure but an order) under an arbitrary index: "
    "no element may flow into arithmetic, conversion, truth, identity or subscripts, nothing may be looked up by the caller's index, and the statistic and "
    "p-value must be terms over `does position i hold the larger face` alone."
)
KINDS = {
    "face-arith": "an element's own value matters",
    "face-identity": "an element's identity matters",
    "face-key": "the order of faces is taken by a key",
    "custom-index": "the caller's index matters",
}


def job(test, mode):
    def run(conds):
        p = leaves.run_pair(test, mode, conds, spec=False)
        out = []
        seen = set()
        for kind, detail, mod, line, fn in p.events:
            if kind in KINDS and (kind, mod, line) not in seen:
                seen.add((kind, mod, line))
                out.append(dict(name="elements", verdict="violation", detail="%s: %s, in %s" % (KINDS[kind], detail, fn), pos="%s:%s" % (mod, line)))
        if not seen:
            out.append(dict(name="elements", verdict="proved", detail="elements are only compared"))
        if p.cls is None:
            if p.code.value is not None:
                out.append(dict(name="result", verdict="undecided", detail="the test's result is not one record"))
        else:
            for f in ("statistic", "p", "results"):
                if f not in p.got:
                    continue
                x = C.plain(p.got[f])
                if f == "results":
                    x = leaves.project(x, False)
                raw = leaks(x)
                if raw:
                    out.append(dict(name=f, verdict="violation", detail="depends on an element's own value: " + t.pretty(raw, 3)[:200], pos=leaves.site(p, f)))
                    continue
                why = impure(x)
                out.append(dict(name=f, verdict="undecided" if why else "proved", detail=why or "a term over which positions hold the larger face", pos=""))
        out.append(dict(name="#functions", verdict="info", detail=p.functions))
        return out

    return run


def impure(x):
    """what else a value may depend on besides which positions hold heads"""
    bad = C.tainted(x)
    if bad:
        return "not understood: %s" % (bad[0].args[:1],)
    out = []
    C.atoms(x, {"var", "libcall", "ref"}, out, set())
    for v in out:
        if v.op != "var":
            return "depends on %s" % (t.pretty(v, 2)[:80],)
        if v.args[0] == "IDX":
            return "depends on the index"
    return ""


def leaks(x):
    """where an element is used for anything but holding the larger face or being equal to another"""
    seen = set()
    todo = [x]
    while todo:
        y = todo.pop()
        if y in seen or y.op in ("hd", "eq"):
            continue
        seen.add(y)
        acc = []
        t._scan(y.args, acc)
        if y.op in ("app", "libcall", "bflag", "fstr", "poly") and any(t.is_face(a) for a in acc):
            return y
        todo += acc
    return None


def run(tier):
    r = jobs.Runner(8)
    for test in TESTS:
        for m in modes(test, "given"):
            r.submit("%s(%s)" % (test, m), job(test, m))
    return pack(r.collect(), RULE)
