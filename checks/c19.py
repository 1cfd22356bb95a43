"""C19: the published set of tests is the same everywhere."""
import ast
import os

from checks.values import pack
from sa import cli, driver, jobs, leaves, terms as t
from sa.cli import fact
from sa.driver import INPUT
from sa.leaves import PARAMS, TESTS
from sa.terms import mk, string, var

TECHNIQUE = "abstract interpretation of the published name lists, tables, options and dispatchers with the tests replaced by stand-ins"
RULE = (
    "Evaluate, from the source, every list, table and command line option that offers tests by name: each must hold exactly the fifteen names, once. With "
    "the tests replaced by stand-ins, each public function must reach its own namesake with the caller's sequence and parameters, the runner's listing must "
    "pair each name with its namesake, and running by name must reach exactly the namesake for each of the fifteen and raise the not-found error for a "
    "name nothing is known about and for everything else that can be found in the implementations' package."
)


def made(I, name, a, kw):
    I.effect("test", string(name), *[I.freeze(x) for x in a], *[mk("tup", string(k), I.freeze(x)) for k, x in sorted(kw.items())])
    R = cli.attr(I, cli.RESULT, "TestResult")
    return I.alloc(mk("inst", R, tuple((f, var(f + "_" + name, k)) for f, k in (("failures", "any"), ("p", "real")))))


def same(name, got, what, allow=()):
    if got is None:
        return fact(name, None, "%s is not a constant list of names" % what)
    got = [x for x in got if x not in allow]
    miss = [x for x in TESTS if x not in got]
    more = [x for x in got if x not in TESTS]
    twice = sorted({x for x in got if got.count(x) > 1})
    why = "; ".join(w + ": " + ", ".join(l) for w, l in (("missing", miss), ("not a test", more), ("twice", twice)) if l)
    return fact(name, not why, "%s: %s" % (what, why or "the fifteen names, each once"), what)


def lists(conds):
    I = cli.start(mods=(cli.COMMANDS, "coinflip.randtests", "coinflip.randtests_refimpl"))
    out = [
        same("implementations", cli.names(I, cli.PKG), cli.PKG + ".__all__"),
        same("public API", cli.names(I, "coinflip.randtests"), "coinflip.randtests.__all__", ("exceptions",)),
        same("reference implementations", cli.names(I, "coinflip.randtests_refimpl"), "coinflip.randtests_refimpl.__all__"),
    ]
    for tab in ("f_randtest_names", "f_randtest_abbreviations"):
        v = cli.attr(I, cli.RUNNER, tab)
        d = cli.entries(I, v)
        out.append(same("display names", None if d is None else [k for k, _, _ in d], "%s.%s" % (cli.RUNNER, tab)))
        if d is not None:
            shown = [x for _, x, _ in d]
            two = [t.pretty(x, 2) for x in shown if sum(y is x for y in shown) > 1]
            out.append(fact("display names", not two, "%s: %s" % (tab, "two tests share a name: " + two[0] if two else "no two tests share a name"), cli.RUNNER))
    n = 0
    for a, kw in cli.OPTIONS:
        flags = [x.args[0] for x in a if x.op == "str"]
        if "--test" in flags:
            n += 1
            ty = kw.get("type")
            o = I.deref(ty) if ty is not None else None
            if o is None or o.op != "inst" or o.args[0].op != "builtin" or "Choice" not in o.args[0].args[0]:
                out.append(fact("command line choice", None, "the --test option's type is not a plain choice"))
                continue
            args = dict(o.args[1]).get("args")
            out.append(same("command line choice", cli.strings(I, args.args[0]) if args is not None and args.args else None, "choices of --test"))
    if not n:
        raise jobs.Anchor("the command line's --test option")
    out.append(dict(name="#functions", verdict="info", detail=[cli.COMMANDS, cli.RUNNER, "coinflip.randtests"]))
    return out


def public(conds):
    I = cli.start(made, mods=("coinflip.randtests",))
    out = []
    for name in TESTS:
        f = cli.attr(I, "coinflip.randtests", name)
        pars = PARAMS.get(name, [])
        o = cli.run(I, f, [INPUT], {p: var("par_" + p, "any") for p in pars})
        want = {p: var("par_" + p, "any") for p in pars}
        bad = None
        calls = [(g, a) for g, a, _ in o.actions if a[0] == "test"]
        for g, a in calls:
            if a[1].args[0] != name:
                bad = "reaches %s" % a[1].args[0]
        sure = [1 for g, a in calls if t.const(g) == 1 and a[1].args[0] == name]
        if not bad and not calls:
            bad = "reaches no test"
        if not bad:
            good = True if len(sure) == 1 == len(calls) else None
            a = calls[0][1]
            kws = {x.args[0].args[0]: x.args[1] for x in a[2:] if x.op == "tup" and x.args and x.args[0].op == "str"}
            if a[2] is not INPUT:
                good, bad = (False, "is not given the caller's sequence") if a[2].op != "unknown" else (None, "sequence not understood")
            for p in pars:
                if p in kws and kws[p] is not want[p]:
                    good, bad = False, "%s is not the caller's" % p
                elif p not in kws and not cli.inside(mk("tup", *a[2:]), want[p]):
                    good, bad = False, "%s is not passed on" % p
            out.append(fact(name, good, "coinflip.randtests.%s %s" % (name, bad or "reaches its namesake, with the caller's arguments"), "coinflip.randtests"))
        else:
            out.append(fact(name, False, "coinflip.randtests.%s %s" % (name, bad), "coinflip.randtests"))
    return out


def listing(conds):
    I = cli.start(made, mods=(cli.RUNNER,))
    o = driver.run(I, mk("builtin", "list"), [I.call(cli.attr(I, cli.RUNNER, "list_tests"), [], {})], {})
    v = cli.plain(I, o.value)
    if v.op not in ("seq", "tup") or any(x.op not in ("tup", "seq") or len(x.args) != 2 or x.args[0].op != "str" for x in v.args):
        return [fact("listing", None, "the runner's listing is not understood")]
    out = [same("listing", [x.args[0].args[0] for x in v.args], "list_tests()")]
    for x in v.args:
        nm = x.args[0].args[0]
        f = x.args[1]
        if nm in TESTS:
            good = f is mk("builtin", "vp.test." + nm)
            if not good and not (f.op == "builtin" and f.args[0].startswith("vp.test.")):
                good = None
            out.append(fact("listing " + nm, good, "list_tests() pairs %s with %s" % (nm, "its implementation" if good else t.pretty(f, 2)), cli.RUNNER))
    return out


def byname(conds):
    I = cli.start(made, mods=(cli.RUNNER,))
    out = []
    f = cli.attr(I, cli.RUNNER, "run_test")
    base = dict(I.st)
    m = I.module(cli.PKG)
    others = sorted({k[2] for k in base if k[0] == "v" and k[1] is m.env and isinstance(k[2], str)} - set(TESTS))
    folder = os.path.join(driver.SRC, "coinflip", "_randtests")
    others += [x[:-3] if x.endswith(".py") else x for x in sorted(os.listdir(folder)) if not x.startswith("__")]
    # names nothing is known about: no test, nothing in the package, neither a prefix nor a variant of one
    others += ["no such test", "", "Monobit", "monobit ", "mono", "__doc__", "__name__", "__all__", "all"]
    for nm in TESTS + sorted(set(others) - set(TESTS)):
        o = cli.run(I, f, [INPUT, string(nm)], dict(extra=var("par_extra", "any")))
        calls = [(g, a) for g, a, _ in o.actions if a[0] == "test"]
        mine = [(g, e, p) for g, e, p in o.ends if "NonBinarySequenceError" not in e]
        if nm in TESTS:
            bad = None
            if [1 for g, a in calls if a[1].args[0] != nm]:
                bad = "reaches %s" % calls[0][1][1].args[0]
            elif len(calls) > 1:
                bad = "runs the test %d times" % len(calls)
            elif not calls:
                bad = "reaches no test"
            elif mine:
                bad = "ends in %s" % mine[0][1][:1]
            elif calls[0][1][2] is not INPUT:
                bad = "does not give the test the whole sequence"
            elif not cli.inside(mk("tup", *calls[0][1][2:]), var("par_extra", "any")):
                bad = "does not pass the parameters on"
            out.append(fact("by name " + nm, not bad, "run_test(%r) %s" % (nm, bad or "runs its test once"), cli.RUNNER))
        else:
            if calls:
                v = False, "runs %s" % calls[0][1][1].args[0]
            elif o.value is not None and t.const(o.guard) != 0:
                v = False, "returns a value"
            elif any("TestNotFoundError" not in e for g, e, p in mine):
                v = False, "ends in %s" % [e for g, e, p in mine if "TestNotFoundError" not in e][0][:1]
            elif not mine:
                v = None, "is not understood"
            else:
                v = True, "ends in TestNotFoundError"
            out.append(fact("other name", v[0], "run_test(%r) %s" % (nm, v[1]), cli.RUNNER))
    return out


def run(tier):
    r = jobs.Runner(8)
    r.submit("lists", lists)
    r.submit("public functions", public)
    r.submit("listing", listing)
    r.submit("running by name", byname)
    return pack(r.collect(), RULE)
