"""C21: a run attempts every test once and saves every result obtained; reading shows what was saved."""
import itertools

from checks.values import pack
from sa import cli, driver, jobs, leaves, lib, terms as t
from sa.cli import fact
from sa.driver import INPUT
from sa.leaves import TESTS
from sa.terms import NONE, ONE, ZERO, mk, num, seq, string, var

TECHNIQUE = "abstract interpretation of the commands with the tests replaced by stand-ins; guarded effects compared"
RULE = (
    "Abstract interpretation of the commands run, example-run and read, the tests replaced by stand-ins each of which either gives its own result or raises "
    "one of the documented errors, all 2^15 combinations at once: every action (calling a test, printing, opening, pickling, writing) comes with the "
    "condition under which it happens.  Required: each test is called exactly once whatever the others do, in the listed order, on the whole parsed series; "
    "each failing one has its error printed, each other its result; the pickled report holds the series and, under each test's name, its result exactly when "
    "it gave one; the pickle is written to the path given, or to a path that is printed; read shows the loaded report's series and prints its every result."
)
MULTI = ["non_overlapping_template_matching", "random_excursions", "random_excursions_variant"]
ERRORS = ["TestError", "TestNotImplementedError", "TestInputError", "NonBinarySequenceError"]


def flag(name):
    return t.aspoly(mk("bflag", "fails", name))


def result(I, name, multi=None):
    if name in MULTI if multi is None else multi:
        R = cli.attr(I, cli.RESULT, "MultiTestResult")
        return mk("inst", R, (("failures", var("failures_" + name, "any")), ("results", var("results_" + name, "any"))))
    R = cli.attr(I, cli.RESULT, "TestResult")
    return mk("inst", R, (("failures", var("failures_" + name, "any")), ("p", var("p_" + name, "real")), ("statistic", var("stat_" + name, "real"))))


def maker(error, which=TESTS):
    def made(I, name, a, kw):
        I.effect("test", string(name), *[I.freeze(x) for x in a])
        if error and name in which:
            I.throw(I.call(cli.attr(I, cli.EXC, error), [var("why_" + name, "any")], {}), flag(name))
        return I.alloc(result(I, name))

    return made


def hooks(I):
    def shown(I, a, kw):
        I.effect("shown", *[I.freeze(x) for x in a])
        return NONE

    I.opaque.update({
        (cli.PARSING, "parse_text"): lambda I, a, kw: INPUT, (cli.PARSING, "parse_binary"): lambda I, a, kw: INPUT,
        (cli.PPRINT, "pretty_sequence"): shown,
    })


def two_valued(I):
    """what is known of a sequence both parsers let through: its atoms' values"""
    n = I.call(I.getattr(INPUT, "nunique"), [], {})
    return [(t.eq0(t.sub(t.aspoly(n), num(2))), ONE), (t.aspoly(I.getattr(INPUT, "hasnans")), ZERO)]


def go(I, f, kw):
    hooks(I)
    m = {}
    for p, v in two_valued(I):
        (a,) = [x for x in cli.atoms(p)]
        m[a] = v
    o = cli.run(I, f, [], kw)
    see = lambda x: t.subst(x, m)
    o.ends = [(see(t.aspoly(g)), c, p) for g, c, p in o.ends]
    o.ends = [e for e in o.ends if t.const(e[0]) != 0]
    o.actions = [(see(t.aspoly(g)), (a[0],) + tuple(see(x) for x in a[1:]), w) for g, a, w in o.actions]
    o.actions = [x for x in o.actions if t.const(x[0]) != 0]
    return o


def over(o, pred):
    """the condition under which some action satisfying pred happens, and how many there are"""
    g, n = ZERO, 0
    for g2, a, w in o.actions:
        if pred(a):
            g = t.or_(g, g2)
            n += 1
    return g, n


STUBS = ("failures_", "p_", "stat_", "results_", "why_", "OUT", "length", "binary")


def known(g):
    """a condition over nothing but which tests fail, what they give, what the file holds and which options were given"""
    for a in cli.atoms(g):
        if a.op == "bflag" and a.args[0] in ("fails", "has"):
            continue
        names = [v for v in cli.leaves_of(a) if v.op in ("var", "libcall", "unknown", "input", "ref")]
        if not names or any(v.op != "var" or not str(v.args[0]).startswith(STUBS) for v in names):
            return False
    return True


def same_series(I, x, want):
    """whether x is the very series; None if that cannot be told"""
    if x is want:
        return True
    if x.op in ("none", "str", "num"):
        return False
    try:
        n, w = (t.length(lib.as_seq(I, z)) for z in (x, want))
    except (AttributeError, TypeError):
        return None
    if n is w:
        return None
    for k in (2, 3, 5, 8, 17, 100, 1001, 10**4, 10**6 + 7, 10**8, 10**10):
        a, b = (t.const(t.subst(t.aspoly(z), {driver.N: num(k)})) for z in (n, w))
        if a is not None and b is not None and a != b:
            return False
    return None


def base(g):
    """the flags a condition is made of; None if it has other parts"""
    out = set()
    for a in cli.atoms(g):
        if a.op == "bflag" and a.args[0] in ("fails", "has"):
            out.add(a)
        elif a.op in ("ge0", "gt0", "eq0"):
            b = base(a.args[0])
            if b is None:
                return None
            out |= b
        elif known(t.aspoly(a)):
            out.add(a)
        else:
            return None
    return out


def holds(got, want):
    """whether two conditions are the same; None if that cannot be told"""
    if got is want:
        return True
    b = base(got)
    w = base(t.aspoly(want))
    if b is None or w is None or len(b | w) > 10:
        return False if known(got) else None
    b = sorted(b | w, key=repr)
    for bits in itertools.product((ZERO, ONE), repeat=len(b)):
        m = dict(zip(b, bits))
        x, y = t.const(t.subst(got, m)), t.const(t.subst(t.aspoly(want), m))
        if x is None or y is None:
            return None
        if x != y:
            return False
    return True


def prints(a, x, exact=False):
    if not ("onsole" in a[0] or a[0] in ("print", "click.echo", "click.secho")):
        return False
    return any(y is x if exact else cli.inside(y, x) for y in a[1:] if isinstance(y, t.T))


def equals(y, x):
    """the condition under which y is x"""
    if y is x:
        return ONE
    if y.op == "ite":
        c, a, b = y.args
        return t.add(t.mul(c, equals(a, x)), t.mul(t.not_(c), equals(b, x)))
    return ZERO


def printed(o, x):
    """when x is printed: itself if it ever is, else as part of something"""
    g, n = ZERO, 0
    for g2, a, w in o.actions:
        if prints(a, x):
            for y in a[1:]:
                if isinstance(y, t.T):
                    e = t.mul(g2, equals(y, x))
                    n += e is not ZERO
                    g = t.or_(g, e)
    return (g, n) if n else over(o, lambda a: prints(a, x))


def text(g):
    return t.pretty(g, 4)[:160]


def calls(I, o, series, out, where, tests=None, which=TESTS):
    """each test once, in order, on the series; failures and results printed"""
    order = []
    for i, (g, a, w) in enumerate(o.actions):
        if a[0] == "test":
            order.append((a[1].args[0], i, g, a))
    listed = cli.names(I, cli.PKG) or TESTS
    for name in tests or listed:
        mine = [c for c in order if c[0] == name]
        f = flag(name) if name in which else ZERO
        total = ZERO
        for c in mine:
            total = t.add(total, c[2])
        if not mine:
            out.append(fact("attempted", False, "%s is never run" % name, where))
            continue
        good = holds(total, ONE)
        out.append(fact("attempted", good, "%s is run %s" % (name, "once, whatever the others do" if good else "(times) " + text(total)), where))
        for c in mine:
            good = same_series(I, c[3][2], series)
            out.append(fact("whole series", good, "%s is given %s" % (name, "the series" if good else t.pretty(c[3][2], 3)[:120]), where))
        if mine[0][2] is not ONE:
            continue
        g, n = over(o, lambda a: prints(a, var("why_" + name, "any")))
        if f is not ZERO:
            out.append(fact("failure reported", holds(g, f), "%s's error is printed when %s" % (name, text(g)), where))
        g, n = printed(o, result(I, name))
        out.append(fact("result printed", holds(g, t.not_(f)), "%s's result is printed when %s" % (name, text(g)), where))
    if not tests:
        seen = [c[0] for c in order]
        first = list(dict.fromkeys(seen))
        out.append(fact("order", first == [x for x in listed if x in first], "tests are run in the order %s" % ("listed" if first == listed else first), where))
    for g, cls, pos in o.ends:
        if "SystemExit" not in cls:
            out.append(fact("goes on", False if known(g) else None, "ends in %s when %s" % (cls[0] if cls else "?", text(g)), "%s:%s" % pos if pos else where))
    if not o.ends:
        out.append(fact("goes on", True, "no error of a test leaves the command", where))


def saved(I, o, out, path, which=TESTS):
    """the report pickled and where it goes"""
    where = cli.REPORT
    dumps = [(g, a) for g, a, w in o.actions if a[0] in ("pickle.dumps", "pickle.dump")]
    if not dumps:
        out.append(fact("saved", False, "nothing is pickled", where))
        return
    if len(dumps) > 1:
        out.append(fact("saved", None, "pickled in several places", where))
        return
    g, a = dumps[0]
    out.append(fact("saved", holds(g, ONE), "the report is pickled when %s" % text(g), where))
    rep = a[1]
    fields = dict(rep.args[1]) if rep.op == "inst" else {}
    if set(fields) != {"series", "results"}:
        out.append(fact("saved", None, "what is pickled is not the report's record", where))
        return
    s = fields["series"]
    out.append(fact("series saved", same_series(I, s, INPUT), "the report's series is %s" % t.pretty(s, 2)[:100], where))
    ent = cli.entries(I, fields["results"])
    if ent is None:
        out.append(fact("results saved", None, "the saved results are not understood", where))
        return
    for name in TESTS:
        f = flag(name) if name in which else ZERO
        (fa,) = cli.atoms(flag(name))
        mine = [e for e in ent if e[0] == name]
        if not mine:
            out.append(fact("results saved", False, "%s's result is not saved under its name" % name, where))
            continue
        k, v, g = mine[0]
        g = t.aspoly(g)
        ok = t.subst(v, {fa: ZERO})
        good = holds(g, t.not_(f))
        why = "saved when %s" % text(g)
        if good and ok is not result(I, name):
            good, why = (None if any(x.op == "unknown" for x in cli.leaves_of(ok)) else False), "saved as %s" % t.pretty(ok, 3)[:120]
        out.append(fact("results saved", good, "%s's result is %s" % (name, why), where))
    more = [e[0] for e in ent if e[0] not in TESTS]
    out.append(fact("results saved", not more, "under no other name" if not more else "also under %s" % more[:3], where))
    # to the path
    opens = [(g, x) for g, x, w in o.actions if x[0] == "open" or x[0] in (".open", "pathlib.Path.open")]
    blob = mk("libcall", "pickle.dumps", (rep,), ())
    writes = [(g, x) for g, x, w in o.actions if x[0] in (".write", ".write_bytes", "pathlib.Path.write_bytes") or x[0] == "pickle.dump"]
    good, why = None, "how the report reaches its file is not understood"
    tgt = None
    if len(writes) == 1:
        g, x = writes[0]
        if x[0].endswith("write_bytes"):
            data, tgt = x[2], x[1]
        elif x[0] == "pickle.dump":
            data, tgt = blob, x[2]
        else:
            data, tgt = x[2], x[1]
        if holds(g, ONE) is False:
            good, why = False, "written only when %s" % text(g)
        elif not cli.inside(data, blob):
            good, why = None, "what is written is not understood"
        elif data is not blob:
            good, why = None, "what is written is more than the pickle"
        elif g is ONE:
            good, why = True, "the pickle is written once"
        if tgt.op == "libcall" and tgt.args[0] == "open":
            mode = tgt.args[1][1] if len(tgt.args[1]) > 1 else dict(tgt.args[2]).get("mode")
            if mode is None or mode.op != "str":
                good = None
            elif mode.args[0] not in ("wb", "xb", "wb+", "w+b"):
                good, why = False, "the file is opened with mode %r" % mode.args[0]
            tgt = tgt.args[1][0]
    elif not writes:
        good, why = False, "nothing is written"
    out.append(fact("written", good, why, where))
    if tgt is None:
        return
    if path is not None:
        p = strip(t.subst(tgt, {mk("truth", path): ONE}))
        p = strip(pick(p, path))
        good = True if p is path else None
        if good is None and not any(x.op == "unknown" for x in cli.leaves_of(p)):
            good = False
        out.append(fact("path", good, "written to %s" % t.pretty(p, 4)[:160], cli.COMMANDS))
    else:
        p = strip(tgt)
        g, n = over(o, lambda a: prints(a, tgt) or prints(a, p))
        out.append(fact("path", True if g is ONE else holds(g, ONE), "the path made up is printed when %s" % text(g), cli.COMMANDS))


def pick(p, path):
    """the path taken when one is given"""
    while p.op == "ite":
        p = p.args[1] if cli.inside(p.args[0], path) else p
        if p.op == "ite" and not cli.inside(p.args[0], path):
            break
    return p


def strip(p):
    """the path a Path object was made of"""
    while p.op == "libcall" and p.args[0].startswith("pathlib.") and p.args[0].endswith("Path") and len(p.args[1]) == 1:
        p = p.args[1][0]
    return p


def run_job(error, given, which=TESTS):
    def run(conds):
        I = cli.start(maker(error, which))
        out = []
        # a path given is a non-empty text
        path = t.mk("fstr", string("OUT"), var("OUT", "str")) if given else None
        o = go(I, cli.attr(I, cli.COMMANDS, "run"), dict(data=string("DATA"), out=path if given else NONE, binary=var("binary", "bool")))
        calls(I, o, INPUT, out, cli.RUNNER, None, which)
        saved(I, o, out, path, which)
        out.append(dict(name="#functions", verdict="info", detail=sorted({e[4] for e in I.events if e[4]}) + [cli.COMMANDS + ".run"]))
        return out

    return run


def example_job(error, single):
    def run(conds):
        I = cli.start(maker(error))
        out = []
        f = cli.attr(I, cli.COMMANDS, "example_run")
        gens = cli.names(I, "coinflip.generators") or ["Python"]
        o = go(I, f, dict(example=string(gens[0]), length=var("length", "nat"), test=string(single) if single else NONE))
        series = {a[2] for g, a, w in o.actions if a[0] == "test"}
        shown = {a[1] for g, a, w in o.actions if a[0] == "shown"}
        if len(series) == 1:
            (s,) = series
            out.append(fact("series shown", True if shown == {s} else None, "the series shown is the series tested", cli.COMMANDS))
            # conditions on the series itself apply alike to all: look at a series tests are run on
            base = [g for g, a, w in o.actions if a[0] == "test"][0]
            free = [a for a in cli.atoms(base) if not known(t.aspoly(a))]
            for bits in itertools.product((ONE, ZERO), repeat=min(len(free), 4)):
                m = dict(zip(free, bits))
                if t.subst(base, m) is ONE:
                    o.actions = [(t.subst(g, m), a, w) for g, a, w in o.actions]
                    o.ends = [(t.subst(t.aspoly(g), m), c, p) for g, c, p in o.ends]
                    o.ends = [e for e in o.ends if t.const(e[0]) != 0]
                    break
            calls(I, o, s, out, cli.RUNNER, [single] if single else None)
        elif not series:
            out.append(fact("attempted", False, "no test is run", cli.COMMANDS))
        else:
            out.append(fact("series shown", None, "the tests' series are not understood"))
        return out

    return run


def reading(I, has):
    """the command read, on a file holding the results in `has`, each under a condition"""
    R = cli.attr(I, cli.REPORT, "Report")
    pairs = tuple((string(n), result(I, n), g) for n, g in has.items())

    def load(I, a, kw):
        I.effect("load", *[I.freeze(x) for x in a])
        d = I.alloc(mk("hdict", mk("dict", pairs), NONE, "dict"))
        return I.alloc(mk("inst", R, (("series", INPUT), ("results", d))))

    lib.FUNCS["pickle.load"] = lib.FUNCS["pickle.loads"] = load
    return go(I, cli.attr(I, cli.COMMANDS, "read"), dict(results=string("FILE")))


def read_job(conds):
    I = cli.start(maker(None))
    out = []
    o = reading(I, {n: t.aspoly(mk("bflag", "has", n)) for n in TESTS})
    g, n = over(o, lambda a: a[0] == "load" and cli.inside(a[1], string("FILE")))
    out.append(fact("loaded", True if g is ONE and n == 1 else holds(g, ONE), "the file given is read when %s" % text(g), cli.REPORT))
    g, n = over(o, lambda a: a[0] == "shown" and a[1] is INPUT)
    out.append(fact("series shown", True if g is ONE else holds(g, ONE), "the saved series is shown when %s" % text(g), cli.COMMANDS))
    for name in TESTS:
        has = t.aspoly(mk("bflag", "has", name))
        g, n = printed(o, result(I, name))
        out.append(fact("result shown", holds(g, has), "%s's result is printed when %s" % (name, text(g)), cli.RUNNER))
    for g, cls, pos in o.ends:
        out.append(fact("goes on", False if known(g) else None, "ends in %s when %s" % (cls[:1], text(g)), "%s:%s" % pos if pos else ""))
    return out


def run(tier):
    r = jobs.Runner(8, 150 if tier == "quick" else 560)
    for x in TESTS:
        for e in ERRORS:
            r.submit("run, %s failing with %s" % (x, e), run_job(e, True, [x]))
    for e in ERRORS:
        r.submit("run, tests failing with %s" % e, run_job(e, True))
    r.submit("run without OUT", run_job("TestInputError", False))
    r.submit("example-run", example_job("TestError", None))
    for x in TESTS if tier != "quick" else TESTS[:1]:
        r.submit("example-run -t %s" % x, example_job('TestInputError', x))
    r.submit("read", read_job)
    return pack(r.collect(), RULE)
