"""C25: every result can be saved and restored."""
import ast

from checks import c21, c22
from checks.c21 import holds, text
from checks.values import pack
from sa import cli, driver, jobs, leaves, lib, terms as t
from sa.cli import fact
from sa.leaves import TESTS, modes
from sa.terms import NONE, ONE, ZERO, mk, num, string, var

TECHNIQUE = "abstract interpretation of the tests and of saving and loading: structure of the results' values, guarded effects under failures"
RULE = (
    "Abstract interpretation of each public test, given a progress display; every value in its result, at any depth of records, lists, tables and default "
    "factories and in every case, must be of a kind pickle accepts by value or by an importable name: no lambda or local function, generator, dictionary view, "
    "open file, terminal or progress object, and no record class or exception that its module does not bind under its own name.  Saving is run with pickling, "
    "and each write, failing: when the report cannot be pickled nothing may have been opened for writing, removed or written before.  Every file opened must "
    "be managed by a with statement or be closed whatever fails meanwhile."
)
VIEWS = {"dkeys": "keys", "values": "values", "ditems": "items"}
LIVE = ("rich.", "open", "threading.", "io.", "socket.", "logging.")


def importable_class(I, c):
    """whether the class is found by its own name in its module"""
    if c.op != "cls":
        return None
    o = I.get(c)
    m = I.modules.get(o.module)
    if m is None:
        return None
    v = I.st.get(("v", m.env, o.name))
    return True if v is c else False if v is None or v.op in ("cls", "unbound") else None


def importable_function(I, c):
    f = I.get(c)
    if isinstance(f.node, ast.Lambda):
        return False
    if I.envkind.get(f.env) == "class":
        return True
    m = I.modules.get(f.module)
    if m is None:
        return None
    if f.env != m.env:
        return False
    v = I.st.get(("v", m.env, f.name))
    return True if v is c else None


def scan(I, x, out, path, seen):
    """(place, what is wrong) for everything in x that pickle refuses; None for what is not understood"""
    if (x, path) in seen or len(seen) > 4000:
        return
    seen.add((x, path))
    op = x.op
    go = lambda y, p=path: scan(I, y, out, p, seen)
    if op == "iter" and x.args[1:] == (string("generator"),):
        out.append((path, False, "a generator"))
    elif op == "inst":
        c = x.args[0]
        if c.op == "builtin":
            if c.args[0].startswith(LIVE):
                out.append((path, False, "a live %s object" % c.args[0]))
        else:
            good = importable_class(I, c)
            if good is False:
                out.append((path, False, "a record of class %s, which its module does not bind under that name" % I.get(c).name))
            elif good is None:
                out.append((path, None, "a record of an unknown class"))
        for k, v in x.args[1]:
            scan(I, v, out, (path + "." if path else "") + str(k), seen)
    elif op in ("list", "nd", "series", "set", "iter", "dlist", "hdict", "def"):
        for y in x.args:
            if isinstance(y, t.T):
                go(y, path + "[]" if not path.endswith("[]") else path)
    elif op in ("seq", "tup", "cat", "ite", "lset", "dset", "frame", "dmerge", "def"):
        for y in x.args[1:] if op == "ite" else x.args:
            if isinstance(y, t.T):
                go(y)
    elif op in ("arr", "flat"):
        go(x.args[1].args[-1])
    elif op == "scat":
        go(x.args[0])
        go(x.args[-1].args[-1])
    elif op == "dict":
        for k, v, g in x.args[0]:
            go(k)
            go(v)
    elif op == "lazy":
        out.append((path, False, "a generator"))
    elif op == "clo":
        good = importable_function(I, x)
        if good is False:
            out.append((path, False, "the function %s, which no name reaches" % (I.get(x).name or "<lambda>")))
        elif good is None:
            out.append((path, None, "a function"))
    elif op == "partial":
        for y in x.args:
            if isinstance(y, t.T):
                go(y)
    elif op == "cls":
        if importable_class(I, x) is False:
            out.append((path, False, "a class no name reaches"))
    elif op == "app" and x.args[0] in VIEWS:
        out.append((path, False, "a dictionary's %s()" % VIEWS[x.args[0]]))
    elif op == "libcall" and x.args[0].startswith(LIVE):
        out.append((path, False, "what %s gives" % x.args[0]))
    elif op == "var" and x.args[0] in ("progress", "task"):
        if x.args[0] == "progress":
            out.append((path, False, "the progress display"))
    elif op == "mod":
        out.append((path, False, "a module"))
    elif op == "unknown":
        out.append((path, None, "a value not understood (%s)" % (x.args[0],)))


def test_job(test, mode, light):
    def run(conds):
        p = leaves.run_pair(test, mode, conds, ctx=True, spec=False, light=light, mod=cli.PKG)
        I = p.I
        if p.code.value is None:
            return [fact("picklable", None, "no result")]
        keep = I.st
        I.st = p.code.state
        v = I.freeze(p.code.value)
        found = []
        scan(I, v, found, "", set())
        recs = []
        top = list(v.args[1]) if v.op == "inst" else [("result", NONE)]
        for name, _ in top:
            mine = [f for f in found if f[0].split(".")[0].split("[")[0] == name]
            bad = [f for f in mine if f[1] is False]
            und = [f for f in mine if f[1] is None]
            if bad:
                recs.append(fact("picklable", False, "%s.%s holds %s" % (test, bad[0][0], bad[0][2]), "%s" % site(I, p)))
            elif und:
                recs.append(fact("picklable", None, "%s.%s holds %s" % (test, und[0][0], und[0][2])))
            else:
                recs.append(fact("picklable", True, "%s.%s" % (test, name)))
        whole = [f for f in found if not f[0]]
        for f in whole[:1]:
            recs.append(fact("picklable", f[1], "%s's result is or holds %s" % (test, f[2])))
        I.st = keep
        recs.append(dict(name="#functions", verdict="info", detail=p.functions))
        return recs

    return run


def site(I, p):
    try:
        c = I.get(p.cls)
        return "%s:%d" % (c.module, c.node.lineno)
    except Exception:
        return ""


# --------------------------------------------------------------------------- saving


def opened(a):
    return a[0] in ("open", ".open", "pathlib.Path.open", "io.open") or a[0].startswith("pathlib.") and a[0].endswith(".open")


def mode_of(a):
    for x in a[1:]:
        if isinstance(x, t.T) and x.op == "tup" and len(x.args) == 2 and x.args[0] is string("mode"):
            return x.args[1].args[0] if x.args[1].op == "str" else None
    pos = [x for x in a[1:] if isinstance(x, t.T) and not (x.op == "tup" and len(x.args) == 2 and x.args[0].op == "str")]
    if len(pos) > 1:
        return pos[1].args[0] if pos[1].op == "str" else None
    return "r"


def failing(I, what):
    """library calls that can fail, each under its own flag"""
    for name in what:
        def f(I, a, kw, name=name):
            frozen = [I.freeze(x) for x in a]
            I.effect(name, *frozen)
            I.throw(I.exc("OSError" if name in ("write",) else "Exception", string("why")), t.aspoly(mk("bflag", "fails", name)))
            return mk("libcall", name, tuple(frozen), ())

        lib.FUNCS[name] = f


def hook(I, names):
    """methods of files and paths that can fail"""
    hooks = dict(I.hooks)
    for name in names:
        def h(I, recv, o, args, kw, name=name):
            f = I.freeze(recv)
            if f.op != "libcall" and not (f.op in ("str", "fstr", "var")):
                return None
            frozen = [I.freeze(x) for x in args]
            I.effect("." + name, f, *frozen)
            I.throw(I.exc("OSError", string("why")), t.aspoly(mk("bflag", "fails", name)))
            return mk("libcall", "." + name, (f,) + tuple(frozen), ())

        hooks[name] = h
    I.hooks = hooks


def saving(conds):
    I = cli.start()
    failing(I, ["pickle.dumps", "pickle.dump"])
    hook(I, ["write", "write_bytes"])
    out = []
    f = cli.attr(I, cli.REPORT, "store_results")
    o = cli.run(I, f, [driver.INPUT, I.alloc(mk("hdict", mk("dict", ()), NONE, "dict")), string("OUT")])
    bad = ZERO
    names = [x for x in ("pickle.dumps", "pickle.dump") if any(a[0] == x for g, a, w in o.actions)]
    for x in names:
        bad = t.or_(bad, t.aspoly(mk("bflag", "fails", x)))
    if not names:
        out.append(fact("left alone", None, "how the report is pickled is not understood", cli.REPORT))
    m = {mk("bflag", "fails", x): ONE for x in names}
    touched = [(c22.value(g, m), a) for g, a, w in o.actions if c22.writing(a) and a[0] not in names or opened(a) and set(mode_of(a) or "w") & set("wax+")]
    here = lambda a: any(isinstance(x, t.T) and cli.inside(x, string("OUT")) for x in a[1:])
    hit = [(v, a) for v, a in touched if v != 0 and here(a)]
    good = not hit or (False if any(v == 1 for v, a in hit) else None)
    # files elsewhere, moved into place later, do no harm
    out.append(fact("left alone", good, "when pickling fails %s" % ("the file is not touched" if not hit else "%s has already happened" % hit[0][1][0]), cli.REPORT))
    out += closed(o, "saving")
    ends = [c for g, c, p in o.ends]
    out.append(dict(name="#functions", verdict="info", detail=[cli.REPORT + ".store_results"]))
    return out


def closed(o, what):
    """every file opened is closed, whatever fails"""
    out = []
    seen = []
    for i, (g, a, w) in enumerate(o.actions):
        if not opened(a):
            continue
        later = o.actions[i + 1:]
        mine = [mk("libcall", a[0], tuple(x for x in a[1:] if not kwpair(x)), tuple()), None]
        is_mine = lambda x: isinstance(x, t.T) and any(y.op == "libcall" and y.args[0] == a[0] and tuple(y.args[1]) == tuple(z for z in a[1:] if not kwpair(z)) for y in cli.leaves_of(x))
        ent = [g2 for g2, b, _ in later if b[0] == "enter" and is_mine(b[1])]
        cls = [(g2, b) for g2, b, _ in later if b[0] == ".close" and is_mine(b[1])]
        ab = "%s(%s)" % (a[0].lstrip("."), ", ".join(t.pretty(x, 2)[:30] for x in a[1:] if isinstance(x, t.T)))
        if any(x is g for x in ent):
            out.append(fact("closed", True, "%s: %s is managed by with" % (what, ab), w[0] if w else ""))
        elif cls:
            tot = ZERO
            for g2, _ in cls:
                tot = t.or_(tot, g2)
            good = holds(tot, g)
            out.append(fact("closed", good, "%s: %s is closed when %s" % (what, ab, text(tot)), cli.REPORT))
        elif ent:
            out.append(fact("closed", None, "%s: %s is entered when %s" % (what, ab, text(ent[0])), cli.REPORT))
        else:
            out.append(fact("closed", False, "%s: %s is never closed" % (what, ab), cli.REPORT))
    return out


def kwpair(x):
    return isinstance(x, t.T) and x.op == "tup" and len(x.args) == 2 and x.args[0].op == "str"


def loading(conds):
    I = cli.start()
    failing(I, ["pickle.load", "pickle.loads"])
    hook(I, ["read", "read_bytes"])
    f = cli.attr(I, cli.REPORT, "load_results")
    o = cli.run(I, f, [string("FILE")])
    out = closed(o, "loading")
    R = [a for g, a, w in o.actions if a[0] in ("pickle.load", "pickle.loads")]
    good = None
    if len(R) == 1 and o.value is not None:
        v = I.freeze(o.value, o.state)
        good = True if v.op == "libcall" and v.args[0] in ("pickle.load", "pickle.loads") else None
    out.append(fact("restored", good, "what was pickled is returned as it was", cli.REPORT))
    for g, a, w in o.actions:
        if opened(a):
            m = mode_of(a)
            out.append(fact("opened as bytes", None if m is None else "b" in m and not set(m) & set("wax+"), "loading: mode %s" % m, cli.REPORT))
    return out


def reports(conds):
    """the other commands' files"""
    out = []
    I = cli.start(c21.maker(None))
    cli.file_hooks(I)
    o = c22.go(I, cli.attr(I, cli.COMMANDS, "run"), dict(data=cli.DATA, out=string("OUT"), binary=ONE))
    out += closed(o, "run")
    # the record that is pickled
    d = [a for g, a, w in o.actions if a[0] in ("pickle.dumps", "pickle.dump")]
    for a in d:
        found = []
        scan(I, a[1], found, "", set())
        bad = [f for f in found if f[1] is False]
        out.append(fact("picklable", False if bad else True if a[1].op == "inst" else None, "the report %s" % ("holds " + bad[0][2] if bad else "holds what can be pickled"), cli.REPORT))
    return out


def run(tier):
    r = jobs.Runner(8, 300 if tier == "quick" else 560)
    r.submit("saving", saving)
    r.submit("loading", loading)
    r.submit("run", reports)
    for test in TESTS:
        for m in modes(test, "given") if tier == "quick" else list(dict.fromkeys(modes(test, "given") + modes(test, "default"))):
            r.submit("%s(%s)" % (test, m), test_job(test, m, False))
    return pack(r.collect(), RULE)
