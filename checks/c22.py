"""C22: data that cannot be used ends in an error message and a failing exit, before anything is run or written."""
import ast

from checks import c21
from checks.c21 import text
from checks.values import pack
from sa import cli, driver, jobs, leaves, lib, terms as t
from sa.cli import fact
from sa.terms import NONE, ONE, ZERO, mk, num, string, var

TECHNIQUE = "abstract interpretation of the commands over an abstract data file; guarded effects and exits; class resolution of every raise"
RULE = (
    "Abstract interpretation of run (text and binary mode) and example-run over an abstract data file: reading it may raise each documented error, its table "
    "has a symbolic number of columns, its values a symbolic number of distinct values and possibly gaps.  Every exit and action carries its condition, which "
    "is evaluated in every combination of those facts: when the data is unusable the run must end in SystemExit with a failing status after printing the "
    "error, with no test called and nothing opened for writing, pickled or written; when it is usable it must go on and save.  Besides, the class of every "
    "exception the tests' code raises is resolved, and must derive from TestError."
)
ERRORS = ["pandas.errors.ParserError", "pandas.errors.EmptyDataError", "UnicodeDecodeError"]
WRITES = (".write", ".write_bytes", ".write_text", "pathlib.Path.write_bytes", "pathlib.Path.write_text", "pickle.dump", "pickle.dumps", "shutil.copyfile", "shutil.move", "os.replace", "os.rename", "os.remove", "os.unlink")


def shown(I, a, kw):
    I.effect("shown", *[I.freeze(x) for x in a])
    return NONE


def dims(o):
    """the facts about the data that conditions depend on"""
    nd, hn = set(), set()
    for g in [e[0] for e in o.ends] + [x[0] for x in o.actions]:
        for y in cli.leaves_of(t.aspoly(g)):
            if y.op == "app" and y.args[0] == "ndistinct":
                nd.add(y)
            elif y.op == "bflag" and y.args[0] == "hasnans":
                hn.add(y)
    return nd, hn


def writing(a):
    if a[0] in WRITES or a[0] in (".unlink", ".rename", ".replace", ".touch") or a[0].startswith("pathlib.") and a[0].split(".")[-1] in ("write_bytes", "write_text", "touch", "unlink", "rename", "replace"):
        return True
    if a[0] in ("open", ".open", "pathlib.Path.open"):
        modes = [x.args[0] for x in a[1:] if isinstance(x, t.T) and x.op == "str" and x is not cli.DATA]
        kws = [y for x in a[1:] if isinstance(x, t.T) for y in cli.leaves_of(x) if y.op == "str" and y is not cli.DATA]
        return any(any(c in m for c in "wax+") and len(m) <= 4 for m in modes + [k.args[0] for k in kws])
    return False


def speaks(a):
    """an action that puts text on the terminal"""
    if a[0] in ("print", "click.echo", "click.secho", "sys.stderr.write", "logging.error"):
        return len(a) > 1
    return "onsole.print" in a[0] and len(a) > 2 and any(isinstance(x, t.T) and x is not string("") and x is not NONE for x in a[2:])


def failing(e):
    """whether ending in this exception makes the exit status non-zero"""
    if e.op == "excv" and e.args[0] == "SystemExit":
        if not e.args[1]:
            return False
        x = e.args[1][0]
        if x.op == "str":
            return True
        if x is NONE:
            return False
        c = t.const(t.aspoly(x)) if lib.numeric(x) else None
        return None if c is None else c % 256 != 0
    return None


def worlds(o, errors, ncols, distinct, gaps):
    nd, hn = dims(o)
    for e in [None] + list(errors):
        for c in ncols if not e else ncols[:1]:
            for d in distinct if not e else (2,):
                for h in gaps if not e else (0,):
                    m = {mk("bflag", "raises", x): num(int(x == e)) for x in errors}
                    m[cli.NCOLS] = num(c)
                    m.update({x: num(d) for x in nd})
                    m.update({x: num(h) for x in hn})
                    name = "reading raises %s" % e if e else ", ".join(
                        [("%d columns" % c)] * (len(ncols) > 1) + ["%d distinct values" % d] + ["with gaps"] * h)
                    yield name, bool(e) or c != 1 or d != 2 or bool(h), m


def value(g, m):
    """0, 1, or None"""
    return t.const(t.subst(t.aspoly(g), m))


def judge(I, o, what, errors, ncols, distinct, gaps, saves, out):
    where = cli.COMMANDS
    for name, bad, m in worlds(o, errors, ncols, distinct, gaps):
        name = "%s: %s" % (what, name)
        ends = [(value(g, m), c, e, p) for (g, c, p), e in zip(o.ends, o.excs)]
        acts = [(value(g, m), a) for g, a, w in o.actions]
        maybe = [x for x in ends if x[0] is None]
        sure = [x for x in ends if x[0] == 1]
        if not bad:
            if sure:
                out.append(fact("usable data accepted", False, "%s: ends in %s" % (name, sure[0][1][0]), "%s:%s" % sure[0][3] if sure[0][3] else where))
            else:
                out.append(fact("usable data accepted", None if maybe else True, "%s: %s" % (name, "may end" if maybe else "goes on"), where))
            if saves:
                d = [x for x, a in acts if a[0] in ("pickle.dumps", "pickle.dump")]
                out.append(fact("usable data saved", 1 in d or (None if None in d else False), "%s: %s" % (name, "saved" if 1 in d else "not known to be saved"), where))
            continue
        if not sure:
            out.append(fact("failing exit", None if maybe else False, "%s: %s" % (name, "may go on" if maybe else "goes on"), where))
        for _, c, e, p in sure:
            pos = "%s:%s" % p if p else where
            if "ClickException" in c:
                out.append(fact("failing exit", True, "%s: ends in %s" % (name, c[0]), pos))
            elif "SystemExit" in c:
                good = failing(e)
                out.append(fact("failing exit", good, "%s: exits with %s" % (name, t.pretty(e, 3)[:60]), pos))
            else:
                out.append(fact("failing exit", False, "%s: ends in an uncaught %s" % (name, c[0]), pos))
        told = any("ClickException" in x[1] for x in sure) or any("SystemExit" in x[1] and x[2].args[1] and x[2].args[1][0].op == "str" for x in sure)
        p = [x for x, a in acts if speaks(a)]
        good = told or 1 in p or (None if None in p else False)
        out.append(fact("error printed", good, "%s: %s" % (name, "the error is printed" if good else "nothing is printed"), where))
        for kind, pred in (("no test run", lambda a: a[0] == "test"), ("nothing written", writing)):
            hit = [(x, a) for x, a in acts if pred(a) and x != 0]
            good = not hit or (False if any(x == 1 for x, a in hit) else None)
            out.append(fact(kind, good, "%s: %s" % (name, "none" if not hit else "%s happens" % hit[0][1][0]), where))


def go(I, f, kw):
    I.opaque.update({(cli.PPRINT, "pretty_sequence"): shown})
    return cli.run(I, f, [], kw)


def text_job(errors):
    def run(conds):
        I = cli.start(c21.maker(None))
        cli.file_hooks(I, errors)
        out = []
        o = go(I, cli.attr(I, cli.COMMANDS, "run"), dict(data=cli.DATA, out=string("OUT"), binary=ZERO))
        judge(I, o, "text file", errors, (1, 2, 3, 7), (0, 1, 2, 3, 5), (0, 1), True, out)
        out.append(dict(name="#functions", verdict="info", detail=sorted({e[4] for e in I.events if e[4]}) + [cli.COMMANDS + ".run"]))
        return out

    return run


def binary_job(conds):
    I = cli.start(c21.maker(None))
    cli.file_hooks(I)
    out = []
    o = go(I, cli.attr(I, cli.COMMANDS, "run"), dict(data=cli.DATA, out=string("OUT"), binary=ONE))
    judge(I, o, "binary file", (), (1,), (0, 1, 2), (0,), True, out)
    return out


def example_job(single):
    def run(conds):
        I = cli.start(c21.maker(None))
        out = []
        gens = cli.names(I, "coinflip.generators") or ["Python"]
        for g in gens:
            o = go(I, cli.attr(I, cli.COMMANDS, "example_run"), dict(example=string(g), length=var("length", "nat"), test=string(single) if single else NONE))
            judge(I, o, "example %s" % g, (), (1,), (0, 1, 2), (0,), False, out)
        return out

    return run


def single_fails(conds):
    """example-run of one test that cannot handle the data"""
    I = cli.start(c21.maker("TestInputError"))
    out = []
    for x in leaves.TESTS:
        o = go(I, cli.attr(I, cli.COMMANDS, "example_run"), dict(example=string("Python"), length=var("length", "nat"), test=string(x)))
        nd, hn = dims(o)
        m = {a: num(2) for a in nd}
        m.update({a: ZERO for a in hn})
        m[t.mk("bflag", "fails", x)] = ONE
        for (g, c, p), e in zip(o.ends, o.excs):
            v = value(g, m)
            if v == 0:
                continue
            if "SystemExit" in c:
                good = failing(e)
            else:
                good = "ClickException" in c
            out.append(fact("failing exit", good if v == 1 else None, "example-run -t %s, the test failing: ends in %s" % (x, t.pretty(e, 3)[:60]), "%s:%s" % p if p else cli.COMMANDS))
        out.append(fact("failing exit", any(value(g, m) == 1 for g, c, p in o.ends) or None, "example-run -t %s, the test failing: ends" % x, cli.COMMANDS))
    return out


# --------------------------------------------------------------------------- every raise of the tests' code


def scopes(tree):
    """(raise statement, enclosing handlers' (name, type) from the inside out, enclosing function)"""
    out = []

    def walk(node, hands, fn):
        if isinstance(node, ast.Raise):
            out.append((node, hands, fn))
        for c in ast.iter_child_nodes(node):
            h, f = hands, fn
            if isinstance(node, ast.ExceptHandler):
                h = [node] + hands
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                f = getattr(c, "name", "<lambda>")
                h = []
            walk(c, h, f)

    walk(tree, [], "<module>")
    return out


def raises_job(conds):
    I = cli.start()
    out = []
    base = cli.attr(I, cli.EXC, "TestError")
    pk = cli.PKG
    mods = [m for m in cli.repo_modules(pk) if not m.endswith(".collections")]
    n = 0
    for mod in mods:
        path = I.find(mod)
        if path is None:
            continue
        tree = ast.parse(open(path).read())
        I.module(mod)
        env = I.modules[mod].env
        for node, hands, fn in scopes(tree):
            n += 1
            where = "%s:%d" % (mod, node.lineno)
            e = node.exc
            if e is None or isinstance(e, ast.Name) and hands and any(h.name == e.id for h in hands):
                ty = hands[0].type if hands else None
                if e is not None:
                    ty = [h for h in hands if h.name == e.id][0].type
                types = ty.elts if isinstance(ty, ast.Tuple) else [ty]
            else:
                types = [e.func if isinstance(e, ast.Call) else e]
            for ty in types:
                good, name = None, ast.unparse(ty) if ty is not None else "?"
                c = resolve(I, env, ty)
                if c is not None:
                    chain = [x.rsplit(".", 1)[-1] for x in I.exc_class(c)]
                    good = "TestError" in chain
                    name = chain[0]
                elif isinstance(ty, ast.Name) and ty.id in lib_exc():
                    good = False
                out.append(fact("raised", good, "%s raises %s" % (fn, name + ("" if good else ", which is no TestError" if good is False else ", not resolved")), where))
    if not n:
        out.append(fact("raised", None, "no raise statement found", pk))
    return out


def lib_exc():
    import builtins

    return {k for k in dir(builtins) if isinstance(getattr(builtins, k), type) and issubclass(getattr(builtins, k), BaseException)}


def resolve(I, env, node):
    """the class an expression of names and attributes stands for"""
    if isinstance(node, ast.Name):
        v = I.st.get(("v", env, node.id))
    elif isinstance(node, ast.Attribute):
        o = resolve(I, env, node.value)
        if o is None:
            return None
        try:
            v = I.getattr(o, node.attr)
        except Exception:
            return None
    else:
        return None
    if v is None:
        return None
    v = I.deref(v)
    return v


def run(tier):
    r = jobs.Runner(8, 150 if tier == "quick" else 560)
    r.submit("run, text file", text_job(ERRORS))
    for e in ERRORS:
        r.submit("run, text file raising %s" % e, text_job([e]))
    r.submit("run, binary file", binary_job)
    r.submit("example-run", example_job(None))
    for x in leaves.TESTS if tier != "quick" else leaves.TESTS[:1]:
        r.submit("example-run -t %s" % x, example_job(x))
    r.submit("example-run -t, failing", single_fails)
    r.submit("raises", raises_job)
    return pack(r.collect(), RULE)
