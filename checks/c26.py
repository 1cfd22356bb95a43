"""C26: HTML reports show the result's own values and never execute data."""
import ast
import os

from checks import c21, c22
from checks.c21 import result, text
from checks.values import pack
from sa import cli, driver, jobs, leaves, lib, terms as t
from sa.cli import fact
from sa.html import Reader
from sa.leaves import TESTS, modes
from sa.terms import NONE, ONE, ZERO, mk, num, seq, string, var

TECHNIQUE = "syntax trees of the templates with the HTML place of every expression; abstract interpretation of the report writer with templates as stand-ins"
RULE = (
    "The report writer is run abstractly over a report holding all fifteen results, any of whose templates may be missing: the templates' environment must "
    "escape HTML by default, each template found must be rendered with its own test's result, each one missing must lead to a warning and nothing else, the "
    "page must consist of all rendered parts in order and be written to the path given.  Every expression of every template is located in the HTML around it "
    "and must be a value the test's result (as the analysed test builds it) has; in text and quoted attributes it must be left to the escaping, inside scripts "
    "it must be serialised as JSON outside string literals, elsewhere it must be a number; only the already rendered parts may be marked safe."
)
INDEX = "index.html"


# --------------------------------------------------------------------------- the writer


def miss(name):
    return mk("bflag", "missing", name)


def writer(I, names, out):
    R = cli.attr(I, cli.REPORT, "Report")
    res = I.alloc(mk("hdict", mk("dict", tuple((string(n), result(I, n), ONE) for n in names)), NONE, "dict"))
    rep = I.alloc(mk("inst", R, (("series", driver.INPUT), ("results", res))))

    def find(I, recv, o, args, kw):
        f = I.freeze(args[0])
        if f.op == "seq" or f.op == "tup":
            return None
        I.effect("get_template", f)
        I.throw(I.exc("jinja2.exceptions.TemplateNotFound", string("why")), t.aspoly(miss(f)))
        return mk("libcall", "template", (f,), ())

    def render(I, recv, o, args, kw):
        f = I.freeze(recv)
        if not (f.op == "libcall" and f.args[0] == "template"):
            return None
        given = dict(kw)
        for a in args:
            d = cli.entries(I, a)
            if d is None:
                return lib.unknown("render")
            given.update({k: v for k, v, g in d})
        ctx = tuple(mk("tup", string(k), I.freeze(v)) for k, v in sorted(given.items()))
        I.effect("render", f, *ctx)
        return mk("libcall", "rendered", (f,) + ctx, ())

    I.hooks = dict(I.hooks, get_template=find, render=render)
    return rep


def template_names(o):
    return list(dict.fromkeys(a[1] for g, a, w in o.actions if a[0] == "get_template"))


def rendered_as(I, o, name):
    """the template a test's result is rendered with"""
    mine = result(I, name)
    out = []
    for g, a, w in o.actions:
        if a[0] == "render" and any(x.args[1] is mine for x in a[2:]):
            out.append((g, a))
    return out


def writing_job(tests):
    return lambda conds: writing(tests)


def writing(tests):
    I = cli.start()
    out = environment(I)
    rep = writer(I, tests, out)
    o = cli.run(I, cli.attr(I, cli.REPORT, "write_report_doc"), [rep, string("OUT")])
    asked = template_names(o)
    per = {}
    for n in tests:
        r = rendered_as(I, o, n)
        for g, a in r:
            per.setdefault(n, set()).add(a[1].args[1][0])
    index = [x for x in asked if x.op == "str" and not any(x in s for s in per.values())]
    for n in tests:
        names = per.get(n, set())
        if not names:
            other = [a for g, a, w in o.actions if a[0] == "render"]
            out.append(fact("own result", None if not other else False, "%s's result is given to no template" % n, cli.REPORT))
        else:
            own = [x for x in names if x.op == "str" and n in os.path.basename(x.args[0]).split(".")[0]]
            bad = [x for x in names if x.op == "str" and os.path.basename(x.args[0]).split(".")[0] in TESTS and os.path.basename(x.args[0]).split(".")[0] != n]
            out.append(fact("own result", False if bad else bool(own) or None, "%s's result is given to %s" % (n, ", ".join(t.pretty(x, 2) for x in names)), cli.REPORT))
    flags = {n: [miss(x) for x in per.get(n, ())] for n in tests}
    zero = {miss(x): ZERO for x in asked}
    base = dict(zero)
    worlds = [("all templates there", set()), ("no test's template there", set(tests))]
    worlds += [("%s's template missing" % n, {n}) for n in tests] + [("only %s's template there" % n, set(tests) - {n}) for n in tests]
    for what, gone in worlds:
        m = dict(base)
        for n in gone:
            for f in flags[n]:
                m[f] = ONE
        ends = [(c22.value(g, m), c, p) for g, c, p in o.ends]
        sure = [x for x in ends if x[0] == 1]
        may = [x for x in ends if x[0] is None]
        out.append(fact("goes on", False if sure else None if may else True, "%s: %s" % (what, "ends in %s" % (sure or may)[0][1][0] if sure or may else "goes on"), "%s:%s" % sure[0][2] if sure and sure[0][2] else cli.REPORT))
        acts = [(c22.value(g, m), a) for g, a, w in o.actions]
        said = sum(1 for v, a in acts if c22.speaks(a) and v == 1)
        doubt = any(c22.speaks(a) and v is None for v, a in acts)
        if len(gone) == 1:
            out.append(fact("warning", True if said else None if doubt else False, "%s: %s" % (what, "a warning is printed" if said else "nothing is printed"), cli.REPORT))
        # the page
        pages = [a for v, a in acts if v == 1 and writes(a)]
        if len(pages) != 1:
            out.append(fact("page", False if not pages and not any(v is None and writes(a) for v, a in acts) else None, "%s: written %d times" % (what, len(pages)), cli.REPORT))
            continue
        a = pages[0]
        data = t.subst(a[2], m)
        want = [result(I, n) for n in tests if n not in gone]
        got = parts(data, want)
        if got is None:
            out.append(fact("page", None, "%s: what is written is not understood" % what, cli.REPORT))
        else:
            lost = [n for n in tests if n not in gone and result(I, n) not in got]
            ok = got == want
            out.append(fact("page", ok, "%s: %s" % (what, "holds every rendered result, in order" if ok else "lacks %s" % lost[0] if lost else "results are repeated or out of order"), cli.REPORT))
        tgt = a[1]
        enc = None
        if tgt.op == "libcall" and tgt.args[0] in ("open", ".open"):
            k = dict(tgt.args[2]) if tgt.args[2] else {}
            enc = k.get("encoding")
            tgt = tgt.args[1][0]
        tgt = c21.strip(tgt)
        out.append(fact("path", True if tgt is string("OUT") else None if cli.inside(tgt, string("OUT")) else False, "%s: written to %s" % (what, t.pretty(tgt, 3)[:60]), cli.REPORT))
    opens = [(a, w) for g, a, w in o.actions if a[0] in ("open", ".open") or a[0].endswith("write_text")]
    for a, w in opens:
        enc = [y for x in a[1:] if isinstance(x, t.T) for y in cli.leaves_of(x) if y.op == "str" and y.args[0].lower().replace("_", "-") in ("utf-8", "utf8")]
        given = None if any(x.op == "unknown" for y in a[1:] if isinstance(y, t.T) for x in cli.leaves_of(y)) else False
        if a[0].endswith("write_text") or not any(x.op == "str" and "b" in x.args[0] for x in a[2:3]):
            out.append(fact("any character", bool(enc) or given, "the page is written %s" % ("as UTF-8" if enc else "in an encoding not known to have every character"), cli.REPORT))
    out.append(dict(name="#functions", verdict="info", detail=[cli.REPORT + ".write_report_doc"]))
    return out


def writes(a):
    return a[0] in (".write", ".write_text", "pathlib.Path.write_text", ".write_bytes")


def parts(data, wanted):
    """the results whose rendered parts a page is made of, in order; None if not understood"""
    if data.op == "app" and data.args[0] in ("strm_encode",):
        data = data.args[1]
    if not (data.op == "libcall" and data.args[0] == "rendered"):
        return None
    out = []
    for x in data.args[1][1:]:
        v = x.args[1]
        if v.op in ("list", "iter"):
            v = v.args[0]
        if v.op not in ("seq", "tup"):
            return None
        for y in v.args:
            if y.op in ("tup", "seq"):
                y = [z for z in y.args if z.op == "libcall"]
                if len(y) != 1:
                    return None
                y = y[0]
            if not (y.op == "libcall" and y.args[0] == "rendered"):
                return None
            r = [z.args[1] for z in y.args[1][1:] if z.args[1].op == "inst"]
            if len(r) != 1:
                return None
            out.append(r[0])
    return out


def environment(I):
    """the environments templates are read with escape by default"""
    out = []
    envs = []
    for mod in (cli.REPORT,):
        m = I.modules.get(mod)
        for k, v in list(I.st.items()):
            if k[0] == "v" and m is not None and k[1] == m.env:
                f = I.freeze(v)
                if f.op == "inst" and f.args[0].op == "builtin" and f.args[0].args[0].endswith("Environment"):
                    envs.append((k[2], f))
    for name, f in envs:
        kw = dict(dict(f.args[1])["kw"].args[0]) if "kw" in dict(f.args[1]) else {}
        v = kw.get("autoescape")
        good = None
        if v is None:
            good = False
        elif lib.numeric(v):
            c = t.const(t.aspoly(v))
            good = None if c is None else c != 0
        elif v is NONE:
            good = False
        elif v.op == "libcall" and v.args[0].endswith("select_autoescape"):
            good = selects(v)
        set_ = [g for g, a, w in I.actions if a[0] == "setattr" and any(x is string("autoescape") for x in a)]
        if set_:
            good = None
        out.append(fact("escaping", good, "%s: autoescape is %s" % (name, "not set" if v is None else t.pretty(v, 3)[:60]), cli.REPORT))
    if not envs:
        out.append(fact("escaping", None, "the templates' environment is not found", cli.REPORT))
    return out


def selects(v):
    kw = dict(v.args[2]) if v.args[2] else {}
    a = list(v.args[1])
    exts = kw.get("enabled_extensions", a[0] if a else None)
    if exts is None:
        return True
    if exts.op == "list":
        exts = exts.args[0]
    if exts.op not in ("seq", "tup") or any(x.op != "str" for x in exts.args):
        return None
    return any(x.args[0].lstrip(".") == "html" for x in exts.args)


# --------------------------------------------------------------------------- the templates


SAFE = ("safe",)
ESC = ("e", "escape", "forceescape", "tojson", "urlencode", "xmlattr")
NUM = ("length", "count", "int", "float", "round", "abs", "sum", "wordcount", "filesizeformat")


class Sheet:
    """one template"""

    def __init__(self, I, name, tree, env, out, jinja, markup):
        self.I, self.name, self.out, self.j = I, name, out, jinja
        self.env = env  # name -> value term, or None for what is not known
        self.html = Reader()
        self.markup = markup  # names that stand for already rendered parts
        self.off = ""  # whether escaping is switched off here
        self.body(tree.body)

    def rec(self, kind, good, what, node):
        self.out.append(fact(kind, good, what, "%s:%s" % (self.name, getattr(node, "lineno", "?"))))

    def body(self, nodes):
        n = self.j.nodes
        for x in nodes:
            if isinstance(x, n.Output):
                for y in x.nodes:
                    if isinstance(y, n.TemplateData):
                        self.html.feed(y.data)
                    else:
                        self.shown(y)
            elif isinstance(x, n.For):
                v, safe = self.value(x.iter)
                keep, km = dict(self.env), set(self.markup)
                if isinstance(x.target, n.Name):
                    self.env[x.target.name] = self.item(v)
                    self.markup.discard(x.target.name)
                    if isinstance(x.iter, n.Name) and x.iter.name in self.markup:
                        self.markup.add(x.target.name)
                else:
                    for y in x.target.find_all(n.Name):
                        self.env[y.name] = None
                self.env["loop"] = None
                self.body(x.body)
                self.env, self.markup = keep, km
                self.body(x.else_)
            elif isinstance(x, n.If):
                self.value(x.test)
                self.body(x.body)
                self.body(x.elif_)
                self.body(x.else_)
            elif isinstance(x, n.Assign):
                v, safe = self.value(x.node)
                for y in [x.target] if isinstance(x.target, n.Name) else x.target.find_all(n.Name):
                    self.env[y.name] = v if y is x.target else None
                    (self.markup.add if safe and y is x.target else self.markup.discard)(y.name)
            elif isinstance(x, (n.ScopedEvalContextModifier, n.EvalContextModifier)):
                keep = self.off
                for o in x.options:
                    if o.key == "autoescape":
                        c = o.value.value if isinstance(o.value, n.Const) else None
                        self.off = "maybe" if not isinstance(o.value, n.Const) else "" if c else "off"
                self.body(getattr(x, "body", []))
                if isinstance(x, n.ScopedEvalContextModifier):
                    self.off = keep
            elif isinstance(x, n.Scope):
                keep = dict(self.env)
                self.body(x.body)
                self.env = keep
            elif isinstance(x, (n.Break, n.Continue)):
                pass
            elif isinstance(x, n.FilterBlock):
                names = []
                f = x.filter
                while isinstance(f, n.Filter):
                    names.append(f.name)
                    f = f.node
                if any(y in SAFE for y in names):
                    self.rec("escaping", False, "a block is marked safe", x)
                self.body(x.body)
            elif isinstance(x, n.Block):
                self.body(x.body)
            elif isinstance(x, n.With):
                keep = dict(self.env)
                for y, z in zip(x.targets, x.values):
                    v, safe = self.value(z)
                    if isinstance(y, n.Name):
                        self.env[y.name] = v
                self.body(x.body)
                self.env = keep
            elif isinstance(x, (n.Extends, n.Include, n.Import, n.FromImport, n.Macro, n.CallBlock, n.AssignBlock)):
                self.rec("understood", None, "%s is not followed" % type(x).__name__, x)
                for y in x.find_all(n.Name):
                    if y.ctx == "load":
                        self.env.setdefault(y.name, None)
                if isinstance(x, n.Macro):
                    keep = dict(self.env)
                    for y in x.args:
                        self.env[y.name] = None
                    self.body(x.body)
                    self.env = keep
            elif isinstance(x, n.ExprStmt):
                self.value(x.node)

    def item(self, v):
        if v is None:
            return None
        o = self.I.deref(v)
        if o.op == "list":
            o = o.args[0]
        if o.op in ("seq", "tup") and o.args:
            return o.args[0]
        return None

    def shown(self, y):
        """an expression put into the page"""
        n = self.j.nodes
        place = self.html.place()
        self.html.hole()
        what = describe(y, n)
        if isinstance(y, n.Const) or isinstance(y, n.TemplateData):
            return
        v, safe = self.value(y)
        number = v is not None and lib.numeric(v) and not t.is_face(v) and not faces_in(v) or outer(y, n) in NUM
        last = outer(y, n)
        if safe == "marked":
            self.rec("escaping", False, "%s is marked safe" % what, y)
            return
        if place.startswith("script"):
            if last == "tojson" and place == "script":
                self.rec("escaping", True, "%s is serialised as JSON in a script" % what, y)
            elif number:
                self.rec("escaping", True, "%s is a number" % what, y)
            else:
                self.rec("escaping", False, "%s is put into a %s %s" % (what, place, "as JSON" if last == "tojson" else "as it is"), y)
        elif self.off and not number and safe not in ("parts", "escaped"):
            self.rec("escaping", False if self.off == "off" else None, "%s is put into the page where escaping is switched off" % what, y)
        elif place == "text" or place == "comment":
            good = True
            self.rec("escaping", good, "%s is escaped" % what if safe != "parts" else "%s is what was rendered before" % what, y)
        elif place.startswith("attribute"):
            a = place.split()[1]
            if a.startswith("on") or a in ("href", "src", "action", "formaction", "style", "srcdoc", "xlink:href") or place.endswith("unquoted"):
                self.rec("escaping", bool(number), "%s is put into %s" % (what, place), y)
            elif last == "tojson" and place.endswith('"'):
                self.rec("escaping", bool(number), "%s: JSON has quotes that end %s" % (what, place), y)
            else:
                self.rec("escaping", True, "%s is escaped in a quoted attribute" % what, y)
        else:
            self.rec("escaping", bool(number), "%s is put into a %s" % (what, place), y)

    # values: (term or None, how safe it was made: None, "parts", "marked", "escaped")
    def value(self, y):
        n, I = self.j.nodes, self.I
        if isinstance(y, n.Name):
            if y.name not in self.env:
                ok = y.name in self.j.defaults.DEFAULT_NAMESPACE
                self.rec("has it", None if ok else False, "%s: nothing of that name is given to the template" % y.name, y)
                return None, None
            return self.env[y.name], "parts" if y.name in self.markup else None
        if isinstance(y, n.Const):
            c = y.value
            if isinstance(c, bool) or isinstance(c, (int,)):
                return num(int(c)), None
            if isinstance(c, str):
                return string(c), "escaped"
            return None, None
        if isinstance(y, (n.Getattr, n.Getitem)):
            v, s = self.value(y.node)
            key = y.attr if isinstance(y, n.Getattr) else y.arg.value if isinstance(y.arg, n.Const) and isinstance(y.arg.value, str) else None
            if isinstance(y, n.Getitem) and key is None:
                self.value(y.arg)
                return None, None
            if v is None:
                return None, None
            r, good = self.member(v, key)
            if good is not None:
                self.rec("has it", good, "%s %s" % (describe(y, n), "exists" if good else "does not exist"), y)
            return r, None
        if isinstance(y, n.Call):
            f, s = self.value(y.node)
            args = [self.value(a)[0] for a in y.args]
            kw = {k.key: self.value(k.value)[0] for k in y.kwargs}
            if f is None or any(a is None for a in args + list(kw.values())):
                return None, None
            try:
                return I.call(f, args, kw), None
            except Exception:
                return None, None
        if isinstance(y, n.Filter):
            if y.node is None:
                return None, None
            v, s = self.value(y.node)
            for a in list(y.args) + [k.value for k in y.kwargs]:
                self.value(a)
            if y.name not in self.j.filters.FILTERS and y.name not in custom(I):
                self.rec("has it", False, "no filter is named %s" % y.name, y)
            if y.name in SAFE:
                return v, s if s in ("parts", "escaped") else "marked"
            if y.name in ESC:
                return None, "escaped"
            if y.name in ("round", "int", "float", "abs") and v is not None and lib.numeric(v):
                return v, s if s == "marked" else None
            if y.name == "default" or y.name == "d":
                return v, s
            if y.name in ("join", "map", "list", "first", "last", "sort", "reverse", "unique") and s == "parts":
                return None, "parts"
            return None, "marked" if s == "marked" else None
        if isinstance(y, n.CondExpr):
            self.value(y.test)
            a, s1 = self.value(y.expr1)
            b, s2 = self.value(y.expr2) if y.expr2 is not None else (None, "escaped")
            both = a if a is not None and b is not None and lib.numeric(a) and lib.numeric(b) else None
            return both, "marked" if "marked" in (s1, s2) else None
        if isinstance(y, (n.Add, n.Sub, n.Mul, n.Div, n.FloorDiv, n.Mod, n.Pow)):
            a, s1 = self.value(y.left)
            b, s2 = self.value(y.right)
            if a is not None and b is not None and lib.numeric(a) and lib.numeric(b) and not faces_in(a) and not faces_in(b):
                return t.aspoly(a), None
            # markup and text concatenated: the text is escaped
            return None, "marked" if "marked" in (s1, s2) else None
        if isinstance(y, n.Concat):
            ss = [self.value(z)[1] for z in y.nodes]
            return None, "marked" if "marked" in ss else None
        marked = None
        for z in y.iter_child_nodes():
            if isinstance(z, n.Expr):
                if self.value(z)[1] == "marked":
                    marked = "marked"
        return None, marked

    def member(self, v, key):
        """(value, whether it is there) of an attribute or item"""
        I = self.I
        o = I.deref(v)
        if o.op in ("inst", "rec") and isinstance(o.args[0], t.T) and o.args[0].op == "cls":
            fields = dict(o.args[1])
            if key in fields:
                return fields[key], True
            f = I.find_member(o.args[0], key)
            if f is None:
                if o.op == "rec" and key in ("count", "index", "_asdict", "_fields"):
                    return None, None
                return None, False if closed_class(I, o.args[0]) else None
            try:
                return I.getattr(v, key), True
            except Exception:
                return None, True
        if lib.numeric(o) and not faces_in(o):
            return None, None
        try:
            r = I.getattr(v, key)
            return (None if r is None or r.op == "unknown" else r), None
        except Exception:
            return None, None


def closed_class(I, c):
    """whether all the bases of a class are known and none makes attributes up"""
    todo, seen = [c], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op != "cls":
            if x.op == "builtin" and x.args[0] in ("object", "abc.ABC", "typing.NamedTuple", "rich.console.ConsoleRenderable", "typing.Generic", "Exception"):
                continue
            return False
        o = I.get(x)
        if "__getattr__" in o.members or "__getattribute__" in o.members or "__getitem__" in o.members:
            return False
        todo += list(o.bases)
    return True


def faces_in(v):
    return any(t.is_face(x) for x in cli.leaves_of(v))


def outer(y, n):
    return y.name if isinstance(y, n.Filter) else None


def custom(I):
    """filters added to an environment"""
    return {x.args[0] for g, a, w in I.actions if a[0] in ("setitem", "setattr") for z in a[1:] if isinstance(z, t.T) for x in cli.leaves_of(z) if x.op == "str"}


def describe(y, n):
    if isinstance(y, n.Name):
        return y.name
    if isinstance(y, n.Getattr):
        return describe(y.node, n) + "." + y.attr
    if isinstance(y, n.Getitem):
        return describe(y.node, n) + "[…]"
    if isinstance(y, n.Call):
        return describe(y.node, n) + "()"
    if isinstance(y, n.Filter):
        return "%s | %s" % (describe(y.node, n) if y.node is not None else "", y.name)
    if isinstance(y, n.Const):
        return repr(y.value)
    return type(y).__name__


def folder():
    return os.path.join(driver.SRC, "coinflip", "templates")


def all_templates():
    out = []
    for d, _, fs in os.walk(folder()):
        for f in sorted(fs):
            if f.endswith((".html", ".htm", ".j2", ".jinja", ".jinja2", ".xml")):
                out.append(os.path.relpath(os.path.join(d, f), folder()))
    return sorted(out)


def template_job(name):
    def run(conds):
        import jinja2
        import jinja2.defaults
        import jinja2.filters
        import jinja2.nodes

        out = []
        path = os.path.join(folder(), name)
        src = open(path, encoding="utf-8").read()
        I = cli.start()
        try:
            tree = jinja2.Environment(extensions=["jinja2.ext.autoescape", "jinja2.ext.do", "jinja2.ext.loopcontrols", "jinja2.ext.with_"]).parse(src)
        except jinja2.TemplateSyntaxError as e:
            return [fact("has it", False, "the template cannot be read: %s" % e, "%s:%s" % (name, e.lineno))]
        rep = writer(I, TESTS, out)
        o = cli.run(I, cli.attr(I, cli.REPORT, "write_report_doc"), [rep, string("OUT")])
        given = {}
        for g, a, w in o.actions:
            if a[0] == "render" and a[1].args[1][0] is string(name):
                for x in a[2:]:
                    given[x.args[0].args[0]] = x.args[1]
        if not given and not any(a[0] == "render" for g, a, w in o.actions):
            return [fact("understood", None, "how templates are rendered is not understood", name)]
        if not given:
            return [fact("understood", True, "no result is rendered with it", name)]
        markup = {k for k, v in given.items() if any(x.op == "libcall" and x.args[0] == "rendered" for x in cli.leaves_of(v)) and not any(
            x.op == "inst" and not (y_is_inside(v, x)) for x in cli.leaves_of(v))}
        test = [n for n in TESTS if any(v is result(I, n) for v in given.values())]
        env = {k: None for k in given}
        if test:
            p = leaves.run_pair(test[0], modes(test[0], "given")[0], conds, spec=False)
            I = p.I
            I.trace = False
            if p.code.value is not None:
                I.st = p.code.state
                for k, v in given.items():
                    if v.op == "inst":
                        env[k] = p.code.value
        I.actions = I.actions if getattr(I, "actions", None) is not None else []
        Sheet(I, name, tree, env, out, jinja2, markup)
        out.append(dict(name="#functions", verdict="info", detail=["templates/" + name]))
        return out

    return run


def y_is_inside(v, x):
    """whether a result is there only as what a rendered part was made from"""
    todo = [v]
    while todo:
        z = todo.pop()
        if z is x:
            return False
        if z.op == "libcall" and z.args[0] == "rendered":
            continue
        acc = []
        t._scan(z.args, acc)
        todo += acc
    return True


def bypass(conds):
    """nothing in the code declares data to be markup"""
    out = []
    n = 0
    for mod in cli.repo_modules("coinflip"):
        path = os.path.join(driver.SRC, *mod.split(".")) + ".py"
        if not os.path.exists(path):
            path = os.path.join(driver.SRC, *mod.split("."), "__init__.py")
        tree = ast.parse(open(path).read())
        n += 1
        for x in ast.walk(tree):
            if isinstance(x, ast.Call):
                f = x.func
                nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
                if nm == "Markup" and x.args and not isinstance(x.args[0], ast.Constant):
                    out.append(fact("escaping", False, "a value is declared to be markup", "%s:%d" % (mod, x.lineno)))
            if isinstance(x, ast.FunctionDef) and x.name == "__html__":
                out.append(fact("escaping", False, "objects declare themselves to be markup", "%s:%d" % (mod, x.lineno)))
    out.append(fact("escaping", True if n else None, "%d modules searched for values declared to be markup" % n, "coinflip"))
    return out


def run(tier):
    r = jobs.Runner(8, 150 if tier == "quick" else 560)
    for k in range(0, len(TESTS), 4):
        r.submit("writer " + ", ".join(TESTS[k:k + 4]), writing_job(TESTS[k:k + 4]))
    r.submit("writer", writing_job(TESTS))
    names = all_templates()
    if not names:
        raise jobs.Anchor("src/coinflip/templates")
    for n in names:
        r.submit("template " + n, template_job(n))
    r.submit("code", bypass)
    return pack(r.collect(), RULE)
