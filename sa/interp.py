"""Abstract interpreter over the source of /repo: maps every variable to a value
expression (terms.py).  Branches are joined by gated values, loops are summarised
into closed forms (sums, element functions, tallies, ...) or, failing that, into
one `fold`/`while` expression.  Nothing of the repository is executed.
"""
import ast
import os
from fractions import Fraction as F

from . import terms as t
from .terms import (
    ONE, ZERO, NONE, T, add, and_, const, div, eq, eq0, fresh, ge0, gt0, index, is_seq, ite, length,
    mk, mul, not_, num, numeric, or_, seq, slice_, string, sub, sum_, var,
)

UNBOUND = mk("unbound")
NOTPLAIN = frozenset(["idx", "hd", "sum", "fold", "while", "fresh", "app", "bflag", "unknown", "maxr", "maxi", "first",
                      "len", "tally", "dget", "isinst", "fft", "arr", "flat", "proj", "hd", "input"])


class Halt(Exception):
    """the current path has ended (return, raise, break, continue)"""


class Split(BaseException):
    """the analysis needs a case distinction on cond"""

    def __init__(self, cond):
        self.cond = cond


class AnalysisError(Exception):
    pass


_unk = [0]
UNK_REASONS = {}


def unknown(reason):
    _unk[0] += 1
    u = mk("unknown", reason, _unk[0])
    return u


HEAPOPS = {"list", "hdict", "inst", "iter", "lazy", "set", "dlist"}

_has = {}


def contains(term, ops):
    key = (term, ops)
    r = _has.get(key)
    if r is None:
        r = False
        if term.op in ops:
            r = True
        else:
            kids = []
            t._scan(term.args, kids)
            for k in kids:
                if contains(k, ops):
                    r = True
                    break
        _has[key] = r
    return r


REFOPS = frozenset(["ref"])
UNKOPS = frozenset(["unknown"])


def refs_in(term, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if term in seen or not contains(term, REFOPS):
        return acc
    seen.add(term)
    if term.op == "ref":
        acc.add(term)
        return acc
    kids = []
    t._scan(term.args, kids)
    for k in kids:
        refs_in(k, acc, seen)
    return acc


class Closure:
    def __init__(self, node, env, module, name, defaults, kwdefaults, cls=None):
        self.node = node
        self.env = env
        self.module = module
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.decorators = []
        self.is_gen = isinstance(node, ast.FunctionDef) and _is_generator(node)
        self.wrapped = None
        self.cached = False

    def __repr__(self):
        return f"<{self.module}.{self.name}>"


class Cls:
    def __init__(self, name, module, bases, members, node):
        self.name = name
        self.module = module
        self.bases = bases
        self.members = members  # name -> T
        self.node = node
        self.dataclass = False
        self.namedtuple = False
        self.fields = []  # (name, default T or None)
        self.decorators = []

    def __repr__(self):
        return f"<class {self.module}.{self.name}>"


def _is_generator(fn):
    stack = list(fn.body)
    while stack:
        x = stack.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(x))
    return False


class Ctl:
    def __init__(self, kind, base):
        self.kind = kind
        self.base = base
        self.returns = []
        self.breaks = []
        self.conts = []


class Handler:
    def __init__(self, base):
        self.base = base
        self.raises = []  # (guard, exc, st, node)


class Module:
    def __init__(self, name, path, env):
        self.name = name
        self.path = path
        self.env = env
        self.state = "new"


BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "ValueError": "Exception", "KeyError": "LookupError",
    "LookupError": "Exception", "IndexError": "LookupError", "TypeError": "Exception",
    "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "StopIteration": "Exception",
    "AttributeError": "Exception", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
    "OverflowError": "ArithmeticError", "OSError": "Exception", "FileNotFoundError": "OSError", "IOError": "OSError",
    "UnicodeDecodeError": "ValueError", "UnicodeError": "ValueError", "AssertionError": "Exception",
    "NameError": "Exception", "UnboundLocalError": "NameError", "RecursionError": "RuntimeError",
    "SystemExit": "BaseException", "KeyboardInterrupt": "BaseException", "EOFError": "Exception",
    "UserWarning": "Warning", "Warning": "Exception", "ImportError": "Exception", "RuntimeWarning": "Warning",
    "DeprecationWarning": "Warning",
    "pandas.errors.ParserError": "ValueError", "pandas.errors.EmptyDataError": "ValueError",
    "pickle.PicklingError": "Exception", "pickle.PickleError": "Exception", "pickle.UnpicklingError": "Exception",
    "jinja2.exceptions.TemplateNotFound": "LookupError",
    "click.exceptions.UsageError": "Exception", "click.BadParameter": "Exception", "click.ClickException": "Exception",
    "click.UsageError": "Exception", "click.Abort": "Exception",
}


def _literal(s):
    """a short sequence written out, possibly by cases"""
    if s.op in ("seq", "tup"):
        return len(s.args) <= 8
    if s.op == "ite":
        return _literal(s.args[1]) and _literal(s.args[2])
    return s.op == "cat" and all(_literal(x) for x in s.args)


class Interp:
    def __init__(self, src, extra=None, opaque=None):
        self.src = src
        self.extra = dict(extra or {})  # module name -> path outside src
        models = os.path.join(os.path.dirname(os.path.abspath(__file__)), "models")
        self.extra["coinflip_sa_mixins"] = os.path.join(models, "mixins.py")
        self.extra["coinflip_sa_seqmixins"] = os.path.join(models, "seqmixins.py")
        self.extra["coinflip_sa_dlclients"] = os.path.join(models, "dlclients.py")
        self.own_dlist = False  # True: defaultlist's source is read, not taken as a list of defaults
        self.modules = {}
        self.st = {}
        self.pc = []
        self.ctls = []
        self.handlers = [Handler(0)]
        self.objs = {}
        self.nobj = 0
        self.nref = 0
        self.nenv = 0
        self.envparent = {}
        self.envmod = {}
        self.envkind = {}
        self.envdecl = {}
        self.events = []  # diagnostics: (kind, detail, module, line)
        self.stack = []  # (module, node) for positions
        self.depth = 0
        self.quiet = 0
        self.actions = []
        self.functions = set()
        self.nloops = 0
        self.ncalls = 0
        self.decorated = {}
        self.opaque = opaque or {}
        self.origin = {}  # term -> (module, line) of construction for reporting
        self.cached = {}
        self.budget = 400000
        self.events = []
        self.fnstack, self.frames, self.gen_key = [], [], []
        self.fact_base = [([], {}, 0)]
        self.env_stack = []
        self.hooks = {}
        from . import lib

        self.lib = lib

    # ------------------------------------------------------------------ basics
    def obj(self, o, op):
        self.nobj += 1
        x = mk(op, self.nobj)
        self.objs[x] = o
        return x

    def get(self, x):
        return self.objs[x]

    def alloc(self, o):
        self.nref += 1
        r = mk("ref", self.nref)
        self.st[("h", r)] = o
        return r

    def newenv(self, parent, module, kind="func"):
        self.nenv += 1
        e = self.nenv
        self.envparent[e] = parent
        self.envmod[e] = module
        self.envkind[e] = kind
        return e

    def here(self):
        for mod, node in reversed(self.stack):
            if node is not None and hasattr(node, "lineno"):
                return mod, node.lineno
        return None, 0

    def event(self, kind, detail=""):
        if self.quiet:
            return
        m, l = self.here()
        fn = self.fnstack[-1] if self.fnstack else ""
        self.events.append((kind, detail, m, l, fn))

    fnstack = []

    # ------------------------------------------------------------- path control
    def mark(self):
        return len(self.pc), list(t.CTX.facts), dict(t.CTX.known)

    def reset(self, m):
        n, facts, known = m
        del self.pc[n:]
        t.CTX.facts = list(facts)
        t.CTX.known = dict(known)
        t._bump()

    def push(self, cond):
        cond = t.aspoly(cond)
        k = const(cond)
        if k is not None and k != 0:
            return
        if k == 0:
            raise Halt()
        self.pc.append(cond)
        t.add_true(cond)
        t._bump()

    def fact(self, *nonneg):
        for p in nonneg:
            t.add_fact(p)
        t._bump()

    def guard(self, base):
        return and_(*self.pc[base:])

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if a is UNBOUND or b is UNBOUND:
            return mk("ite", c, a, b) if a is not b else a
        if a.op == b.op and a.op in ("list", "iter", "set"):
            return mk(a.op, ite(c, a.args[0], b.args[0]), *a.args[1:])
        if a.op == b.op == "dlist":
            return mk("dlist", self.merge_dict(c, a.args[0], b.args[0]), a.args[1])
        if a.op == b.op == "hdict":
            if a.args[1:] == b.args[1:]:
                return mk("hdict", self.merge_dict(c, a.args[0], b.args[0]), *a.args[1:])
        if a.op == b.op == "inst" and a.args[0] is b.args[0]:
            fa, fb = dict(a.args[1]), dict(b.args[1])
            names = [k for k, _ in a.args[1]] + [k for k, _ in b.args[1] if k not in fa]
            return mk(
                "inst", a.args[0],
                tuple((k, self.merge_val(c, fa.get(k, UNBOUND), fb.get(k, UNBOUND))) for k in names),
            )
        if a.op == b.op == "series" and a.args[1] is b.args[1]:
            return mk("series", ite(c, a.args[0], b.args[0]), a.args[1])
        if a.op == b.op == "nd":
            return mk("nd", ite(c, a.args[0], b.args[0]))
        return ite(c, a, b)

    def merge_dict(self, c, a, b):
        if a is b:
            return a
        if a.op == "dict" and b.op == "dict":
            ka = [e[0] for e in a.args[0]]
            kb = [e[0] for e in b.args[0]]
            da = {e[0]: e for e in a.args[0]}
            db = {e[0]: e for e in b.args[0]}
            out = []
            for k in ka + [k for k in kb if k not in da]:
                ea, eb = da.get(k), db.get(k)
                if ea is None:
                    out.append((k, eb[1], mul(not_(c), eb[2])))
                elif eb is None:
                    out.append((k, ea[1], mul(c, ea[2])))
                else:
                    p = add(mul(c, ea[2]), mul(not_(c), eb[2]))
                    out.append((k, self.merge_val(c, ea[1], eb[1]), p))
            return mk("dict", tuple(out))
        return ite(c, a, b)

    def merge_state(self, c, A, B):
        out = dict(A)
        for k, b in B.items():
            a = A.get(k)
            if a is b:
                continue
            if a is None:
                if k[0] == "h":
                    out[k] = b
                else:
                    out[k] = self.merge_val(c, UNBOUND, b)
            else:
                out[k] = self.merge_val(c, a, b)
        for k, a in A.items():
            if k not in B and k[0] != "h":
                out[k] = self.merge_val(c, a, UNBOUND)
        return out

    def fork(self, cond, fa, fb):
        cond = t.aspoly(cond)
        k = const(cond)
        if k is not None:
            return fa() if k != 0 else fb()
        base = self.st
        m = self.mark()
        va = vb = None
        a_ok = b_ok = False
        self.st = dict(base)
        try:
            self.push(cond)
            va = fa()
            a_ok = True
        except Halt:
            pass
        stA, gA = self.st, self.guard(m[0])
        self.reset(m)
        self.st = dict(base)
        try:
            self.push(not_(cond))
            vb = fb()
            b_ok = True
        except Halt:
            pass
        stB, gB = self.st, self.guard(m[0])
        self.reset(m)
        if not a_ok and not b_ok:
            raise Halt()
        if a_ok and not b_ok:
            self.st = stA
            self.push(gA)
            return va
        if b_ok and not a_ok:
            self.st = stB
            self.push(gB)
            return vb
        self.st = self.merge_state(cond, stA, stB)
        self.push(or_(gA, gB))
        if va is None:
            return None
        return self.merge_val(cond, va, vb)

    def combine(self, outs):
        """join (guard, value, state) outcomes; returns value, leaves the joined state"""
        outs = [o for o in outs if const(o[0]) != 0]
        if not outs:
            raise Halt()
        g, v, s = outs[-1]
        for g2, v2, s2 in reversed(outs[:-1]):
            s = self.merge_state(g2, s2, s)
            if v is not None:
                v = self.merge_val(g2, v2, v)
            g = add(g, g2) if t.is_boolpoly(add(g, g2)) else or_(g, g2)
        self.st = s
        self.push(g)
        return v

    # ------------------------------------------------------------------ raising
    def throw(self, exc, guard=ONE):
        """raise exc (a term) when guard; continue otherwise"""
        guard = t.aspoly(guard)
        if const(guard) == 0:
            return
        h = self.handlers[-1]
        g = and_(self.guard(h.base), guard)
        if const(g) != 0:
            h.raises.append((g, exc, dict(self.st), self.here()))
        if const(guard) is not None:
            raise Halt()
        self.push(not_(guard))

    def exc(self, name, *args):
        return mk("excv", name, args)

    def exc_class(self, e):
        """class chain names of an exception value"""
        if e.op == "excv":
            return self.exc_chain(e.args[0])
        if e.op == "ref":
            e = self.deref(e)
        if e.op == "inst":
            return self.cls_chain(e.args[0])
        if e.op == "builtin":
            return self.exc_chain(e.args[0])
        if e.op == "cls":
            return self.cls_chain(e)
        if e.op == "ite":
            a, b = self.exc_class(e.args[1]), self.exc_class(e.args[2])
            return [x for x in a if x in b]
        return ["BaseException", "Exception"]

    def exc_chain(self, name):
        out = []
        n = name
        while n is not None:
            out.append(n)
            n = BUILTIN_EXC.get(n, "Exception" if n not in ("Exception", "BaseException") else None)
            if n in out:
                break
        return out

    def cls_chain(self, c):
        """names of a class and all its bases, linearised"""
        out = []
        for x in self.mro(c):
            if x.op == "cls":
                o = self.get(x)
                out.append(f"{o.module}.{o.name}")
            elif x.op == "builtin":
                for y in self.exc_chain(x.args[0]) if x.args[0] in BUILTIN_EXC else [x.args[0]]:
                    if y not in out:
                        out.append(y)
        return out

    def mro(self, c):
        out = []

        def lin(x):
            if x.op != "cls":
                return [x]
            o = self.get(x)
            seqs = [lin(b) for b in o.bases] + [list(o.bases)]
            res = [x]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    cand = s[0]
                    if not any(cand in q[1:] for q in seqs):
                        break
                else:
                    cand = seqs[0][0]
                res.append(cand)
                seqs = [[y for y in q if y is not cand] for q in seqs]
                seqs = [q for q in seqs if q]
            return res

        return lin(c)

    # ------------------------------------------------------------------ modules
    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            if m.state == "new":
                self.run_module(m)
            return m
        path = self.find(name)
        if path is None:
            return None
        parts = name.split(".")
        if len(parts) > 1 and name not in self.extra:
            self.module(".".join(parts[:-1]))
            m = self.modules.get(name)
            if m is not None:
                return m
        m = Module(name, path, self.newenv(None, name, "module"))
        self.modules[name] = m
        self.run_module(m)
        return m

    def find(self, name):
        if name in self.extra:
            return self.extra[name]
        base = os.path.join(self.src, *name.split("."))
        if os.path.isfile(base + ".py"):
            return base + ".py"
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py")
        if os.path.isdir(base) and any(x.endswith(".py") for x in os.listdir(base)):
            return base
        return None

    def run_module(self, m):
        if m.state != "new":
            return
        m.state = "running"
        if os.path.isdir(m.path):
            m.state = "done"
            return
        with open(m.path, encoding="utf-8") as f:
            text = f.read()
        tree = ast.parse(text, m.path)
        m.tree = tree
        self.st[("v", m.env, "__name__")] = string(m.name)
        saved = self.ctls, self.handlers, self.fnstack
        self.ctls, self.handlers, self.fnstack = [], [Handler(len(self.pc))], []
        self.ctls.append(Ctl("func", len(self.pc)))
        self.stack.append((m.name, None))
        self.env_stack = getattr(self, "env_stack", [])
        self.env_stack.append(m.env)
        try:
            self.exec_block(tree.body)
        except Halt:
            self.event("module-halt", m.name)
        finally:
            self.stack.pop()
            self.env_stack.pop()
            self.ctls, self.handlers, self.fnstack = saved
        m.state = "done"

    def mod_attr(self, modname, name):
        m = self.module(modname)
        if m is not None:
            v = self.st.get(("v", m.env, name))
            if v is not None:
                return v
            sub_ = self.find(modname + "." + name)
            if sub_ is not None:
                self.module(modname + "." + name)
                return mk("mod", modname + "." + name)
            return None
        return self.lib.libname(modname + "." + name)

    # -------------------------------------------------------------- environment
    @property
    def env(self):
        return self.env_stack[-1]

    def lookup(self, name):
        e = self.env
        first = True
        while e is not None:
            if self.envkind.get(e) == "class" and not first:
                e = self.envparent[e]
                continue
            v = self.st.get(("v", e, name))
            if v is not None:
                if v is UNBOUND:
                    self.throw(self.exc("UnboundLocalError", string(name)))
                if v.op == "ite" and (v.args[1] is UNBOUND or v.args[2] is UNBOUND):
                    c, a, b = v.args
                    if a is UNBOUND:
                        self.throw(self.exc("UnboundLocalError", string(name)), c)
                        v = b
                    else:
                        self.throw(self.exc("UnboundLocalError", string(name)), not_(c))
                        v = a
                return v
            if self.envkind.get(e) != "comp":
                first = False
            e = self.envparent[e]
        return self.lib.builtin(name)

    def store(self, name, value):
        e = self.env
        while self.envkind.get(e) == "comp" and ("v", e, name) not in self.st and False:
            e = self.envparent[e]
        d = self.envdecl.get((e, name))
        if d is not None:
            e = d
        self.st[("v", e, name)] = value

    # --------------------------------------------------------------- statements
    def exec_block(self, stmts):
        for s in stmts:
            self.exec_stmt(s)

    def exec_stmt(self, s):
        self.budget -= 1
        if self.budget < 0:
            raise AnalysisError("analysis budget exhausted")
        self.stack.append((self.stack[-1][0], s))
        try:
            f = getattr(self, "s_" + type(s).__name__, None)
            if f is None:
                self.event("unsupported-stmt", type(s).__name__)
                return
            f(s)
        finally:
            self.stack.pop()

    def s_Expr(self, s):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.ev(s.value)
            return
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))
        self.throw(self.exc("AssertionError"), not_(c))

    def s_Global(self, s):
        m = self.modules[self.envmod[self.env]]
        for n in s.names:
            self.envdecl[(self.env, n)] = m.env

    def s_Nonlocal(self, s):
        for n in s.names:
            e = self.envparent[self.env]
            while e is not None and ("v", e, n) not in self.st:
                e = self.envparent[e]
            if e is not None:
                self.envdecl[(self.env, n)] = e

    def s_Import(self, s):
        for a in s.names:
            if a.asname:
                self.import_mod(a.name)
                self.store(a.asname, mk("mod", a.name))
            else:
                self.import_mod(a.name)
                self.store(a.name.split(".")[0], mk("mod", a.name.split(".")[0]))

    def import_mod(self, name):
        if self.find(name) is not None:
            self.module(name)

    def s_ImportFrom(self, s):
        name = s.module or ""
        if s.level:
            cur = self.envmod[self.env]
            m = self.modules[cur]
            parts = cur.split(".")
            if not m.path.endswith("__init__.py"):
                parts = parts[:-1]
            if s.level > 1:
                parts = parts[: -(s.level - 1)]
            name = ".".join(parts + ([name] if name else []))
        inrepo = self.find(name) is not None
        if inrepo:
            self.module(name)
        for a in s.names:
            if a.name == "*":
                if not inrepo:
                    continue
                m = self.modules[name]
                al = self.st.get(("v", m.env, "__all__"))
                names = None
                if al is not None:
                    c = self.content(al)
                    if c is not None and c.op in ("seq", "tup"):
                        names = [x.args[0] for x in c.args if x.op == "str"]
                if names is None:
                    names = [k[2] for k in list(self.st) if k[0] == "v" and k[1] == m.env and not k[2].startswith("_")]
                for n in names:
                    v = self.st.get(("v", m.env, n))
                    if v is None:
                        v = self.mod_attr(name, n)
                    if v is not None:
                        self.store(n, v)
                    else:
                        self.event("import-missing", f"{name}.{n}")
                continue
            v = self.mod_attr(name, a.name)
            if v is None:
                self.event("import-missing", f"{name}.{a.name}")
                v = unknown(f"{name}.{a.name}")
            self.store(a.asname or a.name, v)

    def s_FunctionDef(self, s):
        a = s.args
        defaults = [self.ev(d) for d in a.defaults]
        kwd = [self.ev(d) if d is not None else None for d in a.kw_defaults]
        c = Closure(s, self.env, self.envmod[self.env], s.name, defaults, kwd)
        f = self.obj(c, "clo")
        self.functions.add((c.module, s.name, s.lineno))
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            c.decorators.append(dv)
            f = self.decorate(dv, f)
        self.store(s.name, f)

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, dv, f):
        r = self.lib.decorator(self, dv, f)
        if r is not None:
            return r
        return self.call(dv, [f], {})

    def s_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        e = self.newenv(self.env, self.envmod[self.env], "class")
        self.env_stack.append(e)
        fields = []
        try:
            for x in s.body:
                if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                    d = None
                    if x.value is not None:
                        d = self.ev(x.value)
                        self.st[("v", e, x.target.id)] = d
                    fields.append((x.target.id, d))
                elif isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                    pass
                else:
                    self.exec_stmt(x)
        finally:
            self.env_stack.pop()
        members = {k[2]: v for k, v in list(self.st.items()) if k[0] == "v" and k[1] == e}
        members = {k: v for k, v in members.items() if k not in [f for f, d in fields if d is None]}
        o = Cls(s.name, self.envmod[self.env], bases, members, s)
        c = self.obj(o, "cls")
        for b in bases:
            if b.op == "builtin" and b.args[0] == "typing.NamedTuple":
                o.namedtuple = True
        o.ownfields = fields
        if o.namedtuple:
            o.fields = fields
        for d in reversed(s.decorator_list):
            dv = self.ev(d)
            o.decorators.append(dv)
            if self.lib.is_dataclass_deco(self, dv):
                o.dataclass = True
                o.fields = self.dc_fields(c)
            else:
                r = self.lib.decorator(self, dv, c)
                if r is not None and r is not c:
                    c = r
        for k, v in members.items():
            if v.op == "clo":
                if self.get(v).cls is None:
                    self.get(v).cls = c
            elif v.op == "descr":
                for y in v.args[1:]:
                    if type(y) is T and y.op == "clo" and self.get(y).cls is None:
                        self.get(y).cls = c
        self.store(s.name, c)

    def dc_fields(self, c):
        out = []
        for x in reversed(self.mro(c)):
            if x.op != "cls":
                continue
            o = self.get(x)
            if x is c or o.dataclass:
                for n, d in o.ownfields:
                    for i, (n0, _) in enumerate(out):
                        if n0 == n:
                            out[i] = (n, d)
                            break
                    else:
                        out.append((n, d))
        return out

    def s_Return(self, s):
        v = NONE if s.value is None else self.ev(s.value)
        c = self.ctls[-1]
        c.returns.append((self.guard(c.base), v, dict(self.st)))
        raise Halt()

    def s_Raise(self, s):
        if s.exc is None:
            cur = self.st.get(("fx", "exc"))
            self.throw(cur if cur is not None else self.exc("Exception"))
            return
        e = self.ev(s.exc)
        if e.op in ("cls", "builtin"):
            e = self.call(e, [], {})
        if s.cause is not None:
            self.ev(s.cause)
        self.throw(e)

    def s_Break(self, s):
        c = self.ctls[-1]
        c.breaks.append((self.guard(c.base), None, dict(self.st)))
        raise Halt()

    def s_Continue(self, s):
        c = self.ctls[-1]
        c.conts.append((self.guard(c.base), None, dict(self.st)))
        raise Halt()

    def s_If(self, s):
        c = self.truth(self.ev(s.test))
        self.fork(c, lambda: self.exec_block(s.body), lambda: self.exec_block(s.orelse))

    def s_Delete(self, s):
        for x in s.targets:
            if isinstance(x, ast.Name):
                self.store(x.id, UNBOUND)
            elif isinstance(x, ast.Subscript):
                self.delitem(self.ev(x.value), self.ev_index(x.slice))
            else:
                self.event("unsupported", "del")

    def s_Assign(self, s):
        v = self.ev(s.value)
        for x in s.targets:
            self.assign(x, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        tg = s.target
        op = type(s.op).__name__
        if isinstance(tg, ast.Name):
            old = self.lookup(tg.id)
            v = self.ev(s.value)
            if old.op == "ref" and self.deref(old).op == "list" and op == "Add":
                self.list_extend(old, v)
                return
            self.store(tg.id, self.inplace(op, old, v))
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value)
            old = self.getattr(o, tg.attr)
            v = self.ev(s.value)
            self.setattr(o, tg.attr, self.inplace(op, old, v))
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value)
            k = self.ev_index(tg.slice)
            old = self.getitem(o, k)
            v = self.ev(s.value)
            self.setitem(o, k, self.inplace(op, old, v))
        else:
            self.event("unsupported", "augassign")

    def inplace(self, op, old, v):
        if op == "Add" and old.op == "ref":
            o = self.deref(old)
            if o.op == "inst" and o.args[0].op == "cls":
                m = self.find_member(o.args[0], "__iadd__")
                m = self.bind_member(m, old, o.args[0]) if m is not None else self.lib.mixin(self, old, o, "__iadd__")
                if m is not None:
                    return self.call(m, [v], {})
        return self.binop(op, old, v)

    def assign(self, tg, v):
        if isinstance(tg, ast.Name):
            self.store(tg.id, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            self.unpack(tg.elts, v)
        elif isinstance(tg, ast.Attribute):
            self.setattr(self.ev(tg.value), tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value)
            self.setitem(o, self.ev_index(tg.slice), v)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v)
        else:
            self.event("unsupported", "assign target")

    def unpack(self, elts, v):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if v.op == "unknown":
            for e in elts:
                self.assign(e, unknown("unpack"))
            return
        s = self.to_seq(v)
        if s is None:
            for e in elts:
                self.assign(e, unknown("unpack"))
            return
        if not star:
            for i, e in enumerate(elts):
                self.assign(e, index(s, num(i)))
            return
        k = star[0]
        after = len(elts) - k - 1
        for i in range(k):
            self.assign(elts[i], index(s, num(i)))
        n = length(s)
        mid = slice_(s, num(k), sub(n, num(after)))
        self.assign(elts[k], self.alloc(mk("list", self.plain(mid))))
        for j in range(after):
            self.assign(elts[k + 1 + j], index(s, num(-(after - j))))

    def s_With(self, s):
        self.with_items(s.items, s.body)

    def with_items(self, items, body):
        if not items:
            self.exec_block(body)
            return
        it = items[0]
        v = self.ev(it.context_expr)
        r = self.lib.enter(self, v)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, r)
        self.with_depth = getattr(self, "with_depth", 0)
        try:
            self.with_items(items[1:], body)
        finally:
            self.lib.leave(self, v)

    def s_Try(self, s):
        if not s.finalbody:
            self.combine(self.attempt(s))
            return
        m = self.mark()
        out = Handler(len(self.pc))
        ctl = self.ctls[-1] if self.ctls else None
        had = len(ctl.returns) if ctl else 0
        self.handlers.append(out)
        try:
            outs = self.attempt(s)
        finally:
            self.handlers.pop()
        self.reset(m)
        for g, exc, st, pos in out.raises:
            self.reset(m)
            self.st = dict(st)
            try:
                self.push(g)
                self.exec_block(s.finalbody)
            except Halt:
                continue
            hh = self.handlers[-1]
            hh.raises.append((self.guard(hh.base), exc, dict(self.st), pos))
        early = ctl.returns[had:] if ctl else []
        if ctl:
            del ctl.returns[had:]
        inner = self.guard(ctl.base) if ctl else ONE
        for g, v, st in early:
            self.reset(m)
            self.st = dict(st)
            try:
                if g is not inner:
                    self.push(g)
                self.exec_block(s.finalbody)
            except Halt:
                continue
            ctl.returns.append((self.guard(ctl.base), v, dict(self.st)))
        self.reset(m)
        self.combine(outs)
        self.exec_block(s.finalbody)

    def attempt(self, s):
        """a try statement without its final part: [(guard, None, state)] of where it goes on"""
        m = self.mark()
        h = Handler(len(self.pc))
        self.handlers.append(h)
        outs = []
        ok = True
        try:
            self.exec_block(s.body)
        except Halt:
            ok = False
        finally:
            self.handlers.pop()
        if ok:
            g, st = self.guard(m[0]), self.st
            try:
                self.exec_block(s.orelse)
                outs.append((self.guard(m[0]), None, self.st))
            except Halt:
                pass
        base = self.guard(self.handlers[-1].base)
        for g, exc, st, pos in h.raises:
            self.reset(m)
            self.st = dict(st)
            try:
                self.push(g)
            except Halt:
                continue
            done = False
            chain = self.exc_class(exc)
            for hd in s.handlers:
                names = None
                if hd.type is not None:
                    names = self.exc_names(self.ev(hd.type))
                if names is None or any(x in chain for x in names):
                    try:
                        if hd.name:
                            self.store(hd.name, exc)
                        old = self.st.get(("fx", "exc"), NONE)
                        self.st[("fx", "exc")] = exc
                        self.exec_block(hd.body)
                        self.st[("fx", "exc")] = old
                        outs.append((self.guard(m[0]), None, self.st))
                    except Halt:
                        pass
                    done = True
                    break
                if chain[:2] == ["BaseException", "Exception"] and len(chain) == 2:
                    # an exception of unknown class: may or may not match
                    b = fresh("bool")
                    st0 = dict(self.st)
                    try:
                        self.push(b)
                        if hd.name:
                            self.store(hd.name, exc)
                        self.exec_block(hd.body)
                        outs.append((self.guard(m[0]), None, self.st))
                    except Halt:
                        pass
                    self.reset(m)
                    self.st = st0
                    self.push(mul(g, not_(b)))
            if not done:
                hh = self.handlers[-1]
                hh.raises.append((self.guard(hh.base), exc, dict(self.st), pos))
        self.reset(m)
        return outs

    def exc_names(self, v):
        if v.op in ("tup", "seq"):
            out = []
            for x in v.args:
                out += self.exc_names(x) or []
            return out
        if v.op == "builtin":
            return [v.args[0]]
        if v.op == "cls":
            o = self.get(v)
            return [f"{o.module}.{o.name}"]
        return []

    # -------------------------------------------------------------------- loops
    def s_For(self, s):
        it = self.ev(s.iter)
        sq = self.to_seq(it)
        if sq is None:
            self.event("opaque-loop", "iterable not understood")
            self.havoc(s)
            return
        self.for_seq(sq, lambda e: self.assign(s.target, e), lambda: self.exec_block(s.body),
                     lambda: self.exec_block(s.orelse), s)

    def havoc(self, s):
        names = set()
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.add(x.id)
        for n in names:
            self.store(n, unknown("loop over unknown"))
        # anything mutable reachable might have changed
        for k, v in list(self.st.items()):
            if k[0] == "h" and v.op in ("list", "hdict", "set", "dlist") and k[1].args[0] > getattr(self, "frozen_refs", 0):
                if v.op == "list":
                    self.st[k] = mk("list", unknown("loop"))
                elif v.op == "hdict":
                    self.st[k] = mk("hdict", unknown("loop"), *v.args[1:])

    def segments(self, sq):
        """break a sequence into unrollable and symbolic segments"""
        if sq.op == "cat":
            out = []
            for x in sq.args:
                out += self.segments(x)
            return out
        if sq.op in ("seq", "tup"):
            if len(sq.args) > 12:
                p = self.progression(sq.args)
                if p is not None:
                    return [("sym", p)]
            return [("seq", list(sq.args))]
        if sq.op == "ite":
            return [("ite", sq)]
        if sq.op == "flat":
            return [("flat", sq)]
        return [("sym", sq)]

    def progression(self, items):
        """a long literal range as an element function"""
        if not all(numeric(x) for x in items):
            return None
        a = t.aspoly(items[0])
        d = sub(items[1], a)
        if const(d) is None:
            return None
        for i, x in enumerate(items):
            if t.aspoly(x) is not add(a, t.scale(d, i)):
                return None
        v = fresh("nat")
        return mk("arr", num(len(items)), t.mklam([v], add(a, mul(d, t.aspoly(v)))))

    def for_seq(self, sq, assign, body, orelse, node):
        m0 = len(self.pc)
        brk = []  # (guard since m0, None, st)
        ctl_out = self.ctls[-1] if self.ctls else None
        ended = False
        try:
            self.run_segments(sq, assign, body, brk, m0, node)
            if orelse is not None:
                orelse()
        except Halt:
            ended = True
        if brk:
            outs = list(brk)
            mm = None
            if not ended:
                outs.append((self.guard(m0), None, self.st))
            # restore to m0
            facts_mark = self.loop_mark
            self.trim(m0)
            self.combine(outs)
        elif ended:
            raise Halt()

    loop_mark = None

    def trim(self, n):
        """drop path conditions beyond n, recomputing facts"""
        del self.pc[n:]
        # facts from dropped conditions must go: rebuild from snapshots
        base = self.fact_base[-1]
        t.CTX.facts = list(base[0])
        t.CTX.known = dict(base[1])
        for c in self.pc[base[2]:]:
            t.add_true(c)
        t._bump()

    fact_base = [([], {}, 0)]

    def run_segments(self, sq, assign, body, brk, m0, node):
        for kind, seg in self.segments(sq):
            if kind == "seq":
                if self.light and len(seg) > 16:
                    whole = seq(*seg)
                    self.sym_loop(num(len(seg)), lambda v: assign(index(whole, v)), lambda v, br: body(), brk, m0, node)
                    continue
                if len(seg) > 600:
                    raise AnalysisError("loop too long to unroll")
                for e in seg:
                    self.iteration(lambda: (assign(e), body()), brk, m0)
            elif kind == "ite":
                c, a, b = seg.args
                if not (_literal(a) and _literal(b)):
                    self.need_split(c)
                # the two alternatives are loops of their own
                sub_brk_a, sub_brk_b = [], []
                self.fork(
                    c,
                    lambda: self.run_segments(a, assign, body, brk, m0, node),
                    lambda: self.run_segments(b, assign, body, brk, m0, node),
                )
            elif kind == "flat":
                L, lam = seg.args
                self.sym_loop(
                    L,
                    lambda v: None,
                    lambda v, br: self.run_segments(t.apply(lam, v), assign, body, br, len(self.pc), node),
                    brk, m0, node, nested=True,
                )
            else:
                L = length(seg)
                self.sym_loop(
                    L,
                    lambda v: assign(index(seg, v)),
                    lambda v, br: body(),
                    brk, m0, node,
                )

    def iteration(self, f, brk, m0):
        """one unrolled iteration"""
        m = self.mark()
        c = Ctl("loop", len(self.pc))
        self.ctls.append(c)
        ok = True
        pre = self.guard(m0)
        try:
            f()
        except Halt:
            ok = False
        finally:
            self.ctls.pop()
        outs = []
        if ok:
            if not c.conts and not c.breaks and not c.returns:
                return
            outs.append((self.guard(m[0]), None, self.st))
        outs += c.conts
        st = self.st
        self.reset(m)
        for g, _, s in c.breaks:
            brk.append((and_(pre, g), None, s))
        if c.returns:
            up = self.ctls[-1]
            pg = self.guard(up.base)
            for g, v, s in c.returns:
                up.returns.append((and_(pg, g), v, s))
        self.combine(outs)

    # --- symbolic loops
    def diff_slots(self, key, a, b, path=()):
        """where two states' values of key differ: list of (path, entry value)"""
        if a is b:
            return []
        if a is None or a is UNBOUND:
            return [(path, UNBOUND)]
        if a.op == b.op == "list":
            ca, cb = a.args[0], b.args[0]
            if ca.op == cb.op == "seq" and len(ca.args) == len(cb.args) and ca.args:
                out = []
                for i, (x, y) in enumerate(zip(ca.args, cb.args)):
                    out += self.diff_slots(key, x, y, path + (("e", i),))
                return out
            return [(path + ("list",), ca)]
        if a.op == b.op == "iter":
            return [(path + ("iter",), a.args[0])]
        if a.op == b.op == "set":
            return [(path + ("set",), a.args[0])]
        if a.op == b.op == "dlist":
            return [(path + ("dlist",), a.args[0])]
        if a.op == b.op == "inst" and a.args[0] is b.args[0] and [k for k, _ in a.args[1]] == [k for k, _ in b.args[1]]:
            out = []
            for (k, x), (_, y) in zip(a.args[1], b.args[1]):
                out += self.diff_slots(key, x, y, path + (("f", k),))
            return out
        if a.op == b.op == "hdict" and a.args[1:] == b.args[1:]:
            da, db = a.args[0], b.args[0]
            if (
                da.op == db.op == "dict" and da.args[0]
                and [(e[0], e[2]) for e in da.args[0]] == [(e[0], e[2]) for e in db.args[0]]
            ):
                out = []
                for i, (x, y) in enumerate(zip(da.args[0], db.args[0])):
                    out += self.diff_slots(key, x[1], y[1], path + (("d", i),))
                return out
            return [(path + ("dict",), da)]
        if a.op == b.op == "tup" and len(a.args) == len(b.args) and a.args:
            out = []
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                out += self.diff_slots(key, x, y, path + (("t", i),))
            return out
        if a.op == b.op == "rec" and a.args[0] is b.args[0]:
            out = []
            for i, (x, y) in enumerate(zip(a.args[1], b.args[1])):
                out += self.diff_slots(key, x[1], y[1], path + (("r", i),))
            return out
        return [(path, a)]

    def get_slot(self, v, path):
        for p in path:
            if v is None or v is UNBOUND:
                return None
            if p in ("list", "dict", "iter", "set", "dlist"):
                want = {"dict": "hdict"}.get(p, p)
                if v.op != want:
                    return None
                v = v.args[0]
            elif p[0] == "e":
                c = v.args[0]
                if v.op != "list" or c.op != "seq" or len(c.args) <= p[1]:
                    return None
                v = c.args[p[1]]
            elif p[0] == "f":
                if v.op != "inst":
                    return None
                v = dict(v.args[1]).get(p[1])
            elif p[0] == "d":
                if v.op != "hdict" or v.args[0].op != "dict" or len(v.args[0].args[0]) <= p[1]:
                    return None
                v = v.args[0].args[0][p[1]][1]
            elif p[0] == "t":
                if v.op != "tup" or len(v.args) <= p[1]:
                    return None
                v = v.args[p[1]]
            elif p[0] == "r":
                if v.op != "rec":
                    return None
                v = v.args[1][p[1]][1]
        return v

    def set_slot(self, v, path, x):
        if not path:
            return x
        p, rest = path[0], path[1:]
        if p in ("list", "iter", "set", "dict", "dlist"):
            return mk(v.op, self.set_slot(v.args[0], rest, x), *v.args[1:])
        if p[0] == "e":
            c = list(v.args[0].args)
            c[p[1]] = self.set_slot(c[p[1]], rest, x)
            return mk("list", seq(*c))
        if p[0] == "f":
            return mk("inst", v.args[0], tuple((k, self.set_slot(y, rest, x) if k == p[1] else y) for k, y in v.args[1]))
        if p[0] == "d":
            d = list(v.args[0].args[0])
            e = d[p[1]]
            d[p[1]] = (e[0], self.set_slot(e[1], rest, x), e[2])
            return mk("hdict", mk("dict", tuple(d)), *v.args[1:])
        if p[0] == "t":
            c = list(v.args)
            c[p[1]] = self.set_slot(c[p[1]], rest, x)
            return mk("tup", *c)
        if p[0] == "r":
            c = list(v.args[1])
            c[p[1]] = (c[p[1]][0], self.set_slot(c[p[1]][1], rest, x))
            return mk("rec", v.args[0], tuple(c))
        raise AnalysisError("slot")

    def kind_of(self, v, path):
        if path and path[-1] in ("list", "iter", "set"):
            return "seq"
        if path and path[-1] in ("dict", "dlist"):
            return "dict"
        if v is UNBOUND or v is None:
            return "any"
        if t.is_face(v):
            return "face"
        if numeric(v):
            if t.is_int(v):
                return "nat" if t.nonneg(v) else "int"
            return "real"
        if is_seq(v):
            return "seq"
        return "any"

    def snapshot(self):
        return len(self.events), len(self.handlers[-1].raises)

    def run_body(self, st, pre, bind, body, node):
        """one symbolic pass; returns (outs, breaks, returns, raises)"""
        self.st = st
        m = self.mark()
        c = Ctl("loop", len(self.pc))
        h = Handler(len(self.pc))
        self.ctls.append(c)
        self.handlers.append(h)
        nev = len(self.events)
        fb = self.fact_base
        outs = []
        brk = []
        try:
            self.fact(*pre)
            self.fact_base = fb + [(list(t.CTX.facts), dict(t.CTX.known), len(self.pc))]
            bind()
            body(brk)
            outs.append((self.guard(m[0]), None, self.st))
        except Halt:
            pass
        finally:
            self.ctls.pop()
            self.handlers.pop()
            self.fact_base = fb
        outs += c.conts
        end = None
        g = ZERO
        if outs:
            try:
                # join under the iteration's facts
                self.reset(m)
                self.fact(*pre)
                self.combine(outs)
                end = self.st
                g = self.guard(m[0])
            except Halt:
                end = None
        self.reset(m)
        return end, g, c.breaks + brk, c.returns, h.raises, nev

    allow_split = True

    def need_split(self, x):
        """ask for a case distinction when x is gated by a plain condition on lengths and parameters"""
        if not self.allow_split or x.fv:
            return
        for m, c in t.pdict(t.aspoly(x)).items():
            for a, e in m:
                if t.is_boolatom(a) and not contains(a, NOTPLAIN):
                    raise Split(t.mkpoly({((a, F(1)),): F(1)}))

    def sym_loop(self, L, bind, body, brk_out, m0, node, nested=False):
        L = t.aspoly(L)
        self.need_split(L)
        k = const(L)
        if k is not None and k <= 0:
            return
        if not t.nonneg(L):
            # a bound that may be negative means no iteration
            L = t.max2(L, ZERO)
        self.nloops += 1
        v = fresh("nat")
        vp = t.aspoly(v)
        pre = [vp, sub(L, add(vp, ONE))]
        self.loop_core(L, v, pre, lambda: bind(vp), lambda br: body(vp, br), brk_out, m0, None)

    def loop_core(self, L, v, pre, bind, body, brk_out, m0, cond_fn):
        """common machinery of for (L, v given) and while (cond_fn given) loops"""
        if self.light:
            return self.light_loop(pre, bind, body, brk_out, m0, cond_fn)
        base = self.st
        ref0 = self.nref
        slots = {}  # (key, path) -> [symbol, init]
        kinds = {}
        bounds = {}  # slot -> [(fact, that the next value keeps it)]
        for attempt in range(16):
            st = dict(base)
            for (key, path), (sym, init) in slots.items():
                st[key] = self.set_slot(st.get(key, UNBOUND), path, sym)
            start = dict(st)
            self.nev0 = len(self.events)
            facts = [f for s in bounds for f in bounds[s]]
            if cond_fn is None:
                res = self.run_body(st, pre + facts, bind, body, None)
                condv = None
            else:
                holder = []

                def body2(br):
                    c = t.aspoly(cond_fn())
                    holder.append((c, dict(self.st)))
                    self.push(c)
                    body(br)

                res = self.run_body(st, pre, lambda: None, body2, None)
                condv = holder[-1] if holder else (ONE, start)
            end, g, breaks, returns, raises, nev = res
            if end is None:
                endst = start
            else:
                endst = self.iter_freeze(start, end, ref0)
            new = {}
            states = [endst] + [b[2] for b in breaks]
            if condv is not None:
                states.append(condv[1])
            for es in states:
                for key in es:
                    a, b = start.get(key), es[key]
                    if a is b:
                        continue
                    if key[0] == "h" and key[1].args[0] > ref0:
                        continue
                    if key[0] == "v" and key not in base and key[1] not in self.live_envs():
                        continue
                    for path, ent in self.diff_slots(key, a, b):
                        if (key, path) not in slots:
                            new[(key, path)] = None
            bad = False
            # bounds and lengths assumed of the slots are kept by the iteration
            for s in list(bounds):
                sym, init = slots.get(s, (None, None))
                if sym is None or self.lost_bounds(sym, init, self.get_slot(endst.get(s[0], UNBOUND), s[1]), bounds[s], pre + facts, v):
                    bad = True
                    if not kinds.get(s) in ("nat", "int") and sym is not None:
                        slots[s] = [self.newsym(kinds[s]), init]
                    del bounds[s]
            # verify kinds
            for (key, path), (sym, init) in list(slots.items()):
                nk = kinds[(key, path)]
                x = self.get_slot(endst.get(key, UNBOUND), path)
                if x is None:
                    continue
                if bounds.get((key, path)) and nk in ("nat", "int"):
                    continue
                want = self.weaken(nk, x, init, L, v)
                if want != nk:
                    bounds.pop((key, path), None)
                    kinds[(key, path)] = want
                    slots[(key, path)] = [self.newsym(want), init]
                    bad = True
            if not new and not bad:
                break
            del self.events[nev:]
            for key, path in new:
                # a slot inside or above an existing one replaces it
                for k2, p2 in list(slots):
                    if k2 == key and (p2[: len(path)] == path or path[: len(p2)] == p2):
                        del slots[(k2, p2)]
                ent = self.get_slot(base.get(key, UNBOUND), path)
                if ent is None:
                    ent = UNBOUND
                kd = self.kind_of(ent, path)
                kinds[(key, path)] = kd
                sym = self.newsym(kd)
                slots[(key, path)] = [sym, ent]
                if cond_fn is None:
                    b = self.try_bounds(kd, sym, ent, self.get_slot(endst.get(key, UNBOUND), path), pre, v)
                    if b is not None:
                        bounds[(key, path)] = b
        else:
            self.event("opaque-loop", "no fixed point")
            self.st = dict(base)
            for (key, path), (sym, init) in slots.items():
                self.st[key] = self.set_slot(self.st.get(key, UNBOUND), path, unknown("loop"))
            return
        # ---- solve
        nxt = {}
        for s, (sym, init) in slots.items():
            x = self.get_slot(endst.get(s[0], UNBOUND), s[1])
            if x is None:
                x = unknown("shape")
            nxt[s] = x
        if cond_fn is not None:
            self.finish_while(base, slots, nxt, condv, g, end, breaks, returns, raises, brk_out, m0)
            return
        sol = self.solve(slots, nxt, L, v)
        self.finish_for(base, slots, sol, L, v, breaks, returns, raises, brk_out, m0, end is None)

    light = False  # loops forget what they change (for what is decided before them)

    def light_loop(self, pre, bind, body, brk_out, m0, cond_fn):
        base = self.st
        ref0 = self.nref
        gone = {}
        returned = False
        n0 = len(self.events)
        for attempt in range(4):
            st = dict(base)
            st.update(gone)
            start = dict(st)
            if cond_fn is None:
                res = self.run_body(st, pre, bind, body, None)
            else:

                def body2(br):
                    self.push(t.aspoly(cond_fn()))
                    body(br)

                res = self.run_body(st, pre, lambda: None, body2, None)
            end, g, breaks, returns, raises, nev = res
            returned = returned or bool(returns)
            new = False
            for es in ([self.iter_freeze(start, end, ref0)] if end is not None else []) + [b[2] for b in breaks]:
                for key, b in es.items():
                    a = start.get(key)
                    if a is b or key in gone or key[0] == "h" and key[1].args[0] > ref0:
                        continue
                    if key[0] == "v" and key not in base and key[1] not in self.live_envs():
                        continue
                    new = True
                    gone[key] = self.havoc_obj(a) if key[0] == "h" and a is not None else unknown("loop")
            if not new:
                break
        self.events[n0:] = list(dict.fromkeys(self.events[n0:]))
        self.st = dict(base)
        self.st.update(gone)
        if returned:
            up = self.ctls[-1]
            up.returns.append((and_(self.guard(up.base), t.aspoly(unknown("loop exit"))), unknown("loop"), dict(self.st)))

    def try_bounds(self, kind, sym, init, x, pre, v):
        """facts worth trying for a new slot, given its value after a first iteration from the initial one"""
        if x is None or init is UNBOUND or x is UNBOUND:
            return None
        if kind in ("nat", "int") and numeric(x) and numeric(init) and const(t.aspoly(init)) is not None and v in x.fv and x.size < 4000:
            vp = t.aspoly(v)
            b = [sub(t.aspoly(sym), init), sub(add(vp, init), t.aspoly(sym))]
            return b if not self.lost_bounds(sym, init, x, b, pre, v) else None
        if kind == "seq" and x.size < 4000 and is_seq(x) and is_seq(init):
            L = t.length(init)
            if t.length(x) is L and not L.fv:
                t.LENS[sym] = L
                return []
        return None

    def lost_bounds(self, sym, init, x, facts, pre, v):
        if x is None or x is UNBOUND:
            return True
        if not facts:
            return not is_seq(x) or t.length(x) is not t.length(init)
        if not numeric(x) or not t.is_int(x):
            return True
        vp = t.aspoly(v)
        with t.assume(pre):
            return not (self.nonneg_cases(sub(t.aspoly(x), init)) and self.nonneg_cases(sub(add(vp, ONE, init), t.aspoly(x))))

    def nonneg_cases(self, p, depth=4):
        if t.nonneg(p):
            return True
        d = t.pdict(p)
        atoms = [a for m in d for a, e in m if t.is_boolatom(a)]
        if not atoms or not depth:
            return False
        b = atoms[0]
        bp = t.mkpoly({((b, F(1)),): F(1)})
        for val, c in ((1, bp), (0, t.not_(bp))):
            q = {}
            for m, co in d.items():
                if any(a is b for a, e in m):
                    if not val:
                        continue
                    m = tuple((a, e) for a, e in m if a is not b)
                q[m] = q.get(m, 0) + co
            with t.assume([c]):
                if not self.nonneg_cases(t.mkpoly({m: co for m, co in q.items() if co}), depth - 1):
                    return False
        return True

    def live_envs(self):
        out = set()
        for e in self.env_stack:
            while e is not None:
                out.add(e)
                e = self.envparent[e]
        return out

    def newsym(self, kind):
        return fresh(kind)

    def weaken(self, kind, x, init, L, v):
        if kind in ("nat", "int", "real"):
            if x is UNBOUND:
                return kind
            if not numeric(x):
                return "any"
            if kind == "nat":
                if t.is_int(x) and t.nonneg(x):
                    return "nat"
                kind = "int"
            if kind == "int":
                return "int" if t.is_int(x) else "real"
            return kind
        if kind == "face":
            return "face" if t.is_face(x) else "any"
        if kind == "any" and init is UNBOUND:
            return "any"
        return kind

    def iter_freeze(self, start, end, ref0):
        """end-of-iteration state with objects born in the iteration stored by value"""
        out = dict(end)
        for key, val in end.items():
            a = start.get(key)
            if a is val:
                continue
            if key[0] == "h" and key[1].args[0] > ref0:
                continue
            if key[0] == "v" and val.op in ("ref", "ite") and a is not None and a.op == "ref":
                # a variable whose object is replaced: keep one identity
                if val.op == "ref" and val.args[0] <= ref0:
                    continue
                rs = refs_in(val)
                if val.op == "ref" or all(True for _ in rs):
                    o = self.obj_of(val, end)
                    if o is not None and o.op in HEAPOPS:
                        if self.shared(a, start, key):
                            self.event("opaque-alias", str(key[2]))
                            out[("h", a)] = self.havoc_obj(o)
                        else:
                            out[("h", a)] = self.freeze(o, end, ref0)
                        out[key] = a
                        continue
            if contains(val, REFOPS):
                out[key] = self.freeze(val, end, ref0)
        return out

    def havoc_obj(self, o):
        if o.op == "list":
            return mk("list", unknown("alias"))
        if o.op == "hdict":
            return mk("hdict", unknown("alias"), *o.args[1:])
        return unknown("alias")

    def shared(self, ref, st, key):
        n = 0
        for k, v in st.items():
            if k == key or k[0] == "v" and k[1] not in self.live_envs():
                continue
            if contains(v, REFOPS) and ref in refs_in(v):
                return True
        return False

    def obj_of(self, v, st):
        if v.op == "ref":
            return st.get(("h", v))
        if v.op == "ite":
            a, b = self.obj_of(v.args[1], st), self.obj_of(v.args[2], st)
            if a is None or b is None:
                return None
            return self.merge_val(v.args[0], a, b)
        if v.op in HEAPOPS:
            return v
        return None

    def freeze(self, v, st=None, ref0=-1, seen=()):
        """replace references (younger than ref0) by the objects' contents"""
        st = self.st if st is None else st
        if not contains(v, REFOPS):
            return v
        m = {}
        for r in refs_in(v):
            if r.args[0] > ref0:
                if r in seen:
                    m[r] = unknown("cyclic")
                    continue
                o = st.get(("h", r))
                if o is None:
                    m[r] = unknown("dangling")
                else:
                    if o.op == "lazy":
                        m[r] = o
                    else:
                        m[r] = self.freeze(o, st, ref0, seen + (r,))
        if not m:
            return v
        return t.subst(v, m)

    def deps(self, x, syms):
        return {s for s in x.fv if s in syms}

    def solve(self, slots, nxt, L, v):
        syms = {sym: s for s, (sym, init) in slots.items()}
        sol = {}  # slot -> term in v (value at the start of iteration v)
        todo = dict(nxt)
        vp = t.aspoly(v)
        while todo:
            progress = True
            while todo and progress:
                progress = False
                for s in list(todo):
                    sym, init = slots[s]
                    m = {slots[q][0]: sol[q] for q in sol}
                    with t.assume([vp, sub(L, add(vp, ONE))]):
                        x = t.subst(todo[s], m) if self.deps(todo[s], set(syms) & set(m)) else todo[s]
                    x = t.steps(x)
                    todo[s] = x
                    d = self.deps(x, syms)
                    d = {q for q in d if syms[q] not in sol}
                    if not d:
                        sol[s] = self.lastvalue(x, init, v)
                    elif d == {sym}:
                        r = self.closed(sym, init, x, v, s)
                        if r is None:
                            continue
                        sol[s] = r
                    else:
                        continue
                    del todo[s]
                    progress = True
            if not todo:
                break
            # a strongly connected group, folded jointly
            grp = self.groups(todo, slots, syms, sol)[0]
            j = fresh("nat")
            if len(grp) > 1:
                rank = t.colours({slots[s][0]: (slots[s][1], todo[s]) for s in grp})
                grp = sorted(grp, key=lambda s: rank.index(slots[s][0]))
            vs = [slots[s][0] for s in grp]
            nx = [t.subst(todo[s], {v: t.aspoly(j)}) for s in grp]
            bodyt = mk("tup", *[t.aspoly(x) if numeric(x) else x for x in nx])
            lam = t.mklam([j] + vs, bodyt)
            inits = mk("tup", *[slots[s][1] for s in grp])
            f = mk("fold", vp, lam, inits)
            for i, s in enumerate(grp):
                kd = slots[s][0].args[1]
                sol[s] = mk("proj", f, i, kd)
            for s in grp:
                del todo[s]
        return sol

    def groups(self, todo, slots, syms, sol):
        """dependency-ordered strongly connected groups"""
        dep = {}
        for s, x in todo.items():
            dep[s] = [syms[q] for q in self.deps(x, syms) if syms[q] in todo]
        idx, low, st, on, out = {}, {}, [], set(), []
        n = [0]

        def sc(u):
            idx[u] = low[u] = n[0]
            n[0] += 1
            st.append(u)
            on.add(u)
            for w in dep[u]:
                if w not in idx:
                    sc(w)
                    low[u] = min(low[u], low[w])
                elif w in on:
                    low[u] = min(low[u], idx[w])
            if low[u] == idx[u]:
                comp = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    comp.append(w)
                    if w == u:
                        break
                order = list(todo)
                out.append(sorted(comp, key=order.index))

        for s in todo:
            if s not in idx:
                sc(s)
        return out

    def lastvalue(self, x, init, v):
        vp = t.aspoly(v)
        if v not in x.fv and x is init:
            return init
        with t.assume([sub(vp, ONE)]):
            prev = t.subst(x, {v: sub(vp, ONE)}) if v in x.fv else x
        if init is UNBOUND:
            return mk("ite", gt0(vp), prev, UNBOUND)
        if contains(prev, frozenset(["unbound"])):
            return prev
        return ite(ge0(sub(vp, ONE)), prev, init)

    def closed(self, X, init, x, v, slot):
        """closed form of X' = x(X, v), X(0) = init"""
        j = fresh("nat")
        vp = t.aspoly(v)
        path = slot[1]

        def at(e):
            return t.subst(e, {v: t.aspoly(j)})

        pre = [t.aspoly(j), sub(vp, add(t.aspoly(j), ONE))]
        if numeric(X) and numeric(x) and init is not UNBOUND and numeric(init):
            d = sub(x, t.aspoly(X))
            if X not in d.fv:
                with t.assume(pre):
                    b = at(d)
                return add(init, sum_(vp, j, b))
            if X.args[1] in ("nat", "int", "real"):
                # running maximum/minimum
                for a in _abs_atoms(x, X):
                    g = sub(a, t.aspoly(X))
                    g2 = add(a, t.aspoly(X))
                    for cand in (t.neg(g), g2):
                        if X in cand.fv:
                            continue
                        for sgn, f in ((1, t.max2), (-1, t.min2)):
                            if f(t.aspoly(X), cand) is x:
                                with t.assume(pre):
                                    b = at(cand)
                                return t.maxi(vp, j, b, init, sgn)
            # boolean or / and
            if t.is_boolpoly(init):
                w0 = t.subst(x, {X: ZERO})
                w1 = t.subst(x, {X: ONE})
                if w1 is ONE and t.is_boolpoly(w0):
                    with t.assume(pre):
                        b = at(w0)
                    return or_(init, gt0(sum_(vp, j, b)))
                if w0 is ZERO and t.is_boolpoly(w1):
                    with t.assume(pre):
                        b = at(not_(w1))
                    return and_(init, eq0(sum_(vp, j, b)))
            return None
        if path and path[-1] in ("list", "iter") or X.args[1] == "seq":
            s = self.cat_tail(x, X)
            if s is not None:
                with t.assume(pre):
                    b = at(s)
                return t.cat(init, t.flat(vp, j, b)) if init is not UNBOUND else None
            r = self.pointwise(x, X, init, v)
            if r is not None:
                return r
            r = self.list_tally(x, X, init, v, j)
            if r is not None:
                return r
            return None
        if path and path[-1] == "dict" or X.args[1] == "dict":
            r = self.dict_update(x, X)
            if r is not None:
                kind, k, w, c = r
                with t.assume(pre):
                    b = at(mk("tup", k, w, c))
                lam = t.mklam([j], b)
                return mk(kind, init, vp, lam)
            return None
        return None

    def cat_tail(self, x, X):
        """s with x = X ++ s"""
        if x is X:
            return seq()
        if x.op == "cat" and x.args[0] is X:
            r = t.cat(*x.args[1:])
            return r if X not in r.fv else None
        if x.op == "ite":
            a = self.cat_tail(x.args[1], X)
            b = self.cat_tail(x.args[2], X)
            if a is None or b is None or X in x.args[0].fv:
                return None
            return ite(x.args[0], a, b)
        return None

    def pointwise(self, x, X, init, v):
        """X' differs from X at most at v, by a value that reads X at v only"""
        if init is UNBOUND or X is x:
            return None
        vp = t.aspoly(v)
        old = index(X, vp)

        def leaf(y):
            if y is X:
                return old
            if y.op == "lset" and y.args[0] is X and t.aspoly(y.args[1]) is vp:
                return y.args[2]
            if y.op == "ite":
                a, b = leaf(y.args[1]), leaf(y.args[2])
                if a is None or b is None:
                    return None
                return ite(y.args[0], a, b)
            return None

        e = leaf(x)
        if e is None:
            return None
        if X in e.fv:
            oa = old
            if old.op == "poly":
                d = t.pdict(old)
                if len(d) == 1:
                    (m, c), = d.items()
                    if c == 1 and len(m) == 1 and m[0][1] == 1:
                        oa = m[0][0]
            cell = fresh(self.elem_kind(oa))
            e = self.replaced(e, oa, cell)
            if X in e.fv:
                return None
        else:
            cell = None
        n = length(init)
        k = fresh("nat")
        kp = t.aspoly(k)
        with t.assume([kp, sub(n, add(kp, ONE))]):
            was = index(init, kp)
            m = {v: kp}
            if cell is not None:
                m[cell] = was
            new = t.subst(e, m)
            return t.arr(n, k, ite(t.gt0(sub(vp, kp)), new, was))

    def elem_kind(self, x):
        return x.args[2] if x.op == "idx" else "any"

    def replaced(self, x, old, new, memo=None):
        memo = {} if memo is None else memo
        r = memo.get(x)
        if r is None:
            r = new if x is old else t._rebuild(x, lambda y: self.replaced(y, old, new, memo))
            memo[x] = r
        return r

    def list_tally(self, x, X, init, v, j):
        # X[i] += w over a symbolic-length list
        c = ONE
        y = x
        if y.op == "ite" and y.args[2] is X:
            c, y = y.args[0], y.args[1]
        if y.op == "lset" and y.args[0] is X:
            i, val = y.args[1], y.args[2]
            old = index(X, i)
            if numeric(val) or True:
                w = sub(t.aspoly(val), t.aspoly(old))
                if X not in w.fv and X not in i.fv and X not in c.fv and init is not UNBOUND:
                    k = fresh("nat")
                    vp = t.aspoly(v)
                    jj = t.aspoly(j)
                    n = length(init)
                    with t.assume([t.aspoly(k), sub(n, add(t.aspoly(k), ONE)), jj, sub(vp, add(jj, ONE))]):
                        body = t.subst(mul(c, w, eq0(sub(i, t.aspoly(k)))), {v: jj})
                        e = add(t.aspoly(index(init, t.aspoly(k))), sum_(vp, j, body))
                    return t.arr(n, k, e)
        return None

    def dict_update(self, x, X):
        c = ONE
        if x.op == "ite" and x.args[2] is X:
            c, x = x.args[0], x.args[1]
        elif x.op == "ite" and x.args[1] is X:
            c, x = not_(x.args[0]), x.args[2]
        if x.op == "dset" and x.args[0] is X:
            k, val = x.args[1], x.args[2]
            if X in k.fv or X in c.fv:
                return None
            if X not in val.fv:
                return "scat", k, val, c
            if numeric(val):
                w = sub(val, t.aspoly(mk("dget", X, k, ZERO)))
                if X not in w.fv:
                    return "tally", k, w, c
            if val.op == "list":
                old = mk("dget", X, k, mk("list", seq()))
                tail = self.cat_tail(val.args[0], mk("lcontent", old))
                if tail is not None and X not in tail.fv:
                    return "dgroup", k, tail, c
        return None

    def finish_for(self, base, slots, sol, L, v, breaks, returns, raises, brk_out, m0, dead):
        symmap = {slots[s][0]: sol[s] for s in slots}

        def inst(e, at_):
            e = t.subst(e, symmap)
            return t.subst(e, {v: at_}) if v in e.fv else e

        # final values
        fin = dict(base)
        for (key, path), val in sol.items():
            x = t.subst(val, {v: L}) if v in val.fv else val
            if x.op == "ite" and x.args[2] is UNBOUND and const(x.args[0]) == 1:
                x = x.args[1]
            if x.op == "ite" and (x.args[2] is UNBOUND or x.args[1] is UNBOUND) and const(x.args[0]) is not None:
                x = x.args[1] if const(x.args[0]) else x.args[2]
            fin[key] = self.set_slot(fin.get(key, UNBOUND), path, t.steps(x))
        # raises: some iteration raises
        for g, exc, st, pos in raises:
            gg = t.subst(g, symmap)
            some = gt0(sum_(L, v, t.aspoly(gg)))
            e = exc
            if exc.fv and (v in exc.fv or any(q in exc.fv for q in symmap)):
                e = self.exc(self.exc_class(exc)[0]) if self.exc_class(exc) else exc
            self.st = dict(base)
            self.throw(e, some)
        exits = [("b",) + tuple(b) for b in breaks] + [("r",) + tuple(r) for r in returns]
        if not exits:
            self.st = fin
            if dead:
                self.push(eq0(L))
            return
        gs = [t.aspoly(t.subst(e[1], symmap)) for e in exits]
        anyg = or_(*gs)
        if L is not None and not contains(anyg, UNKOPS):
            some = gt0(sum_(L, v, anyg))
            lam = t.mklam([v], anyg)
            first = t.first(L, lam)
        else:
            some = t.aspoly(unknown("loop exit"))
            first = t.aspoly(unknown("loop exit"))
        pre = self.guard(m0)
        m = self.mark()
        for (kind, g, val, st), gg in zip(exits, gs):
            at_ = t.subst(gg, {v: first}) if len(exits) > 1 else ONE
            gabs = and_(some, at_)
            s2 = dict(base)
            for key, x in st.items():
                if base.get(key) is x:
                    continue
                if key[0] == "h" and key[1].args[0] > 0 and key not in base:
                    s2[key] = inst(x, first)
                    continue
                if any(key == q[0] for q in slots) or key not in base:
                    s2[key] = inst(x, first)
            if kind == "b":
                brk_out.append((and_(pre, gabs), None, s2))
            else:
                up = self.ctls[-1]
                up.returns.append((and_(self.guard(up.base), gabs), inst(val, first) if val is not None else None, s2))
        self.st = fin
        self.push(not_(some))

    def s_While(self, s):
        m0 = len(self.pc)
        brk = []
        ended = False
        self.nloops += 1
        try:
            if not self.try_unroll_while(s, brk, m0):
                self.loop_core(
                    None, None, [], None, lambda br: self.exec_block(s.body), brk, m0,
                    lambda: self.truth(self.ev(s.test)),
                )
            self.exec_block(s.orelse)
        except Halt:
            ended = True
        if brk:
            outs = list(brk)
            if not ended:
                outs.append((self.guard(m0), None, self.st))
            self.trim(m0)
            self.combine(outs)
        elif ended:
            raise Halt()

    def try_unroll_while(self, s, brk, m0):
        """a while loop whose condition stays a known constant is simply run"""
        snap = dict(self.st)
        nev = len(self.events)
        m = self.mark()
        nb = len(brk)
        up = self.ctls[-1]
        nr = len(up.returns)
        hr = len(self.handlers[-1].raises)

        def undo():
            self.reset(m)
            self.st = dict(snap)
            del self.events[nev:]
            del brk[nb:]
            del up.returns[nr:]
            del self.handlers[-1].raises[hr:]

        for i in range(40):
            c = const(t.aspoly(self.truth(self.ev(s.test))))
            if c is None:
                undo()
                return False
            if c == 0:
                return True
            try:
                self.iteration(lambda: self.exec_block(s.body), brk, m0)
            except Halt:
                raise
        undo()
        return False

    def finish_while(self, base, slots, nxt, condv, g, end, breaks, returns, raises, brk_out, m0):
        cond, cst = condv
        order = list(slots)
        syms = {slots[s][0]: s for s in order}
        # counted loops
        if not breaks and not returns and not raises and end is not None and const(cond) is None:
            for s in order:
                sym, init = slots[s]
                if sym.args[1] not in ("nat", "int") or not numeric(init):
                    continue
                step = const(sub(nxt[s], t.aspoly(sym)))
                if not step:
                    continue
                cnt = self.trip_count(cond, sym, init, step, syms)
                if cnt is None:
                    continue
                v = fresh("nat")
                vp = t.aspoly(v)
                sol0 = add(init, t.scale(vp, step))
                # re-solve the others with the counter known
                sl2 = {q: slots[q] for q in order}
                nx2 = {q: t.subst(nxt[q], {sym: sol0}) for q in order if q != s}
                rest = {q: slots[q] for q in order if q != s}
                sol = self.solve(rest, nx2, cnt, v)
                sol[s] = sol0
                self.finish_for(base, slots, sol, cnt, v, [], [], [], brk_out, m0, False)
                return
        if end is None and not breaks and not returns:
            # body never completes: the loop runs at most up to the first raise
            pass
        if breaks or returns or raises:
            exits = [("b",) + tuple(b) for b in breaks] + [("r",) + tuple(r) for r in returns] + [
                ("x", r[0], r[1], r[2]) for r in raises
            ]
        else:
            exits = []
        stay = and_(cond, g) if exits else cond
        if not order:
            # no state changes: either never entered or endless
            self.st = dict(base)
            if not exits:
                self.push(not_(cond))
            else:
                for kind, gg, val, st in exits:
                    if kind == "b":
                        brk_out.append((and_(self.guard(m0), gg), None, st))
                    elif kind == "r":
                        up = self.ctls[-1]
                        up.returns.append((and_(self.guard(up.base), gg), val, st))
                    else:
                        hh = self.handlers[-1]
                        hh.raises.append((and_(self.guard(hh.base), gg), val, st, self.here()))
                self.push(not_(cond))
            return
        # for each variable, the loop reduced to what it and the condition depend on
        syms = {slots[s][0]: s for s in order}
        stay = t.aspoly(stay)
        rank = t.colours({slots[s][0]: (slots[s][1], nxt[s]) for s in order})
        order2 = [syms[x] for x in rank]
        symmap = {}
        made = {}
        for s in order:
            need = {s}
            work = [nxt[s], stay]
            while work:
                for x in self.deps(work.pop(), syms):
                    if syms[x] not in need:
                        need.add(syms[x])
                        work.append(nxt[syms[x]])
            sub_ = tuple(q for q in order2 if q in need)
            w = made.get(sub_)
            if w is None:
                vs = [slots[q][0] for q in sub_]
                lamc = t.mklam(vs, stay)
                lamn = t.mklam(vs, mk("tup", *[t.aspoly(nxt[q]) if numeric(nxt[q]) else nxt[q] for q in sub_]))
                w = made[sub_] = mk("while", lamc, lamn, mk("tup", *[slots[q][1] for q in sub_]))
            symmap[slots[s][0]] = mk("proj", w, sub_.index(s), slots[s][0].args[1])
        fin = dict(base)
        for s in order:
            fin[s[0]] = self.set_slot(fin.get(s[0], UNBOUND), s[1], symmap[slots[s][0]])
        pre = self.guard(m0)
        if not exits:
            self.st = fin
            return
        total = ZERO
        for kind, gg, val, st in exits:
            ga = t.subst(t.aspoly(gg), symmap)
            s2 = dict(base)
            for key, x in st.items():
                if base.get(key) is not x:
                    s2[key] = t.subst(x, symmap)
            if kind == "b":
                brk_out.append((and_(pre, ga), None, s2))
            elif kind == "r":
                up = self.ctls[-1]
                up.returns.append((and_(self.guard(up.base), ga), t.subst(val, symmap) if val is not None else None, s2))
            else:
                hh = self.handlers[-1]
                hh.raises.append((and_(self.guard(hh.base), ga), t.subst(val, symmap), s2, self.here()))
            total = or_(total, ga)
        self.st = fin
        self.push(not_(total) if const(cond) != 1 else ZERO)

    def trip_count(self, cond, sym, init, step, syms):
        d = t.pdict(cond)
        at, negd = None, False
        if len(d) == 1:
            (m, c), = d.items()
            if c == 1 and len(m) == 1:
                at = m[0][0]
        elif len(d) == 2 and d.get(()) == 1:
            for m, c in d.items():
                if m != () and c == -1 and len(m) == 1:
                    at, negd = m[0][0], True
        if at is None or at.op not in ("ge0", "gt0"):
            return None
        p = at.args[0]
        strict = at.op == "gt0"
        if negd:
            p, strict = t.neg(p), not strict
        if strict:
            if not t.is_int(p):
                return None
            p = sub(p, ONE)
        pd = t.pdict(p)
        a = pd.get(((sym, F(1)),))
        if a is None or a * step >= 0:
            return None
        rest = sub(p, t.mkpoly({((sym, F(1)),): a}))
        if any(q in rest.fv for q in syms):
            return None
        # rest + a*(init + step*k) >= 0
        num_ = add(rest, t.scale(init, a))
        cnt = add(t.floor_(t.scale(num_, F(-1) / (a * step))), ONE)
        return cnt if t.nonneg(cnt) else t.max2(cnt, ZERO)

    # -------------------------------------------------------------- expressions
    def ev(self, e):
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            self.event("unsupported-expr", type(e).__name__)
            return unknown(type(e).__name__)
        self.stack.append((self.stack[-1][0], e))
        try:
            return f(e)
        finally:
            self.stack.pop()

    def ev_index(self, s):
        if isinstance(s, ast.Slice):
            return mk(
                "slice",
                NONE if s.lower is None else self.ev(s.lower),
                NONE if s.upper is None else self.ev(s.upper),
                NONE if s.step is None else self.ev(s.step),
            )
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            return mk("tup", *[self.ev_index(x) for x in s.elts])
        return self.ev(s)

    def e_Slice(self, e):
        return self.ev_index(e)

    def e_Constant(self, e):
        v = e.value
        if v is None:
            return NONE
        if v is True:
            return ONE
        if v is False:
            return ZERO
        if isinstance(v, int):
            return num(v)
        if isinstance(v, float):
            return num(F(repr(v))) if v == v and abs(v) != float("inf") else mk("app", "inf")
        if isinstance(v, str):
            return string(v)
        if isinstance(v, bytes):
            return mk("bytes", v.decode("latin1"))
        if v is Ellipsis:
            return t.ELLIPSIS
        return unknown("constant")

    def e_Name(self, e):
        v = self.lookup(e.id)
        if v is None:
            self.throw(self.exc("NameError", string(e.id)))
        return v

    def e_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return mk("tup", *self.star_items(e.elts)) if self.star_items_ok(e.elts) else unknown("starred")
        return mk("tup", *[self.ev(x) for x in e.elts])

    def star_items_ok(self, elts):
        return True

    def star_items(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.to_seq(self.ev(x.value))
                if s is None or s.op not in ("seq", "tup"):
                    out.append(unknown("starred"))
                else:
                    out += list(s.args)
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            parts = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    s = self.to_seq(self.ev(x.value))
                    parts.append(self.plain(s) if s is not None else unknown("starred"))
                else:
                    parts.append(seq(self.ev(x)))
            return self.alloc(mk("list", t.cat(*parts)))
        return self.alloc(mk("list", seq(*[self.ev(x) for x in e.elts])))

    def e_Set(self, e):
        return self.alloc(mk("set", seq(*[self.ev(x) for x in e.elts])))

    def e_Dict(self, e):
        d = mk("dict", ())
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v)
                d = self.dict_merge(d, o)
                continue
            kv = self.ev(k)
            d = self.dset(d, kv, self.ev(v))
        return self.alloc(mk("hdict", d, NONE, "dict"))

    def dict_merge(self, d, o):
        ob = self.deref(o)
        if ob.op == "hdict" and ob.args[0].op == "dict":
            for k, v, p in ob.args[0].args[0]:
                if const(p) == 1:
                    d = self.dset(d, k, v)
                else:
                    d = self.merge_dict(p, self.dset(d, k, v), d)
            return d
        return unknown("dict merge")

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)

        def go(i):
            a = self.ev(e.values[i])
            if i == len(e.values) - 1:
                return a
            c = t.aspoly(self.truth(a))
            if isand:
                return self.fork(c, lambda: go(i + 1), lambda: a)
            return self.fork(c, lambda: a, lambda: go(i + 1))

        return go(0)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(v))
        if isinstance(e.op, ast.USub):
            return self.elementwise1(v, lambda x: self.arith1(x, t.neg))
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            if v.op in ("series", "nd"):
                return self.elementwise1(v, lambda x: not_(self.truth(x)))
            if numeric(v) and t.is_int(v):
                return sub(t.neg(v), ONE)
        return unknown("unary")

    def arith1(self, x, f):
        if t.is_face(x):
            self.event("face-arith", "an element is used as a number")
            return unknown("face")
        if numeric(x):
            return f(x)
        if x.op in ("str", "tup", "seq", "none", "cls", "clo", "builtin"):
            self.throw(self.exc("TypeError"))
        return f(x) if x.op in ("ite", "dget", "idx", "proj", "fresh", "var", "bv", "app") else unknown("arith")

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def e_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        return self.fork(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_Compare(self, e):
        a = self.ev(e.left)

        def go(i, a):
            b = self.ev(e.comparators[i])
            r = self.compare(type(e.ops[i]).__name__, a, b)
            if i == len(e.ops) - 1:
                return r
            c = t.aspoly(self.truth(r))
            return self.fork(c, lambda: go(i + 1, b), lambda: r)

        return go(0, a)

    def e_Call(self, e):
        return self.lib.call_expr(self, e)

    def e_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def e_Subscript(self, e):
        o = self.ev(e.value)
        return self.getitem(o, self.ev_index(e.slice))

    def e_Lambda(self, e):
        a = e.args
        c = Closure(
            e, self.env, self.envmod[self.env], "<lambda>", [self.ev(d) for d in a.defaults],
            [self.ev(d) if d is not None else None for d in a.kw_defaults],
        )
        return self.obj(c, "clo")

    def e_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(string(x.value))
            else:
                parts.append(self.ev(x))
        return self.fstr(parts)

    def fstr(self, parts):
        out = []
        for p in parts:
            if p.op == "fstr":
                ps = p.args
            else:
                ps = (p,)
            for q in ps:
                if q.op == "str" and out and out[-1].op == "str":
                    out[-1] = string(out[-1].args[0] + q.args[0])
                elif q.op == "str" and q.args[0] == "":
                    continue
                else:
                    out.append(q)
        if not out:
            return string("")
        if len(out) == 1 and out[0].op == "str":
            return out[0]
        return mk("fstr", *out)

    def e_FormattedValue(self, e):
        v = self.ev(e.value)
        spec = self.ev(e.format_spec) if e.format_spec is not None else None
        return self.tostr(v, spec, e.conversion)

    def tostr(self, v, spec=None, conv=-1):
        if spec is not None and not (spec.op == "str" and spec.args[0] == ""):
            return mk("app", "format", v, spec)
        if v.op in ("str", "fstr"):
            if conv == 114:
                return mk("app", "repr", v)
            return v
        c = const(v) if v.op == "poly" else None
        if c is not None and c.denominator == 1:
            return string(str(int(c)))
        return mk("app", "str" if conv != 114 else "repr", self.freeze(v))

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        env = self.env
        while self.envkind.get(env) == "comp":
            env = self.envparent[env]
        self.st[("v", env, e.target.id)] = v
        return v

    def e_ListComp(self, e):
        return self.alloc(mk("list", self.comp(e.generators, lambda: self.ev(e.elt))))

    def e_SetComp(self, e):
        return self.alloc(mk("set", self.comp(e.generators, lambda: self.ev(e.elt))))

    def e_GeneratorExp(self, e):
        # the first iterable is evaluated at once, the rest when consumed
        first = self.ev(e.generators[0].iter)
        env = self.env
        mod = self.stack[-1][0]

        def force():
            self.env_stack.append(env)
            self.stack.append((mod, e))
            try:
                return self.comp(e.generators, lambda: self.ev(e.elt), first)
            finally:
                self.stack.pop()
                self.env_stack.pop()

        return self.lazy(force)

    def lazy(self, force):
        k = self.obj(force, "thunk")
        return self.alloc(mk("lazy", k))

    def e_DictComp(self, e):
        s = self.comp(e.generators, lambda: mk("tup", self.ev(e.key), self.ev(e.value)))
        return self.alloc(mk("hdict", self.dict_from_pairs(mk("dict", ()), s), NONE, "dict"))

    def dict_from_pairs(self, d, s):
        if s is None:
            return unknown("dict of unknown")
        if s.op in ("seq", "tup"):
            for p in s.args:
                q = self.to_seq(p)
                if q is None or q.op not in ("seq", "tup") or len(q.args) != 2:
                    return unknown("dict of pairs")
                d = self.dset(d, q.args[0], q.args[1])
            return d
        if s.op == "cat":
            for x in s.args:
                d = self.dict_from_pairs(d, x)
            return d
        if s.op == "ite":
            return self.merge_dict(s.args[0], self.dict_from_pairs(d, s.args[1]), self.dict_from_pairs(d, s.args[2]))
        if s.op == "arr":
            j = fresh("nat")
            e = t.apply(s.args[1], t.aspoly(j))
            if e.op == "tup" and len(e.args) == 2:
                return mk("scat", d, s.args[0], t.mklam([j], mk("tup", e.args[0], e.args[1], ONE)))
        if s.op == "app" and s.args[0] == "ditems":
            if d.op == "dict" and not d.args[0]:
                return s.args[1]
        return unknown("dict of sequence")

    def comp(self, gens, elt, first=None):
        """value of a comprehension as a sequence term"""
        env = self.newenv(self.env, self.envmod[self.env], "comp")
        self.env_stack.append(env)
        key = ("y", env)
        self.st[key] = seq()

        def level(i):
            if i == len(gens):
                v = self.freeze_new(elt())
                self.st[key] = t.cat(self.st[key], seq(v))
                return
            g = gens[i]
            it = first if i == 0 and first is not None else self.ev(g.iter)
            sq = self.to_seq(it)
            if sq is None:
                self.event("opaque-loop", "comprehension")
                self.st[key] = unknown("comprehension")
                return

            def body():
                def conds(j):
                    if j == len(g.ifs):
                        level(i + 1)
                        return
                    c = t.aspoly(self.truth(self.ev(g.ifs[j])))
                    self.fork(c, lambda: conds(j + 1), lambda: None)

                conds(0)

            self.for_seq(sq, lambda e: self.assign(g.target, e), body, None, None)

        try:
            level(0)
            r = self.st.pop(key)
        finally:
            self.env_stack.pop()
        return r

    def freeze_new(self, v):
        return v

    # ---------------------------------------------------------------- generators
    def e_Yield(self, e):
        v = NONE if e.value is None else self.ev(e.value)
        fr = self.gen_key[-1]
        self.st[fr] = t.cat(self.st[fr], seq(self.freeze_yield(v)))
        return NONE

    gen_key = []

    def freeze_yield(self, v):
        return self.freeze(v) if contains(v, REFOPS) and not self.keep_refs else v

    keep_refs = False

    def e_YieldFrom(self, e):
        s = self.to_seq(self.ev(e.value))
        fr = self.gen_key[-1]
        self.st[fr] = t.cat(self.st[fr], self.plain(s) if s is not None else unknown("yield from"))
        return NONE

    def plain(self, s):
        if s.op == "tup":
            return seq(*s.args)
        return s

    # ------------------------------------------------------------------- truth
    def truth(self, v):
        if v.op == "poly":
            return v if t.is_boolpoly(v) else not_(eq0(v))
        if v is NONE:
            return ZERO
        if v.op == "str":
            return ONE if v.args[0] else ZERO
        if t.is_face(v):
            self.event("face-arith", "an element is used as a truth value")
            return t.aspoly(unknown("truth of face"))
        if v.op in ("seq", "tup"):
            return ONE if v.args else ZERO
        if v.op in ("arr", "cat", "flat"):
            return gt0(length(v))
        if v.op == "rec":
            return ONE if v.args[1] else ZERO
        if v.op == "ref" or v.op in HEAPOPS or v.op == "place":
            o = self.deref(v)
            if o.op in ("list", "set"):
                return gt0(length(o.args[0]))
            if o.op == "hdict":
                return gt0(self.dlen(o.args[0]))
            if o.op == "inst":
                for nm in ("__bool__", "__len__"):
                    f = self.find_member(o.args[0], nm)
                    if f is not None and f.op == "clo":
                        return self.truth(self.call(f, [v], {}))
                return ONE
            return ONE
        if v.op in ("clo", "cls", "builtin", "mod", "bound", "obj", "excv", "descr"):
            return ONE
        if v.op in ("series", "nd"):
            self.throw(self.exc("ValueError", string("truth of series")))
        if v.op == "ite":
            return add(mul(v.args[0], self.truth(v.args[1])), mul(not_(v.args[0]), self.truth(v.args[2])))
        if numeric(v):
            p = t.aspoly(v)
            return p if t.is_boolpoly(p) else not_(eq0(p))
        if v.op == "unknown":
            return t.aspoly(mk("truth", v))
        if v.op in ("lib", "libcall"):
            return self.lib.truth_lib(self, v)
        return t.aspoly(mk("truth", v))

    # ---------------------------------------------------------------- operators
    def elementwise1(self, v, f):
        if v.op == "series":
            return mk("series", t.smap(v.args[0], f), v.args[1])
        if v.op == "nd":
            return mk("nd", t.smap(v.args[0], f))
        return f(v)

    def elementwise2(self, a, b, f):
        """broadcasting over series/arrays; None when neither is one"""
        va = a.op in ("series", "nd")
        vb = b.op in ("series", "nd")
        if not va and not vb:
            return None
        op = "series" if a.op == "series" or b.op == "series" else "nd"
        if va and vb:
            sa, sb = a.args[0], b.args[0]
            if length(sa) is not length(sb):
                return unknown("misaligned")
            L = length(sa)
            v = fresh()
            with t.assume([t.aspoly(v), sub(L, add(t.aspoly(v), ONE))]):
                e = f(index(sa, t.aspoly(v)), index(sb, t.aspoly(v)))
            r = t.arr(L, v, e)
        elif va:
            if b.op == "ref" or b.op in ("list", "tup", "seq"):
                c = self.to_seq(b)
                if c is not None:
                    return self.elementwise2(a, mk("nd", c), f)
            r = t.smap(a.args[0], lambda x: f(x, b))
        else:
            r = t.smap(b.args[0], lambda x: f(a, x))
        if op == "series":
            idx = a.args[1] if a.op == "series" else b.args[1]
            return mk("series", r, idx)
        return mk("nd", r)

    def binop(self, op, a, b):
        return self.lib.binop(self, op, a, b)

    def compare(self, op, a, b):
        return self.lib.compare(self, op, a, b)

    # --------------------------------------------------------------------- refs
    def deref(self, v):
        if v.op == "ref":
            return self.st.get(("h", v)) or unknown("dangling")
        if v.op == "place":
            root, k = v.args
            o = self.deref(root)
            r = self.dget_obj(o, k)
            if r.op == "dget" and r.args[2].op == "list" or r.op == "ite" and self.lists(r):
                return mk("list", t.lcontent(r))
            dl = self.dlists(r)
            if dl is not None and r.op in ("dget", "ite"):
                return mk("dlist", t.dlcontent(r), dl)
            return r
        return v

    def dlists(self, r):
        """the default of elements, when every alternative of r is a defaultlist"""
        if r.op == "ite":
            a, b = self.dlists(r.args[1]), self.dlists(r.args[2])
            return a if a is b else None
        if r.op == "dlist":
            return r.args[1]
        if r.op == "dget" and r.args[2].op == "dlist":
            return r.args[2].args[1]
        return None

    def lists(self, r):
        if r.op == "ite":
            return self.lists(r.args[1]) and self.lists(r.args[2])
        return r.op == "list" or r.op == "dget" and r.args[2].op == "list"

    def dget_obj(self, o, k):
        """by-value object stored in a container under k"""
        if o.op == "hdict":
            dflt = self.factory_value(o)
            return self.dget(o.args[0], k, dflt)
        return unknown("place")

    def factory_value(self, o):
        f = o.args[1]
        if f is NONE:
            return None
        v = self.call(f, [], {})
        return self.freeze(v)

    def update(self, v, newobj):
        """replace the object v refers to"""
        if v.op == "ref":
            self.st[("h", v)] = newobj
            return True
        if v.op == "place":
            root, k = v.args
            o = self.deref(root)
            if o.op == "hdict":
                self.update(root, mk("hdict", self.dset(o.args[0], k, newobj), *o.args[1:]))
                return True
        if v.op == "ite":
            self.fork(v.args[0], lambda: self.update(v.args[1], newobj) and None, lambda: self.update(v.args[2], newobj) and None)
            return True
        self.event("lost-update", v.op)
        return False

    def content(self, v):
        o = self.deref(v)
        if o.op in ("list", "set", "iter"):
            return o.args[0]
        if is_seq(o):
            return o
        return None

    def to_seq(self, v):
        """sequence of the elements iterating v gives (consumes iterators)"""
        if v.op == "ref":
            o = self.deref(v)
            if o.op in ("list", "set"):
                return o.args[0] if not o.args[0].op == "unknown" else None
            if o.op == "iter":
                self.st[("h", v)] = mk("iter", seq(), *o.args[1:])
                return o.args[0]
            if o.op == "lazy":
                self.st[("h", v)] = mk("iter", seq(), string("generator"))
                r = self.get(o.args[0])()
                return r if r is not None and r.op != "unknown" else None
            if o.op == "hdict":
                return self.dkeys(o.args[0])
            if o.op == "dlist":
                return self.lib.dlist_seq(self, o)
            if o.op == "inst":
                f = self.find_member(o.args[0], "__iter__")
                if f is not None and f.op == "clo":
                    r = self.call(f, [v], {})
                    return self.to_seq(r) if r is not v else None
                return None
            return None
        if v.op == "place":
            o = self.deref(v)
            return self.to_seq(o) if o.op in HEAPOPS else None
        if v.op in ("list", "set", "iter"):
            return v.args[0]
        if v.op == "lazy":
            return self.get(v.args[0])()
        if v.op == "hdict":
            return self.dkeys(v.args[0])
        if v.op == "dlist":
            return self.lib.dlist_seq(self, v)
        if v.op == "rec":
            return mk("tup", *[x for _, x in v.args[1]])
        if v.op == "str":
            return seq(*[string(c) for c in v.args[0]])
        if v.op in ("fstr", "app"):
            for f in self.lib.TEXTSEQ:
                q = f(self, v)
                if q is not None:
                    return q
        if v.op in ("series", "nd"):
            return v.args[0]
        if v.op == "ite":
            if is_seq(v):
                return v
            c, a, b = v.args
            if a.op in ("rec", "tup", "seq", "ref") or b.op in ("rec", "tup", "seq", "ref"):
                x, y = self.to_seq(a), self.to_seq(b)
                if x is not None and y is not None:
                    return ite(c, x, y)
            return None
        if is_seq(v):
            return v
        r = self.lib.to_seq_lib(self, v)
        if r is not None:
            return r
        return None

    # -------------------------------------------------------------------- dicts
    def hashable_key(self, k):
        if k.op == "ref":
            o = self.deref(k)
            return self.freeze(k)
        if k.op == "rec":
            return mk("tup", *[x for _, x in k.args[1]])
        return k

    def isconstkey(self, k):
        if const(k) is not None and k.op == "poly":
            return True
        if k.op in ("str", "none", "cls", "builtin", "clo"):
            return True
        if k is t.HEADS or k is t.TAILS:
            return True
        if k.op == "tup":
            return all(self.isconstkey(x) for x in k.args)
        return False

    def keyeq(self, a, b):
        """decided equality of dict keys: True/False/None"""
        if a is b:
            return True
        e = t.aspoly(eq(a, b))
        c = const(e)
        if c is not None:
            return c == 1
        return None

    def dset(self, d, k, v):
        k = self.hashable_key(k)
        k = t.steps(k)
        if d.op == "dict":
            ents = d.args[0]
            undecided = []
            for i, (k2, v2, p2) in enumerate(ents):
                q = self.keyeq(k, k2)
                if q is True:
                    new = list(ents)
                    new[i] = (k2, v, ONE)
                    return mk("dict", tuple(new))
                if q is None:
                    undecided.append(i)
            if not undecided:
                if not (self.isconstkey(k) or not ents or numeric(k)):
                    pass
                return mk("dict", ents + ((k, v, ONE),))
            # symbolic key among constant ones
            tot = ZERO
            new = list(ents)
            for i in undecided:
                k2, v2, p2 = ents[i]
                c = t.aspoly(eq(k, k2))
                tot = add(tot, mul(c, p2))
                new[i] = (k2, self.merge_val(c, v, v2), or_(p2, c) if const(p2) != 1 else ONE)
            if const(t.steps(tot)) == 1:
                return mk("dict", tuple(new))
        return mk("dset", d, k, v)

    def dget(self, d, k, default):
        """value under k; default term, or None to raise KeyError"""
        k = self.hashable_key(k)
        k = t.steps(k)
        if d.op == "dict":
            ents = d.args[0]
            undecided = []
            for k2, v2, p2 in ents:
                q = self.keyeq(k, k2)
                if q is True:
                    if const(p2) == 1:
                        return v2
                    if default is None:
                        self.throw(self.exc("KeyError", k), not_(p2))
                        return v2
                    return self.merge_val(p2, v2, default)
                if q is None:
                    undecided.append((k2, v2, p2))
            if not undecided:
                if default is None:
                    self.throw(self.exc("KeyError", k))
                return default
            tot = ZERO
            out = default
            for k2, v2, p2 in reversed(undecided):
                c = and_(t.aspoly(eq(k, k2)), p2)
                tot = add(tot, c)
                out = v2 if out is None else self.merge_val(c, v2, out)
            tot = t.steps(tot)
            if default is None and const(tot) != 1:
                self.throw(self.exc("KeyError", k), not_(tot))
            return out
        if d.op == "dset":
            q = self.keyeq(k, d.args[1])
            if q is True:
                return d.args[2]
            if q is False:
                return self.dget(d.args[0], k, default)
            c = t.aspoly(eq(k, d.args[1]))
            rest = self.dget(d.args[0], k, default if default is not None else unknown("missing key"))
            return self.merge_val(c, d.args[2], rest)
        if d.op == "ite":
            return self.fork(d.args[0], lambda: self.dget(d.args[1], k, default), lambda: self.dget(d.args[2], k, default))
        if default is None:
            has = t.aspoly(mk("dhas", d, k))
            self.throw(self.exc("KeyError", k), not_(has))
            return self.dread(d, k, mk("missing"))
        return self.dread(d, k, default)

    def dread(self, d, k, default):
        if d.op == "tally" and numeric(default):
            return t.dget(d, k, default)
        return mk("dget", d, k, default)

    def dhas(self, d, k):
        k = self.hashable_key(k)
        if d.op == "dict":
            r = ZERO
            for k2, v2, p2 in d.args[0]:
                r = or_(r, and_(t.aspoly(eq(k, k2)), p2))
            return t.steps(r)
        if d.op == "dset":
            return or_(t.aspoly(eq(k, d.args[1])), self.dhas(d.args[0], k))
        if d.op == "ite":
            return ite(d.args[0], self.dhas(d.args[1], k), self.dhas(d.args[2], k))
        if d.op == "tally":
            return t.aspoly(t.dhas(d, k))
        return t.aspoly(mk("dhas", d, k))

    def dkeys(self, d):
        if d.op == "dict":
            return t.cat(*[seq(k) if const(p) == 1 else ite(p, seq(k), seq()) for k, v, p in d.args[0]])
        if d.op == "ite":
            return ite(d.args[0], self.dkeys(d.args[1]), self.dkeys(d.args[2]))
        if d.op == "unknown":
            return None
        return mk("app", "dkeys", d)

    def dvalues(self, d):
        if d.op == "dict":
            return t.cat(*[seq(v) if const(p) == 1 else ite(p, seq(v), seq()) for k, v, p in d.args[0]])
        if d.op == "ite":
            return ite(d.args[0], self.dvalues(d.args[1]), self.dvalues(d.args[2]))
        if d.op == "unknown":
            return None
        return mk("app", "values", d)

    def ditems(self, d):
        if d.op == "dict":
            return t.cat(
                *[seq(mk("tup", k, v)) if const(p) == 1 else ite(p, seq(mk("tup", k, v)), seq()) for k, v, p in d.args[0]]
            )
        if d.op == "ite":
            return ite(d.args[0], self.ditems(d.args[1]), self.ditems(d.args[2]))
        if d.op == "unknown":
            return None
        return mk("app", "ditems", d)

    def dlen(self, d):
        if d.op == "dict":
            return add(ZERO, *[p for k, v, p in d.args[0]])
        s = self.dkeys(d)
        return length(s) if s is not None else t.aspoly(unknown("len"))

    # --------------------------------------------------------------- attributes
    def find_member(self, c, name):
        for x in self.mro(c):
            if x.op == "cls":
                m = self.get(x).members.get(name)
                if m is not None:
                    return m
        return None

    def bind_member(self, m, inst, cls):
        """descriptor protocol"""
        if m.op == "descr":
            kind = m.args[0]
            if kind == "property":
                return self.call(m.args[1], [inst], {}) if inst is not None else m
            if kind == "staticmethod":
                return m.args[1]
            if kind == "classmethod":
                return mk("bound", cls, m.args[1])
        if m.op == "clo" and inst is not None:
            return mk("bound", inst, m)
        return m

    def class_of(self, v):
        o = self.deref(v)
        if o.op in ("inst", "rec"):
            return o.args[0]
        return None

    def getattr(self, v, name, default=None):
        if v.op == "mod":
            r = self.mod_attr(v.args[0], name)
            if r is None:
                if default is not None:
                    return default
                self.throw(self.exc("AttributeError", string(name)))
            return r
        if v.op == "ite":
            c, a, b = v.args
            return self.fork(c, lambda: self.getattr(a, name, default), lambda: self.getattr(b, name, default))
        if v.op == "cls":
            o = self.get(v)
            if name == "__name__":
                return string(o.name)
            m = self.find_member(v, name)
            if m is not None:
                return self.bind_member(m, None, v)
            if o.namedtuple and name == "_fields":
                return mk("tup", *[string(n) for n, _ in o.fields])
            if name in ("_make",):
                return mk("bound", v, string(name))
            if default is not None:
                return default
            r = self.lib.cls_attr(self, v, name)
            if r is not None:
                return r
            self.throw(self.exc("AttributeError", string(name)))
        if v.op == "builtin":
            return self.lib.libname(v.args[0] + "." + name)
        if v.op == "clo":
            if name == "__name__":
                return string(self.get(v).name)
            return mk("bound", v, string(name))
        o = self.deref(v)
        if o.op == "inst":
            f = dict(o.args[1])
            m = self.find_member(o.args[0], name)
            if m is not None and m.op == "descr" and m.args[0] == "property":
                return self.bind_member(m, v, o.args[0])
            if name in f:
                x = f[name]
                if x.op == "ite" and (x.args[1] is UNBOUND or x.args[2] is UNBOUND):
                    x = x.args[1] if x.args[2] is UNBOUND else x.args[2]
                if x is not UNBOUND:
                    return x
            if m is not None:
                return self.bind_member(m, v, o.args[0])
            if name == "__class__":
                return o.args[0]
            if name == "args":
                return f.get("args", mk("tup"))
            r = self.lib.inst_attr(self, v, o, name)
            if r is not None:
                return r
            if default is not None:
                return default
            self.event("missing-attr", f"{self.get(o.args[0]).name}.{name}")
            self.throw(self.exc("AttributeError", string(name)))
        if o.op == "rec":
            f = dict(o.args[1])
            if name in f:
                return f[name]
            m = self.find_member(o.args[0], name)
            if m is not None:
                return self.bind_member(m, v, o.args[0])
            if name in ("_asdict", "_replace", "index", "count"):
                return mk("bound", v, string(name))
            if default is not None:
                return default
            self.event("missing-attr", f"{self.get(o.args[0]).name}.{name}")
            self.throw(self.exc("AttributeError", string(name)))
        r = self.lib.attr(self, v, o, name)
        if r is not None:
            return r
        return mk("bound", v, string(name))

    def setattr(self, v, name, x):
        if v.op == "ite":
            self.fork(v.args[0], lambda: self.setattr(v.args[1], name, x), lambda: self.setattr(v.args[2], name, x))
            return
        o = self.deref(v)
        if o.op == "inst":
            m = self.find_member(o.args[0], name)
            if m is not None and m.op == "descr" and m.args[0] == "property":
                if len(m.args) > 2:
                    self.call(m.args[2], [v, x], {})
                    return
                self.throw(self.exc("AttributeError", string(name)))
            f = [(k, y) for k, y in o.args[1]]
            for i, (k, _) in enumerate(f):
                if k == name:
                    f[i] = (k, x)
                    break
            else:
                f.append((name, x))
            self.update(v, mk("inst", o.args[0], tuple(f)))
            return
        if v.op == "mod":
            m = self.module(v.args[0])
            if m is not None:
                self.st[("v", m.env, name)] = x
                return
        if v.op == "cls":
            self.st[("clsattr", v, name)] = x
            self.event("class-write", name)
            return
        self.lib.set_attr(self, v, o, name, x)

    # -------------------------------------------------------------------- items
    def getitem(self, v, k):
        return self.lib.getitem(self, v, k)

    def setitem(self, v, k, x):
        self.lib.setitem(self, v, k, x)

    def delitem(self, v, k):
        self.lib.delitem(self, v, k)

    def list_extend(self, v, x):
        s = self.to_seq(x)
        o = self.deref(v)
        c = unknown("extend") if s is None else t.cat(o.args[0], self.plain(s))
        self.update(v, mk("list", c))

    # -------------------------------------------------------------------- calls
    def call(self, f, args, kw):
        self.ncalls += 1
        if f.op == "ite":
            c, a, b = f.args
            return self.fork(c, lambda: self.call(a, args, kw), lambda: self.call(b, args, kw))
        if f.op == "clo":
            return self.call_closure(f, args, kw)
        if f.op == "cls":
            return self.instantiate(f, args, kw)
        if f.op == "bound":
            recv, m = f.args
            if m.op == "clo":
                return self.call_closure(m, [recv] + args, kw)
            return self.lib.method(self, recv, m.args[0], args, kw)
        if f.op == "builtin":
            return self.lib.call_builtin(self, f.args[0], args, kw)
        if f.op == "partial":
            fn, pa, pk = f.args
            k2 = dict(pk)
            k2.update(kw)
            return self.call(fn, list(pa) + args, k2)
        if f.op == "descr" and f.args[0] in ("staticmethod",):
            return self.call(f.args[1], args, kw)
        if f.op == "deco":
            return self.lib.apply_deco(self, f, args)
        if f.op == "ref":
            o = self.deref(f)
            if o.op == "inst":
                m = self.find_member(o.args[0], "__call__")
                if m is not None:
                    return self.call(m, [f] + args, kw)
        return self.lib.call_other(self, f, args, kw)

    def bind_args(self, c, args, kw):
        a = c.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        npos = len(pos)
        for n, v in zip(pos, args):
            env[n] = v
        if len(args) > npos:
            if a.vararg:
                env[a.vararg.arg] = mk("tup", *args[npos:])
            else:
                self.throw(self.exc("TypeError", string(f"{c.name} takes {npos} arguments")))
        elif a.vararg:
            env[a.vararg.arg] = mk("tup")
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = []
        for k, v in kw.items():
            if k in pos or k in kwonly:
                if k in env:
                    self.throw(self.exc("TypeError", string(f"multiple values for {k}")))
                env[k] = v
            elif a.kwarg:
                extra.append((string(k), v, ONE))
            else:
                self.event("bad-keyword", f"{c.name}({k}=)")
                self.throw(self.exc("TypeError", string(f"unexpected keyword {k}")))
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(mk("hdict", mk("dict", tuple(extra)), NONE, "dict"))
        nd = len(c.defaults)
        for i, n in enumerate(pos):
            if n not in env:
                j = i - (npos - nd)
                if j >= 0:
                    env[n] = c.defaults[j]
                else:
                    self.event("missing-argument", f"{c.name}({n})")
                    self.throw(self.exc("TypeError", string(f"missing argument {n}")))
        for n, d in zip(kwonly, c.kwdefaults):
            if n not in env:
                if d is None:
                    self.throw(self.exc("TypeError", string(f"missing argument {n}")))
                env[n] = d
        return env

    def call_closure(self, f, args, kw):
        c = self.get(f)
        hook = self.opaque.get((c.module, c.name)) or self.opaque.get((c.module, self.qual(c)))
        if hook is not None:
            r = hook(self, args, kw)
            if r is not None:
                return r
        if self.depth > 60:
            return unknown("recursion")
        if c.cls is not None and c.module == "coinflip._randtests.common.collections":
            k = 2 if c.name.startswith("__") else len(args)
            args = [t.define(x) if numeric(x) and i < k else x for i, x in enumerate(args)]
        vals = self.bind_args(c, args, kw)
        if c.cached:
            key = tuple(self.freeze(x) for x in vals.values())
            if any(self.lib.faced(x) for x in key):
                self.event("cache-faces", c.name)
            slot = ("cached", f, mk("tup", *key))
            if slot in self.st:
                return self.st[slot]
            r = self.run_gen(c, vals) if c.is_gen else self.run_func(c, vals)
            if r is not None and r.op == "ref" and not any(x.kind == "loop" for x in self.ctls):
                self.st[slot] = r
            return r
        if c.is_gen:
            def force():
                return self.run_gen(c, vals)

            return self.lazy(force)
        return self.run_func(c, vals)

    def qual(self, c):
        if c.cls is not None:
            return f"{self.get(c.cls).name}.{c.name}"
        return c.name

    def run_gen(self, c, vals):
        self.nenv += 1
        key = ("y", self.nenv)
        self.st[key] = seq()
        self.gen_key = self.gen_key + [key]
        try:
            self.run_func(c, vals)
        finally:
            self.gen_key = self.gen_key[:-1]
        return self.st.pop(key)

    def run_func(self, c, vals):
        env = self.newenv(c.env, c.module)
        for k, v in vals.items():
            self.st[("v", env, k)] = v
        if isinstance(c.node, ast.Lambda):
            self.env_stack.append(env)
            self.stack.append((c.module, c.node))
            try:
                return self.ev(c.node.body)
            finally:
                self.stack.pop()
                self.env_stack.pop()
        m = self.mark()
        ctl = Ctl("func", len(self.pc))
        self.ctls.append(ctl)
        self.env_stack.append(env)
        self.stack.append((c.module, c.node))
        self.fnstack = self.fnstack + [self.qual(c)]
        self.frames = self.frames + [c]
        self.depth += 1
        done = False
        self.funcs_seen = getattr(self, "funcs_seen", set())
        self.funcs_seen.add((c.module, self.qual(c)))
        try:
            self.exec_block(c.node.body)
            done = True
        except Halt:
            pass
        finally:
            self.depth -= 1
            self.frames = self.frames[:-1]
            self.fnstack = self.fnstack[:-1]
            self.stack.pop()
            self.env_stack.pop()
            self.ctls.pop()
        outs = list(ctl.returns)
        if done:
            outs.append((self.guard(m[0]), NONE, self.st))
        if len(outs) == 1 and const(outs[0][0]) == 1:
            self.reset(m)
            self.st = outs[0][2]
            r = outs[0][1]
        else:
            self.reset(m)
            r = self.combine(outs)
        r = t.steps(r)
        # drop locals (closures may still need them if any was created)
        if not any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)) for x in ast.walk(ast.Module(c.node.body, []))):
            for k in [k for k in self.st if k[0] == "v" and k[1] == env]:
                del self.st[k]
        return r

    def instantiate(self, c, args, kw):
        o = self.get(c)
        mro = self.mro(c)
        nt = None
        for x in mro:
            if x.op == "cls" and self.get(x).namedtuple:
                nt = self.get(x)
        if nt is not None:
            vals = self.bind_fields(o.name, nt.fields, args, kw)
            return mk("rec", c, tuple((n, vals[n]) for n, _ in nt.fields))
        if o.name == "defaultlist" and not self.own_dlist and o.module == "coinflip._randtests.common.collections":
            fac = args[0] if args else kw.get("default_factory", NONE)
            dflt = NONE if fac is NONE else self.freeze(self.call(fac, [], {}))
            return self.alloc(mk("dlist", mk("dict", ()), dflt))
        init = self.find_member(c, "__init__")
        r = self.alloc(mk("inst", c, ()))
        dc = None
        for x in mro:
            if x.op == "cls":
                if self.get(x).dataclass:
                    dc = self.get(x)
                    break
                if "__init__" in self.get(x).members:
                    break
        if dc is not None and (init is None or "__init__" not in dc.members):
            vals = self.bind_fields(o.name, dc.fields, args, kw)
            self.st[("h", r)] = mk("inst", c, tuple((n, vals[n]) for n, _ in dc.fields))
            m, l = self.here()
            self.origin[(o.module, o.name)] = (m, l, self.fnstack[-1] if self.fnstack else "")
            post = self.find_member(c, "__post_init__")
            if post is not None and post.op == "clo":
                self.call(post, [r], {})
            return r
        if init is not None and init.op == "clo":
            self.call(init, [r] + args, kw)
            return r
        # exception or library base
        self.st[("h", r)] = mk("inst", c, (("args", mk("tup", *args)),))
        return r

    def bind_fields(self, name, fields, args, kw):
        vals = {}
        names = [n for n, _ in fields]
        if len(args) > len(names):
            self.event("bad-constructor", f"{name} takes {len(names)} fields, {len(args)} given")
            self.throw(self.exc("TypeError", string(name)))
        for n, v in zip(names, args):
            vals[n] = v
        for k, v in kw.items():
            if k not in names or k in vals:
                self.event("bad-constructor", f"{name}({k}=)")
                self.throw(self.exc("TypeError", string(name)))
            vals[k] = v
        for n, d in fields:
            if n not in vals:
                if d is None:
                    self.event("bad-constructor", f"{name} misses field {n}")
                    self.throw(self.exc("TypeError", string(name)))
                vals[n] = self.lib.field_default(self, d)
        return vals


def _abs_atoms(x, X):
    out = []
    for m, c in t.pdict(x).items():
        for a, e in m:
            if a.op == "abs" and X in a.fv:
                # normalise to coefficient +1 of X
                k = t.pdict(a.args[0]).get(((X, F(1)),))
                if k:
                    out.append(t.scale(a.args[0], F(1) / k))
    return out


# --------------------------------------------------------------------------- small additions


def _list_append(self, ref, x):
    o = self.deref(ref)
    self.update(ref, mk("list", t.cat(o.args[0], seq(x))))
    return None


def _map_loop(self, s, f):
    """[f(e) for e in s] as a sequence term"""
    env = self.newenv(self.env, self.envmod[self.env], "comp")
    self.env_stack.append(env)
    key = ("y", env)
    self.st[key] = seq()
    cell = [None]

    def body():
        v = f(cell[0])
        self.st[key] = t.cat(self.st[key], seq(v))

    try:
        self.for_seq(s, lambda e: cell.__setitem__(0, e), body, None, None)
        return self.st.pop(key)
    finally:
        self.env_stack.pop()


def _filter_loop(self, s, f):
    env = self.newenv(self.env, self.envmod[self.env], "comp")
    self.env_stack.append(env)
    key = ("y", env)
    self.st[key] = seq()
    cell = [None]

    def body():
        e = cell[0]

        def yes():
            self.st[key] = t.cat(self.st[key], seq(e))

        self.fork(t.aspoly(f(e)), yes, lambda: None)

    try:
        self.for_seq(s, lambda e: cell.__setitem__(0, e), body, None, None)
        return self.st.pop(key)
    finally:
        self.env_stack.pop()


def _effect(self, name, *args):
    """ordered trace of observable actions (only kept when asked for)"""
    if not self.trace:
        return
    if not self.quiet:
        self.actions.append((self.guard(0), (name,) + args, tuple(f for f, _ in self.stack)))


def _maybe_raise(self, name):
    """library calls that may fail, for analyses of error paths"""
    f = self.may_raise
    if f is None or self.quiet:
        return
    for exc in f(name):
        self.nraise += 1
        b = mk("bflag", "raises", name, self.nraise)
        self.throw(self.exc(exc), t.aspoly(b))


def _log_call(self, recv, name, args, kw):
    """method of an object of a library class"""
    o = self.deref(recv)
    a = tuple(self.freeze(x) for x in args)
    k = tuple(sorted((n, self.freeze(x)) for n, x in kw.items()))
    if name.startswith("super."):
        name = name[6:]
    h = self.hooks.get(name)
    if h is not None:
        r = h(self, recv, o, args, kw)
        if r is not None:
            return r
    if o.op == "inst":
        f = [(n, x) for n, x in o.args[1]]
        ent = mk("tup", string(name), mk("tup", *a), mk("kw", k))
        for i, (n, x) in enumerate(f):
            if n == "log":
                f[i] = (n, t.cat(x, seq(ent)))
                break
        else:
            f.append(("log", seq(ent)))
        if recv.op == "ref":
            self.st[("h", recv)] = mk("inst", o.args[0], tuple(f))
        cn = o.args[0].args[0] if o.args[0].op == "builtin" else self.get(o.args[0]).name
        self.effect(f"{cn}.{name}", self.freeze(recv) if False else string(cn), *a, *[mk("tup", string(n), x) for n, x in k])
        self.maybe_raise(f"{cn}.{name}")
        return mk("libcall", f"{cn}.{name}", a, k)
    if o.op == "unknown":
        for x in args:
            pass
        return unknown(f"method {name}")
    self.effect("." + name, self.freeze(o), *a, *[mk("tup", string(n), x) for n, x in k])
    self.maybe_raise("." + name)
    return mk("libcall", "." + name, (self.freeze(o),) + a, k)


Interp.list_append = _list_append
Interp.map_loop = _map_loop
Interp.filter_loop = _filter_loop
Interp.effect = _effect
Interp.maybe_raise = _maybe_raise
Interp.log_call = _log_call
Interp.trace = False
Interp.may_raise = None
Interp.nraise = 0
Interp.hooks = {}
Interp.frames = []
