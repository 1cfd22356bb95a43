"""C29: sequences are displayed faithfully."""
import itertools
import re

from checks.c24 import render
from checks.values import pack
from sa import cli, driver, jobs, lib, pairs, terms as t
from sa.cli import fact
from sa.model import H, TL, Model, Undef
from sa.terms import NONE, ONE, ZERO, mk, num, seq, string, var

TECHNIQUE = "abstract interpretation of the display over symbolic sequences; rows compared as slices of the sequence, characters as normal forms"
NOTE = (
    "The characters of a row are decided for every subsequence and every pair of faces (identity of normal forms with the specification); the rows for every "
    "content of sequences of the lengths and terminal widths listed in the evidence (each on both sides of every turning point of the layout), not for all lengths."
)
RULE = (
    "A row's text must have the normal form of: for each element in order the face's own first character, 1 and 0 when the two coincide.  The display of a "
    "sequence of symbolic faces, of given length and terminal width, is run abstractly with a row's text as stand-in: the rows must be slices of the sequence that "
    "follow each other from the first element to the last, all with the sequence's two faces; a gap between two rows must be announced, by a line between "
    "them, with exactly the number of whole rows that fit the gap; nothing is announced without a gap; nothing raises."
)
CP = "coinflip._randtests.common.pprint"
WIDTHS = [80, 79, 40, 21, 12, 10, 9, 8, 5, 1]


def lengths(w):
    inner = max(w - 8, 1)
    out = {2, 3, 1000 // 7, 1009}
    for k in (1, 2, 3, 4, 7, 8, 9, 11, 12, 13, 14, 16, 20, 99, 100, 101, 1000):
        out |= {k * inner + d for d in (-1, 0, 1)}
    return sorted(n for n in out if 2 <= n <= 80000)


def characters(conds):
    """one element one character"""
    out = []
    I = pairs.interp()
    I.trace = True
    cli.load(I, CP, "spec.display")
    f, g = cli.attr(I, CP, "determine_rep"), cli.attr(I, "spec.display", "rep")
    a, b = var("h", "any"), var("t", "any")
    o, p = cli.run(I, f, [a, b]), cli.run(I, g, [a, b])
    x, y = plainly(I, o), plainly(I, p)
    same = x is y and not [e for e in o.ends if t.const(t.aspoly(e[0])) != 0 and e[1][0] not in [z[1][0] for z in p.ends]]
    pos = CP + ".determine_rep"
    pool = ["heads", "tails", "1", "0", "10", "01", "1.0", "0.0", "True", "False", "a", "b", "ab", "A", "-1", "é", "01", "x1", "x0", "00", "11"]
    bad = None
    seen = 0
    for u, v in itertools.permutations(dict.fromkeys(pool), 2):
        want = (u[0], v[0]) if u[0] != v[0] else ("1", "0")
        q = cli.run(I, f, [string(u), string(v)])
        r = plainly(I, q)
        if r is None or r.op not in ("tup", "seq") or len(r.args) != 2:
            continue
        r = tuple(render(z) for z in r.args)
        if None in r:
            continue
        seen += 1
        if r != want:
            bad = bad or "%s and %s are shown as %s and %s" % (u, v, r[0] or "nothing", r[1] or "nothing")
    for u, v in ((1, 0), (1, 10), (0, 1), (7, 8), (25, 2), (-1, 1), (-1, -2)):
        want = (str(u)[0], str(v)[0]) if str(u)[0] != str(v)[0] else ("1", "0")
        r = plainly(I, cli.run(I, f, [num(u), num(v)]))
        if r is not None and r.op in ("tup", "seq") and len(r.args) == 2:
            r = tuple(render(z) for z in r.args)
            if None not in r and len("".join(r)) and not any("." in z for z in r):
                seen += 1
                if r != want:
                    bad = bad or "%s and %s are shown as %s and %s" % (u, v, r[0] or "nothing", r[1] or "nothing")
    out.append(fact("characters", False if bad else True if same else None, bad or ("each face by its first character, 1 and 0 when they coincide" if same else "as specified for %d pairs of faces" % seen), pos))
    # rows
    f, g = cli.attr(I, CP, "pretty_subseq"), cli.attr(I, "spec.display", "row")
    pos = CP + ".pretty_subseq"
    h, l = t.HEADS, t.TAILS
    for what, arg in (("a subsequence", driver.INPUT), ("a tuple of its elements", I.call(mk("builtin", "tuple"), [driver.INPUT], {}))):
        for fh, fl in ((h, l), (l, h)):
            o, p = cli.run(I, f, [arg, fh, fl]), cli.run(I, g, [arg, fh, fl])
            x, y = shown(I, o), plainly(I, p)
            if x is None:
                out.append(fact("row", None, "%s: the text is not understood" % what, pos))
                continue
            if x is not y:
                # with characters of their own the two can be told apart on short subsequences
                rep = lambda I, a, kw: mk("tup", *[string("h" if z is t.HEADS else "t") for z in a])
                keep = dict(I.opaque)
                I.opaque.update({(CP, "determine_rep"): rep, ("spec.display", "rep"): rep})
                x2, y2 = shown(I, cli.run(I, f, [arg, fh, fl])), plainly(I, cli.run(I, g, [arg, fh, fl]))
                I.opaque.clear()
                I.opaque.update(keep)
            else:
                x2, y2 = x, y
            ends = [e for e in o.ends if t.const(t.aspoly(e[0])) != 0]
            ok = True if x is y and not ends else None
            bad = None
            n = 0
            for k in range(1, 6) if x2 is not None and x is not y else ():
                for s in itertools.product((H, TL), repeat=k):
                    m = Model({"n": k, "S": list(s), "heads": H, "tails": TL})
                    try:
                        v = m.settle(x2)
                        w = m.settle(y2)
                    except Undef:
                        continue
                    except (TypeError, ValueError, KeyError, AttributeError, RecursionError):
                        continue
                    n += 1
                    if isinstance(v, str) and v != w:
                        bad = bad or "%s is shown as %s" % (w, v or "nothing")
            out.append(fact("row", False if bad else ok, "%s: %s" % (what, bad or ("one character for each element, in order" if ok else "as specified for %d subsequences" % n)), pos))
    out.append(dict(name="#functions", verdict="info", detail=[CP + ".determine_rep", CP + ".pretty_subseq"]))
    return out


def plainly(I, o):
    if o.value is None:
        return None
    keep = I.st
    I.st = o.state
    try:
        v = I.freeze(o.value)
        return v.args[0] if v.op in ("list", "iter") else v
    finally:
        I.st = keep


def shown(I, o):
    """the string a Text holds"""
    v = plainly(I, o)
    if v is None or v.op != "inst" or not str(v.args[0].args[0]).endswith("Text"):
        return None
    f = dict(v.args[1])
    a = f["args"].args
    if len(a) == 1 and f["log"].args == ():
        return a[0]
    kw = dict(f["kw"].args[0]) if f["kw"].args else {}
    if not a and "text" in kw and f["log"].args == ():
        return kw["text"]
    return None


def spread(v):
    """the items of a sequence term, in order; None if not known"""
    if v.op in ("list", "iter"):
        v = v.args[0]
    if v.op in ("seq", "tup"):
        return list(v.args)
    if v.op == "cat":
        parts = [spread(x) for x in v.args]
        return None if None in parts else [y for x in parts for y in x]
    if v.op in ("flat", "arr"):
        n = t.const(t.aspoly(v.args[0]))
        if n is None or n > 200000:
            return None
        out = []
        for k in range(int(n)):
            try:
                x = t.apply(v.args[1], num(k))
            except Exception:
                return None
            if v.op == "arr":
                out.append(x)
            else:
                y = spread(x)
                if y is None:
                    return None
                out += y
        return out
    return None


def pieces(x):
    """the parts a line is put together from, in order"""
    if x.op == "libcall" and x.args[0] in ("opAdd", "rich.text.Text.assemble", "rich.text.Text.append"):
        return [z for y in x.args[1] for z in pieces(y)]
    if x.op == "inst" and str(x.args[0].args[0]).endswith("Text"):
        f = dict(x.args[1])
        out = list(f["args"].args[:1])
        for e in f["log"].args if f["log"].op in ("seq", "tup") else ():
            out += [z for y in (e.args if isinstance(e, t.T) else ()) if isinstance(y, t.T) for z in pieces(y)]
        return out
    if x.op in ("seq", "tup", "list") and x.op != "str":
        return [z for y in x.args if isinstance(y, t.T) for z in pieces(y)]
    return [x]


def slice_of(x, S, n):
    """(start, length) of a slice of the sequence S of n faces; None if it is none"""
    if x.op == "bound":
        x = x.args[0]
    if x.op == "libcall" and x.args[0].rsplit(".", 1)[-1] in ("array", "to_numpy", "tolist"):
        x = x.args[1][0]
    if x.op in ("list", "iter"):
        x = x.args[0]
    if x.op in ("nd", "series"):
        x = x.args[0]
    if x.op == "input" or x is S:
        return (0, n) if x is S or x.args[0] is S else None
    try:
        k = t.const(t.length(x))
        if k is None:
            return None
        k = int(k)
        if not k:
            return (0, 0)
        at = []
        for i in sorted({0, 1, k // 2, k - 1} & set(range(k))):
            y = t.index(x, num(i))
            z = [u for u in cli.leaves_of(y) if u.op == "idx" and u.args[0] is S]
            if y not in z:
                return None
            at.append((i, int(t.const(t.aspoly(y.args[1])))))
        if any(p - i != at[0][1] for i, p in at):
            return "mixed"
        return at[0][1], k
    except (AttributeError, TypeError, ValueError):
        return None


def layout(w):
    def run(conds):
        out = []
        pos = cli.PPRINT + ".pretty_sequence"
        for n in lengths(w):
            I = cli.start()
            rowed = []

            def row(I, a, kw):
                a = [I.freeze(x) for x in list(a) + [kw[k] for k in ("subseq", "heads", "tails") if k in kw]]
                return mk("libcall", "row", tuple(a), ())

            faces = mk("tup", string("heads"), string("tails"))
            I.opaque[(CP, "pretty_subseq")] = row
            I.opaque[("coinflip._randtests.common.core", "infer_faces")] = lambda I, a, kw: faces
            f = cli.attr(I, cli.PPRINT, "pretty_sequence")
            S = var("S%d" % n, "faces")
            t.LENS[S] = num(n)
            series = mk("input", S, driver.IDX)
            lib.FUNCS["vp.display"] = lambda I, a, kw: I.call(mk("builtin", "list"), [I.call(f, a, {})], {})
            o = cli.run(I, mk("builtin", "vp.display"), [series, num(w)])
            what = "%d elements in %d columns" % (n, w)
            ends = [(g, c, p) for g, c, p in o.ends if t.const(t.aspoly(g)) != 0]
            if ends:
                sure = t.const(t.aspoly(ends[0][0])) == 1
                out.append(fact("display", False if sure else None, "%s: ends in %s" % (what, ends[0][1][0]), "%s:%s" % ends[0][2] if ends[0][2] else pos))
                continue
            v = plainly(I, o)
            lines = None if v is None else spread(v)
            if lines is None:
                out.append(fact("display", None, "%s: the display is not understood" % what, pos))
                continue
            out.append(check(what, lines, S, n, pos, faces.args))
        out.append(dict(name="#functions", verdict="info", detail=[pos, "coinflip._randtests.common.testutils.rawblocks"]))
        return out

    return run


def check(what, lines, S, n, pos, faces):
    """rows follow each other; gaps are announced"""
    at, width, said, gaps = 0, None, [], []
    rows = 0
    order = 0
    for line in lines:
        ps = pieces(line)
        mine = [p for p in ps if p.op == "libcall" and p.args[0] == "row"]
        for p in mine:
            s = slice_of(p.args[1][0], S, n)
            if s is None:
                return fact("rows", None, "%s: a row is not understood" % what, pos)
            if s == "mixed":
                return fact("rows", False, "%s: a row's elements are not in order" % what, pos)
            if len(p.args[1]) == 3 and p.args[1][1:] == tuple(faces)[::-1]:
                return fact("rows", False, "%s: a row's faces are interchanged" % what, pos)
            if len(p.args[1]) != 3 or p.args[1][1:] != tuple(faces):
                return fact("rows", None, "%s: the faces a row is shown with are not understood" % what, pos)
            if width is None:
                width = s[1]
            if s[1] == 0 or s[0] < at:
                return fact("rows", False, "%s: elements from %d on are shown %s" % (what, s[0], "again or out of order" if s[1] else "in an empty row"), pos)
            if s[0] > at:
                gap = s[0] - at
                if len(said) != 1:
                    return fact("rows", False, "%s: %d elements from %d on are left out, %s" % (what, gap, at, "unannounced" if not said else "announced %d times" % len(said)), pos)
                if said[0] is None:
                    return fact("rows", None, "%s: what is announced is not understood" % what, pos)
                if said[0] * width != gap:
                    return fact("rows", False, "%s: %d elements in rows of %d are left out, announced as %d rows" % (what, gap, width, said[0]), pos)
            elif said and said != [0]:
                return fact("rows", False if None not in said else None, "%s: %s rows are announced to be left out where none are" % (what, said[0]), pos)
            said = []
            at = s[0] + s[1]
            rows += 1
        if not mine:
            txt = [text(p) for p in ps]
            if None in txt:
                hidden = [p for p, x in zip(ps, txt) if x is None]
                return fact("rows", None, "%s: a line is not understood: %s" % (what, t.pretty(hidden[0], 3)[:80]), pos)
            ds = re.findall(r"\d+", "".join(txt))
            if ds:
                said.append(int(ds[0]))
    if not rows:
        return fact("rows", None, "%s: no row is recognised" % what, pos)
    if said and said != [0]:
        return fact("rows", None, "%s: rows are announced after the last" % what, pos)
    if at != n:
        return fact("rows", False, "%s: the last %d elements are not shown" % (what, n - at), pos)
    return fact("rows", True, "%s: %d rows, every element shown in order or announced" % (what, rows), pos)


def text(x):
    """the string a term stands for; None if not known"""
    if x.op == "app" and x.args[0] == "join":
        sep, parts = render(x.args[1]), spread(x.args[2])
        if sep is None or parts is None:
            return None
        parts = [text(y) for y in parts]
        return None if None in parts else sep.join(parts)
    if x.op in ("fstr", "cat"):
        parts = [text(y) if isinstance(y, t.T) else str(y) for y in x.args]
        return None if None in parts else "".join(parts)
    if x.op == "app" and x.args[0] == "strformat" and x.args[1].op == "str":
        parts = [text(y) for y in x.args[2:]]
        try:
            return None if None in parts else x.args[1].args[0].format(*parts)
        except (ValueError, IndexError, KeyError):
            return None
    if lib.numeric(x) and not t.is_face(x):
        c = t.const(t.aspoly(x))
        return str(int(c)) if c is not None and c.denominator == 1 else None
    return render(x)


def run(tier):
    r = jobs.Runner(8, 150 if tier == "quick" else 560)
    r.submit("characters", characters)
    for w in WIDTHS:
        r.submit("%d columns" % w, layout(w))
    return pack(r.collect(), RULE)
