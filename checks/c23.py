"""C23: data files are read completely and in order."""
from checks import c22
from checks.c21 import text
from checks.values import pack
from sa import cli, compare as C, driver, jobs, lib, terms as t
from sa.cli import fact
from sa.driver import INPUT
from sa.leaves import rec
from sa.terms import NONE, ONE, ZERO, mk, num, string

TECHNIQUE = "abstract interpretation of both parsers over an abstract file; the parsed series compared with a reference; rule on the reader's options"
RULE = (
    "Abstract interpretation of parse_text, parse_binary and of the command run up to what its tests are given, over an abstract file: a table of a symbolic "
    "number of columns and rows, or a symbolic number of bytes.  In text mode the reader must be given the data file's path and no option that drops, adds or "
    "splits lines, must treat no line as a header, and the whole first column, in order, must be what is returned, no table of more columns accepted; in "
    "binary mode the sequence must reduce to the normal form of the reference (each byte's eight bits, most significant first); differing normal forms are "
    "reported only when a finite file tells them apart.  The file must be opened for reading bytes and closed, on every path."
)
# options of the table reader and the values with which every line is kept
KEEPS = {
    "header": [NONE], "sep": [string(","), string("\n"), NONE], "delimiter": [NONE, string(",")], "names": [NONE], "index_col": [NONE],
    "usecols": [NONE], "skiprows": [NONE, ZERO], "skipfooter": [ZERO], "nrows": [NONE], "skip_blank_lines": [ONE], "comment": [NONE],
    "error_bad_lines": [ONE], "on_bad_lines": [string("error")], "chunksize": [NONE], "iterator": [ZERO], "delim_whitespace": [ZERO], "lineterminator": [NONE, string("\n")],
    "prefix": [NONE], "thousands": [NONE], "true_values": [NONE], "false_values": [NONE], "converters": [NONE], "parse_dates": [ZERO],
}
FREE = ("engine", "low_memory", "memory_map", "encoding", "squeeze", "cache_dates", "verbose", "warn_bad_lines", "skipinitialspace")
ORDER = ["path", "sep", "delimiter", "header", "names", "index_col", "usecols"]


def option(name, v):
    if name in FREE:
        return True
    ok = KEEPS.get(name)
    if ok is None:
        return None
    if any(v is x for x in ok) or lib.numeric(v) and any(lib.numeric(x) and t.aspoly(v) is t.aspoly(x) for x in ok):
        return True
    if v.op in ("str", "none") or lib.numeric(v) and t.const(t.aspoly(v)) is not None:
        return False
    if v.op in ("list", "seq", "tup", "nd", "ref", "builtin", "lam", "clo"):
        return False
    return None


def reader(I, o, out, where):
    reads = [(g, a) for g, a, w in o.actions if a[0] == "read_csv"]
    if not reads:
        out.append(fact("file read", None, "how the file is read is not understood", where))
        return
    for g, a in reads:
        given = dict(zip(ORDER, [x for x in a[1:] if not (x.op == "tup" and len(x.args) == 2 and x.args[0].op == "str")]))
        given.update({x.args[0].args[0]: x.args[1] for x in a[1:] if x.op == "tup" and len(x.args) == 2 and x.args[0].op == "str"})
        path = given.pop("path", given.pop("filepath_or_buffer", NONE))
        good = path is cli.DATA or (None if cli.inside(path, cli.DATA) else False)
        if good is None and path.op == "libcall" and (path.args[0].startswith("pathlib.") or path.args[0] in ("open", "str")) and path.args[1][0] is cli.DATA:
            good = True
        out.append(fact("file read", good if g is ONE else None, "the reader is given %s when %s" % (t.pretty(path, 3)[:80], text(g)), where))
        if "header" not in given:
            given["header"] = string("infer") if "names" not in given else NONE
        for k, v in sorted(given.items()):
            good = option(k, v)
            out.append(fact("reader's options", good, "%s=%s" % (k, t.pretty(v, 2)[:60]), where))


def compared(I, name, got, want, sp, where):
    try:
        a = lib.as_seq(I, got)
    except Exception:
        a = None
    if a is None:
        return fact(name, False if got.op in ("none", "str", "num") else None, "%s is not understood as a sequence" % t.pretty(got, 3)[:80], where)
    names = {str(x.args[0]) for x in cli.leaves_of(a) if x.op == "var"}
    odd = sorted(x for x in names if x[:1] == "S" and x[1:] and (x[1:].isdigit() or x == "Slast"))
    if odd and "S" not in names:
        return fact(name, False, "taken from another column (%s) than the first" % odd[0][1:], where)
    v = C.compare(a, [want], [], sp)
    if v.kind == "undecided":
        w = C.compare(t.aspoly(t.length(a)), [t.aspoly(t.length(want))], [], lengths(sp))
        if w.kind == "violation":
            w.detail = "its length: " + w.detail
            v = w
    return rec(name, v, where)


def lengths(sp):
    """the same for terms without elements: larger files"""
    cases = [dict(c) for c in sp.cases]
    key = "nbytes" if "nbytes" in cases[0] else "n"
    return C.Space(cases + [dict(n=2, **{key: k}) if key != "n" else dict(n=k) for k in (10**6 + 1, 10**7 + 3, 10**9 + 7)], 1, 200, 1, sp.seconds)


def spaces(tier):
    ns = [2, 3, 4, 5, 8, 9, 16, 17, 40, 101, 1000, 10007, 65537, 262145]
    ks = [1, 2, 3, 4, 7, 8, 9, 33, 100, 1025, 4097, 65537, 131073]
    if tier != "quick":
        ns += [6, 7, 31, 64, 250, 4096, 8193, 100003, 1000003]
        ks += [5, 6, 16, 64, 255, 256, 257, 8193, 262145]
    sec = 20 if tier == "quick" else 120
    return C.Space([dict(n=n) for n in ns], 3, 120, 1, sec), C.Space([dict(nbytes=k, n=2) for k in ks], 1, 120, 1, sec)


def good_world(o):
    nd, hn = c22.dims(o)
    m = {cli.NCOLS: ONE}
    m.update({x: num(2) for x in nd})
    m.update({x: ZERO for x in hn})
    return m


def text_job(tier):
    def run(conds):
        I = cli.start(c22.c21.maker(None), mods=(cli.COMMANDS,))
        cli.file_hooks(I)
        out = []
        where = cli.PARSING
        o = cli.run(I, cli.attr(I, cli.PARSING, "parse_text"), [cli.DATA])
        reader(I, o, out, where)
        m = good_world(o)
        v = t.subst(o.value, m) if o.value is not None else NONE
        sp = spaces(tier)[0]
        if v is INPUT:
            out.append(fact("whole column", True, "the first column is returned", where))
        elif v.op == "input":
            out.append(fact("whole column", False, "column %s is returned" % v.args[0].args[0][1:], where))
        else:
            out.append(compared(I, "whole column", v, lib.as_seq(I, INPUT), sp, where))
        # tables of several columns
        for c in (2, 3, 4, 10, 100):
            m2 = dict(m)
            m2[cli.NCOLS] = num(c)
            vals = [c22.value(g, m2) for g, cl, p in o.ends]
            good = True if 1 in vals else None if None in vals else False
            out.append(fact("several columns refused", good, "%d columns: %s" % (c, "refused" if good else "accepted"), where))
        # and what the tests get
        I = cli.start(c22.c21.maker(None))
        cli.file_hooks(I)
        o = c22.go(I, cli.attr(I, cli.COMMANDS, "run"), dict(data=cli.DATA, out=string("OUT"), binary=ZERO))
        m = good_world(o)
        reader(I, o, out, cli.COMMANDS)
        out += given(I, o, m, lib.as_seq(I, INPUT), sp, INPUT)
        out.append(dict(name="#functions", verdict="info", detail=sorted({e[4] for e in I.events if e[4]}) + [cli.COMMANDS + ".run"]))
        return out

    return run


def given(I, o, m, want, sp, whole=None):
    got = []
    for g, a, w in o.actions:
        if a[0] == "test":
            v = t.subst(a[2], m)
            if v not in got:
                got.append(v)
        if a[0] in ("pickle.dumps", "pickle.dump") and a[1].op == "inst":
            v = dict(a[1].args[1]).get("series")
            if v is not None and t.subst(v, m) not in got:
                got.append(t.subst(v, m))
    out = []
    for v in got:
        if v is whole:
            out.append(fact("what tests get", True, "the first column", cli.COMMANDS))
        else:
            out.append(compared(I, "what tests get", v, want, sp, cli.COMMANDS))
    if not got:
        out.append(fact("what tests get", None, "no test is seen to get the data", cli.COMMANDS))
    return out


def binary_job(tier):
    def run(conds):
        I = cli.start(c22.c21.maker(None))
        ref = cli.run(I, cli.attr(I, "spec.parsing", "parse_binary"), [cli.content()])
        want = lib.as_seq(I, I.freeze(ref.value, ref.state)) if ref.state is not None else lib.as_seq(I, ref.value)
        out = []
        where = cli.PARSING
        sp = spaces(tier)[1]
        for what in ("parse_binary", "run"):
            I = cli.start(c22.c21.maker(None))
            cli.file_hooks(I)
            if what == "run":
                o = c22.go(I, cli.attr(I, cli.COMMANDS, "run"), dict(data=cli.DATA, out=string("OUT"), binary=ONE))
            else:
                o = cli.run(I, cli.attr(I, cli.PARSING, "parse_binary"), [cli.DATA])
            m = good_world(o)
            if what == "run":
                out += given(I, o, m, want, sp)
            else:
                out.append(compared(I, "bits", t.subst(o.value, m) if o.value is not None else NONE, want, sp, where))
            opens = [(g, a) for g, a, w in o.actions if a[0] in ("open", ".open") and any(isinstance(x, t.T) and cli.inside(x, cli.DATA) for x in a[1:])]
            for g, a in opens:
                mode = [x.args[0] for x in a[1:] if isinstance(x, t.T) and x.op == "str" and x is not cli.DATA]
                mode += [x.args[1].args[0] for x in a[1:] if isinstance(x, t.T) and x.op == "tup" and x.args[0] is string("mode") and x.args[1].op == "str"]
                if len(mode) != 1:
                    good = False if not mode else None
                else:
                    good = "b" in mode[0] and not any(c in mode[0] for c in "wax+")
                out.append(fact("opened as bytes", good, "mode %s" % mode, where))
        for data in FILES:
            I = cli.start(c22.c21.maker(None))
            cli.file_hooks(I, data=data)
            try:
                o = cli.run(I, cli.attr(I, cli.PARSING, "parse_binary"), [cli.DATA])
                v = None if o.value is None else lib.as_seq(I, t.subst(I.freeze(o.value), good_world(o)))
                got = [t.const(t.aspoly(x)) for x in v.args] if v is not None and v.op == "seq" else None
            except Exception:
                got = None
            if got is None or None in got:
                continue
            bits = [int(b) for x in data for b in format(x, "08b")]
            out.append(fact("bits", got == bits, "the file %s gives %s" % (data.hex(" "), "its bits" if got == bits else "%d values instead of %d" % (len(got), len(bits)) if len(got) != len(bits) else "other bits: " + "".join(str(int(x)) for x in got)), where))
        return out

    return run


FILES = [b"\xa5\x0f", b"\x00\xff\n", b"\nA\n\n", b" \x01\t ", b"\xef\xbb\xbf\x00A", b"\r\n\x00\xff\x1a", b"#\x00\x00", b"\x00\x00\xff\x00\x00", b"0101\n", b"\x80"]


def run(tier):
    r = jobs.Runner(8, 150 if tier == "quick" else 560)
    r.submit("text file", text_job(tier))
    r.submit("binary file", binary_job(tier))
    return pack(r.collect(), RULE)
