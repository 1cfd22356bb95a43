"""Set-up of analyses of the public tests."""
import os
import sys
from fractions import Fraction as F

from . import terms as t
from .interp import Interp, Halt, Split, Handler, Ctl
from .terms import NONE, ONE, ZERO, mk, num, seq, string, var

sys.setrecursionlimit(12000)
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")

N = var("n", "pos")
S = var("S", "faces")
IDX = var("IDX", "any")
INPUT = mk("input", S, IDX)
t.LENS[S] = t.aspoly(N)


def new(src=SRC, **kw):
    t.CTX.facts = []
    t.CTX.known = {}
    t._bump()
    return Interp(src, **kw)


class Outcome:
    pass


def run(I, f, args, kw, facts=(), true=()):
    """call a function value; returns Outcome(value, guard, raises, state)"""
    I.fact(*facts)
    for b in true:
        I.push(b)
    I.handlers = [Handler(len(I.pc))]
    I.ctls = [Ctl("func", len(I.pc))]
    I.stack = [("<driver>", None)]
    n0 = len(I.pc)
    o = Outcome()
    o.before = dict(I.st)
    try:
        o.value = I.call(f, args, kw)
    except Halt:
        o.value = None
    o.guard = I.guard(n0)
    o.raises = [(g, e, pos) for g, e, st, pos in I.handlers[0].raises]
    o.raised_in = [st for g, e, st, pos in I.handlers[0].raises]
    o.state = I.st
    o.events = I.events
    return o
