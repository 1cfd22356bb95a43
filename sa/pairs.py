"""Running a test and its specification over the same symbolic sequence, case by case."""
import importlib
import json
import os
import sys
import tempfile
import time
import traceback

from . import driver, terms as t
from .interp import Split
from .terms import mk, num, seq, string, var

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


def interp():
    I = driver.new()
    for f in os.listdir(SPEC):
        if f.endswith(".py") and f != "__init__.py":
            I.extra["spec." + f[:-3]] = os.path.join(SPEC, f)
    return I


class Anchor(Exception):
    """something public the property is about is not there"""


def lookup(I, mod, name):
    if I.find(mod) is None:
        raise Anchor("module %s" % mod)
    I.module(mod)
    try:
        f = I.mod_attr(mod, name)
    except Exception:
        f = None
    if f is None or f.op == "unknown":
        raise Anchor("%s.%s" % (mod, name))
    return f


def both(code, spec, args, kw, facts=(), setup=None):
    """yields (conditions, interpreter, code outcome, spec outcome) per case; may fork via `branch`"""


def attempt(I, f, args, kw, facts, true):
    m = I.mark()
    st = dict(I.st)
    I.events = []
    try:
        return driver.run(I, f, args, kw, facts, true)
    finally:
        I.reset(m)
        I.pc = []
        t.CTX.facts = []
        t.CTX.known = {}
        t._bump()
