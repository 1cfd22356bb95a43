"""C20: the reference implementations agree with the tests."""
import os

from checks.values import pack
from sa import jobs, leaves
from sa.leaves import TESTS, modes

TECHNIQUE = "abstract interpretation of test and reference implementation to canonical value expressions, compared"
RULE = (
    "Abstract interpretation of every public test and of its reference implementation over one symbolic 0/1 sequence with both values (the reference gets it "
    "as a list of 0 and 1) and symbolic parameters; where both give a value, statistic and p-value - or the lists of them - must reduce to the same normal "
    "form.  Normal forms that differ are reported only when a finite model of their symbols tells them apart."
)


def job(test, mode, tier):
    def run(conds):
        p = leaves.run_pair(test, mode, conds, ref="coinflip.randtests_refimpl")
        sp = leaves.space(test, mode, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
        return leaves.agreement(p, conds, sp) + [dict(name="#functions", verdict="info", detail=p.functions)]

    return run


def run(tier):
    r = jobs.Runner(8)
    for test in (os.environ.get("VP_ONLY") or "").split() or TESTS:
        for m in modes(test, "given"):
            r.submit("%s(%s)" % (test, m), job(test, m, tier))
    return pack(r.collect(), RULE)
