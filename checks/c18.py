"""C18: p-values are probabilities."""
import os

from checks.values import pack
from sa import jobs, leaves
from sa.leaves import TESTS, modes

TECHNIQUE = "abstract interpretation: sign of the arguments of erfc and gammaincc in the p-values' normal forms"
RULE = (
    "Every p-value a test reports is reduced to a normal form by abstract interpretation; where it is a complementary error function or an upper incomplete gamma "
    "function, its argument must be shown non-negative and its shape positive from the form alone (sums of squares, absolute values, counts) under the test's own guards."
)


def job(test, mode, tier):
    def run(conds):
        p = leaves.run_pair(test, mode, conds, spec=False)
        sp = leaves.space(test, mode, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
        if tier == "quick":
            sp.seconds, sp.most = 6, 60
        return leaves.probability(p, conds, sp) + [dict(name="#functions", verdict="info", detail=p.functions)]

    return run


def run(tier):
    r = jobs.Runner(8)
    for test in TESTS:
        if test == "cusum":
            continue  # neither function; its p-value may exceed 1 by SP 800-22's own formula
        for m in modes(test, "given"):
            r.submit("%s(%s)" % (test, m), job(test, m, tier))
    return pack(r.collect(), RULE)
