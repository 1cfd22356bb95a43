"""C12: running and displaying a test has no side effects and no memory."""
import os

from checks.values import pack
from sa import jobs, leaves
from sa.leaves import TESTS, modes

TECHNIQUE = "effect analysis by abstract interpretation: state that outlives a call compared before and after, and the results of two calls in a row"
RULE = (
    "Each public test is interpreted twice in a row over the same symbolic sequence, its result displayed twice in between: no module variable, class attribute or "
    "object that existed before may differ after, both calls must yield the same normal forms, and no statement reached may write to the sequence passed in, "
    "change process-wide settings or read a clock or a random source."
)


def job(test, mode, tier):
    def run(conds):
        sp = leaves.space(test, mode, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
        p, out = leaves.history(test, mode, conds, sp)
        return out + [dict(name="#functions", verdict="info", detail=p.functions)]

    return run


def run(tier):
    r = jobs.Runner(8)
    for test in [x for x in TESTS if x in os.environ.get("VP_ONLY", x)]:
        for m in modes(test, "given"):
            r.submit("%s(%s)" % (test, m), job(test, m, tier))
    return pack(r.collect(), RULE)
