"""C17: progress reaches its announced total exactly."""
import os

from checks.values import pack
from sa import jobs, leaves
from sa.leaves import TESTS, modes

TECHNIQUE = "abstract interpretation: progress updates summed over loops in closed form, compared with the announced total"
RULE = (
    "Abstract interpretation of each test under a progress display: every advance of the task is added up in closed form over all loops, and must be the "
    "total announced, as a function of the sequence and the parameters; without a display no progress method may be reached."
)


def job(test, mode, tier):
    def run(conds):
        p = leaves.run_pair(test, mode, conds, ctx=True, spec=False, mod="coinflip._randtests", setup=leaves.progress_setup)
        sp = leaves.space(test, mode, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
        return leaves.progress(p, conds, sp) + [dict(name="#functions", verdict="info", detail=p.functions)]

    return run


def run(tier):
    r = jobs.Runner(8)
    for test in TESTS:
        for m in modes(test, "given"):
            r.submit("%s(%s)" % (test, m), job(test, m, tier))
    return pack(r.collect(), RULE)
