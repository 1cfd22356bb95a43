"""C01-C09: statistics and p-values against the specification's formulas."""
import os

from sa import jobs, leaves
from sa.leaves import TESTS, modes

GROUP = {
    "C01": ["monobit", "frequency_within_block"],
    "C02": ["runs", "longest_runs"],
    "C03": ["binary_matrix_rank"],
    "C04": ["spectral"],
    "C05": ["non_overlapping_template_matching", "overlapping_template_matching"],
    "C06": ["maurers_universal"],
    "C07": ["linear_complexity"],
    "C08": ["serial", "approximate_entropy"],
    "C09": ["cusum", "random_excursions", "random_excursions_variant"],
}
RULE = (
    "Abstract interpretation of each public test (from coinflip.randtests down) over a symbolic two-valued sequence of symbolic length and symbolic "
    "parameters, loops summarised in closed form as sums, tallies, folds; the statistic and p-value it yields are reduced to a normal form and must be the "
    "normal form the specification's formulas (spec/*.py, analysed alike) reduce to.  A normal form that differs is reported only when a finite model of its "
    "symbols tells the two apart; otherwise it counts as undecided.  One obligation per case, field and way of giving parameters."
)


def job(test, mode, aspects, tier, light=False):
    def run(conds):
        p = leaves.run_pair(test, mode, conds, light=light)
        sp = leaves.space(test, mode, tier, int(os.environ.get("VERIF_SEED", "1") or 1))
        out = []
        for a in aspects:
            out += getattr(leaves, a)(p, conds, sp)
        out.append(dict(name="#functions", verdict="info", detail=p.functions))
        return out

    return run


def gather(tests, aspects, tier, which=("given",), rule=RULE, width=8, light=()):
    r = jobs.Runner(width)
    for test in tests:
        for w in which:
            ms = modes(test, w)
            if w == "default" and ms == modes(test, "given"):
                continue
            for m in ms:
                r.submit("%s(%s)" % (test, m), job(test, m, aspects, tier, w in light))
    return pack(r.collect(), rule)


def pack(outcomes, rule):
    fns = set()
    for o in outcomes:
        keep = []
        for x in o["records"]:
            if x["name"] == "#functions":
                fns.update(map(str, x["detail"]))
            else:
                keep.append(x)
        o["records"] = keep
    return dict(outcomes=outcomes, rule=rule, functions=fns)


def check(prop, tier):
    return gather(GROUP[prop], ["values"], tier, ("given",) if tier == "quick" else ("given", "default"))
