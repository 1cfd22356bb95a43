"""C16: reference-distribution plots show the distribution the p-value came from."""
from checks.values import gather
from sa.leaves import TESTS, method_site, result_class

TECHNIQUE = "abstract interpretation of the plot methods on the tests' own symbolic results, compared with the distribution of the p-value"
RULE = (
    "Each test is interpreted over a symbolic sequence and plot_refdist on the symbolic result it returns; every density in the chart it builds must be of the "
    "family, degrees of freedom and (for the marked area) statistic that the specification takes the p-value from."
)


def run(tier):
    plotted = []
    for test in TESTS:
        c = result_class(test)
        if c is None or method_site(c, "plot_refdist")[1]:
            plotted.append(test)
    return gather(plotted, ["plots"], tier, ("given",), RULE)
