"""C13: parameters given are honoured, parameters omitted default by length."""
from checks.values import gather
from sa.leaves import PARAMS

TECHNIQUE = "abstract interpretation: parameters a result reports, for every subset of parameters given, in normal form against the specification's"
RULE = (
    "Each public function is interpreted with every subset of its parameters given symbolically and the rest omitted; the parameters recorded on the result "
    "(with which C01-C09 show the statistic to be computed) must be the given ones and, where omitted, the specification's default as a function of the length."
)


def run(tier):
    return gather(sorted(PARAMS), ["params"], tier, ("given", "partial"), RULE, light=("given", "partial"))
