"""C11: which sequences and parameters are refused, and with which error."""
from checks.values import gather
from sa.leaves import TESTS

TECHNIQUE = "abstract interpretation: guards of the raise statements in normal form, compared with the specification's"
RULE = (
    "Abstract interpretation of each public test over a symbolic sequence; for every exception class the disjunction of the path guards under which it "
    "escapes, and the guard under which the test answers, are reduced to a normal form and must be those the specification (spec/*.py) raises under."
)


def run(tier):
    return gather(TESTS, ["refusals"], tier, ("given", "default"), RULE, light=("default",))
