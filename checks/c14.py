"""C14: recorded failures of recommendations."""
from checks.values import gather
from sa.leaves import TESTS

TECHNIQUE = "abstract interpretation: the conditional list of failed recommendations in normal form, compared with the specification's"
RULE = (
    "Abstract interpretation of each public test over a symbolic sequence; the list of failed recommendations it records is a list of texts gated by "
    "conditions on length and parameters, and must be in normal form the list the specification (spec/*.py) gates by the conditions the texts state."
)


def run(tier):
    return gather(TESTS, ["failures"], tier, ("given",), RULE)
