"""C15: fields of the result records."""
from checks.values import gather
from sa.leaves import TESTS

TECHNIQUE = "abstract interpretation: every result field in normal form, compared with the specification's quantity of that name"
RULE = (
    "Abstract interpretation of each public test over a symbolic sequence and symbolic parameters; every field of the result record (faces, parameters, counts, "
    "tallies, expected values, sub-results by feature) is reduced to a normal form and must be that of the quantity the specification (spec/*.py) names so."
)


def run(tier):
    return gather(TESTS, ["fields"], tier, ("given",), RULE)
