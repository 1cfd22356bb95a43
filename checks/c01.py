from .values import check


def run(tier):
    return check("C01", tier)
