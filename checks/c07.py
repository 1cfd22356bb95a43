from .values import check


def run(tier):
    return check("C07", tier)
