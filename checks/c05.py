from .values import check


def run(tier):
    return check("C05", tier)
