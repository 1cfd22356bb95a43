from .values import check


def run(tier):
    return check("C09", tier)
