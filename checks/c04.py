from .values import check


def run(tier):
    return check("C04", tier)
