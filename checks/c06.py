from .values import check


def run(tier):
    return check("C06", tier)
