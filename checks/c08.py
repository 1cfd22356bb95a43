from .values import check


def run(tier):
    return check("C08", tier)
