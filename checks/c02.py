from .values import check


def run(tier):
    return check("C02", tier)
