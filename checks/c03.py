from .values import check


def run(tier):
    return check("C03", tier)
