"""SP 800-22 2.13, 2.14 and 2.15"""
from math import erfc
from math import floor
from math import sqrt

from scipy.stats import norm

from spec.prelude import chisquare_test
from spec.prelude import prepare
from spec.prelude import unmet


def steps_of(series, n, heads):
    return [1 if series[i] == heads else -1 for i in range(n)]


def walk_of(steps):
    walk = [0]
    place = 0
    for step in steps:
        place += step
        walk.append(place)
    return walk


def cusum(sequence, reverse=False):
    series, n, heads, tails = prepare(sequence, 2)
    steps = steps_of(series, n, heads)
    if reverse:
        steps = steps[::-1]
    walk = walk_of(steps)
    z = max(abs(place) for place in walk)
    first = 0
    for k in range(floor((-n / z + 1) / 4), floor((n / z - 1) / 4) + 1):
        first += norm.cdf((4 * k + 1) * z / sqrt(n)) - norm.cdf((4 * k - 1) * z / sqrt(n))
    second = 0
    for k in range(floor((-n / z - 3) / 4), floor((n / z - 1) / 4) + 1):
        second += norm.cdf((4 * k + 3) * z / sqrt(n)) - norm.cdf((4 * k + 1) * z / sqrt(n))
    return {
        "heads": heads,
        "tails": tails,
        "statistic": z,
        "p": 1 - first + second,
        "failures": unmet([("n ≥ 100", n >= 100)]),
        "reverse": reverse,
        "n": n,
        "walk": walk,
        "steps": 3,
    }


PROBABILITIES = {
    1: (0.5000, 0.2500, 0.1250, 0.0625, 0.0312, 0.0312),
    2: (0.7500, 0.0625, 0.0469, 0.0352, 0.0264, 0.0791),
    3: (0.8333, 0.0278, 0.0231, 0.0193, 0.0161, 0.0804),
    4: (0.8750, 0.0156, 0.0137, 0.0120, 0.0105, 0.0733),
}


def cycles_of(walk):
    cycle = [walk[0]]
    for place in walk[1:]:
        cycle.append(place)
        if place == 0:
            yield cycle
            cycle = [place]
    yield cycle


def random_excursions(sequence):
    series, n, heads, tails = prepare(sequence, 2)
    walk = walk_of(steps_of(series, n, heads))
    # a cycle ends with each return to zero, and with the end of the walk
    states = [-4, -3, -2, -1, 1, 2, 3, 4]
    tallies = {x: [0] * 6 for x in states}
    cycles = 0
    for cycle in cycles_of(walk):
        cycles += 1
        for x in states:
            visits = sum(1 for place in cycle if place == x)
            for k in range(6):
                if visits == k if k < 5 else visits >= 5:
                    tallies[x][k] += 1
    results = {}
    for x in states:
        probabilities = PROBABILITIES[abs(x)]
        expected = [cycles * p / sum(probabilities) for p in probabilities]
        statistic, p = chisquare_test(tallies[x], expected)
        results[x] = {"statistic": statistic, "p": p, "state": x}
    return {
        "heads": heads,
        "tails": tails,
        "results": results,
        "failures": unmet([("n ≥ 1000000", n >= 1000000)]),
        "n": n,
        "walk": walk,
        "steps": 4,
    }


def random_excursions_variant(sequence):
    series, n, heads, tails = prepare(sequence, 2)
    walk = walk_of(steps_of(series, n, heads))
    cycles = sum(place == 0 for place in walk)
    results = {}
    for x in [-9, -8, -7, -6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 8, 9]:
        count = sum(place == x for place in walk)
        p = erfc(abs(count - cycles) / sqrt(2 * cycles * (4 * abs(x) - 2)))
        results[x] = {"statistic": count, "p": p, "state": x}
    return {
        "heads": heads,
        "tails": tails,
        "results": results,
        "failures": unmet([("n ≥ 1000000", n >= 1000000)]),
        "n": n,
        "walk": walk,
        "steps": 21,
    }
