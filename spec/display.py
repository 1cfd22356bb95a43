"""how a sequence is displayed: one character per element"""


def rep(heads, tails):
    h = str(heads)[0]
    t = str(tails)[0]
    if h == t:
        return "1", "0"
    return h, t


def row(elements, heads, tails):
    h, t = rep(heads, tails)
    out = ""
    for x in elements:
        if x == heads:
            out += h
        else:
            out += t
    return out
