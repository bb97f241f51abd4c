"""Poker hands: classes, order and frequencies (reference, from the rules)."""
from math import factorial

NAMES = ["straight flush", "four of a kind", "full house", "flush", "straight",
         "three of a kind", "two pair", "pair", "high card"]
CODES = ["sf", "fk", "fh", "fl", "st", "tk", "tp", "pa", "hc"]
NAME = dict(zip(CODES, NAMES))


def ncr(n, k):
    if k < 0 or k > n:
        return 0
    return factorial(n) // factorial(k) // factorial(n - k)


def multisets(ranks, k, most):
    """all multisets of k ranks (descending), none more than `most` times"""
    out = []

    def rec(i, left, acc):
        if left == 0:
            out.append(tuple(acc))
            return
        if i == len(ranks):
            return
        for m in range(min(most, left), -1, -1):
            rec(i + 1, left - m, acc + [ranks[i]] * m)

    rec(0, k, [])
    return out


def straight_top(ranks, r, low):
    """highest card of the straight formed by the distinct ranks (descending,
    0 = deuce .. 12 = ace) or None"""
    k = len(ranks)
    if k < 3:
        return None
    if ranks[0] - ranks[-1] == k - 1:
        return ranks[0]
    lowest = 13 - r
    if low and r > k and ranks[0] == 12 and ranks[1:] == tuple(range(lowest + k - 2, lowest - 1, -1)):
        return lowest + k - 2
    return None


def classify(ranks, suited, s, r, low):
    """(class name, key): larger key is the better hand of the class"""
    k = len(ranks)
    ranks = tuple(sorted(ranks, reverse=True))
    cnt = sorted(((ranks.count(x), x) for x in set(ranks)), reverse=True)
    shape = [c for c, _ in cnt]
    key = tuple(x for _, x in cnt)
    if shape[0] == 1:
        flush = suited and k >= 3 and s >= 2
        top = straight_top(ranks, r, low)
        if top is not None:
            return ("straight flush" if flush else "straight"), (top,)
        return ("flush" if flush else "high card"), key
    if shape[0] == 4:
        return "four of a kind", key
    if shape[0] == 3:
        return ("full house" if len(shape) > 1 and shape[1] == 2 else "three of a kind"), key
    if len(shape) > 1 and shape[1] == 2:
        return "two pair", key
    return "pair", key


def shape_hands(s, r, k, low):
    """all hand types of a deck shape: list of (ranks, suited, class, key,
    number of hands)"""
    out = []
    for ranks in multisets(list(range(12, 12 - r, -1)), k, s):
        distinct = len(set(ranks)) == k
        total = 1
        for x in set(ranks):
            total *= ncr(s, ranks.count(x))
        if distinct and k >= 2:
            c, key = classify(ranks, True, s, r, low)
            out.append((ranks, True, c, key, s))
            if total > s:
                c, key = classify(ranks, False, s, r, low)
                out.append((ranks, False, c, key, total - s))
        else:
            c, key = classify(ranks, k == 1, s, r, low)
            out.append((ranks, k == 1, c, key, total))
    return out


def frequencies(hands):
    out = {}
    for _, _, c, _, n in hands:
        out[c] = out.get(c, 0) + n
    return out
