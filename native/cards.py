"""C12 and C13 on the real Card and Deck."""
import random

from native.cases import *  # noqa: F401,F403

from clubs import error
from clubs.poker import card as C
from clubs.poker import Card, Deck

RANKS = "23456789TJQKA"
SUITS = "SHDC"
SYMBOL = {"S": u"\u2660", "H": u"\u2665", "D": u"\u2666", "C": u"\u2663"}
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41]


def value(r, s):
    """the documented 32 bit layout"""
    return (1 << (16 + r)) + (1 << (12 + s)) + r * 256 + PRIMES[r]


def layout(string):
    r, s = RANKS.index(string[0].upper()), SUITS.index(string[1].upper())
    c = Card(string)
    need(int(c) == value(r, s), "C13: value has the documented layout")
    need(str(c) == RANKS[r] + SYMBOL[SUITS[s]], "C13: prints as rank and suit symbol")
    need(str(c) in repr(c), "C13: representation shows the card")


def pair(a, b):
    x, y = Card(a), Card(b)
    same = a.upper() == b.upper()
    need((x == y) is same, "C13: equal exactly with same rank and suit")
    need((x != y) is (not same), "C13: unequal exactly with other rank or suit")
    need((int(x) == int(y)) is same, "C13: different cards have different values")
    need(x & y == int(x) & int(y), "C13: card & card")
    need(x | y == int(x) | int(y), "C13: card | card")


def operators(a, k, sh):
    x = Card(a)
    v = int(x)
    need(type(v) is int, "C13: int of a card is its value")
    need(x & k == v & k, "C13: card & int")
    need(k & x == k & v, "C13: int & card")
    need(x | k == v | k, "C13: card | int")
    need(k | x == k | v, "C13: int | card")
    need(x << sh == v << sh, "C13: card << int")
    need(x >> sh == v >> sh, "C13: card >> int")
    need(int(x) == v and str(x) == RANKS[RANKS.index(a[0].upper())] + SYMBOL[a[1].upper()],
         "C13: operators leave the card unchanged")


def reject(string):
    if string[0].upper() not in RANKS:
        expect_error(lambda: Card(string), "InvalidRankError", "C13: other rank characters are rejected")
    else:
        expect_error(lambda: Card(string), "InvalidSuitError", "C13: other suit characters are rejected")


# ------------------------------------------------------------------- deck
def expected(s, r):
    return sorted(value(k, j) for k in range(13 - r, 13) for j in range(s))


def ints(cards):
    return [int(c) for c in cards]


def deck_ops(s, r, seed, ops):
    """sequence of operations on one deck against a model"""
    random.seed(seed)
    d = Deck(s, r)
    full = expected(s, r)
    need(sorted(ints(d.full_deck)) == full, "C12: holds each card of the shape exactly once")
    need(sorted(ints(d.cards)) == full, "C12: a new deck holds all its cards")
    top = None
    here = ints(d.cards)
    for op in ops:
        if op[0] == "draw":
            n = op[1]
            got = d.draw() if n is None else d.draw(n)
            n = 1 if n is None else n
            need(isinstance(got, list), "C12: drawn cards come as a list")
            need(ints(got) == here[:n], "C12: draws the next cards from the top in order")
            here = here[n:]
            need(ints(d.cards) == here, "C12: removes exactly the drawn cards")
            need(len(d) == len(here), "C12: length is the number of cards left")
            k = len(got)
            got.append(None)
            need(ints(d.cards) == here, "C12: drawn list is independent of the deck")
            del got[k:]
        elif op[0] == "shuffle":
            res = d.shuffle()
            need(res is d, "C12: shuffle returns the deck")
            here = ints(d.cards)
            need(sorted(here) == full, "C12: shuffle restores all cards")
            if top:
                need(here[:len(top)] == top, "C12: tricked cards on top in the given order")
            need(sorted(ints(d.full_deck)) == full, "C12: shuffle leaves the full deck alone")
        elif op[0] == "trick":
            cards = [Card(x) for x in op[1]]
            before = ints(cards)
            d.trick(cards)
            need(ints(cards) == before, "C12: trick leaves the given list alone")
            top = before
            here = ints(d.cards)
        elif op[0] == "untrick":
            d.untrick()
            top = None
    return here


def bad_deck(s, r):
    if not 1 <= r <= 13:
        if 1 <= s <= 4:
            expect_error(lambda: Deck(s, r), "InvalidRankError", "C12: invalid number of ranks rejected")
        else:
            try:
                Deck(s, r)
            except (error.InvalidRankError, error.InvalidSuitError):
                return
            raise Violated("C12: invalid deck sizes are rejected")
    else:
        expect_error(lambda: Deck(s, r), "InvalidSuitError", "C12: invalid number of suits rejected")


CASES = dict(layout=layout, pair=pair, operators=operators, reject=reject, deck_ops=deck_ops,
             bad_deck=bad_deck)
run_script = make_run_script(CASES)


def cards_complete(job):
    """complete: all 208 strings, all pairs of 52 cards, all other characters
    up to U+07FF in both places; sampled: operands of the operators"""
    t = Tally(job, CASES)
    rng = random.Random(job["seed"])
    strings = [r + s for r in RANKS + RANKS.lower() for s in SUITS + SUITS.lower()]
    strings = sorted(set(strings))
    for x in strings:
        t.run("layout", x)
    deck = [r + s for r in RANKS for s in SUITS]
    for a in deck:
        for b in deck:
            t.run("pair", a, b)
    for a in deck:
        t.run("pair", a, a.lower())
    for k in range(1, 0x800):
        ch = chr(k)
        if ch.upper() not in list(RANKS):
            t.run("reject", ch + "S")
        if ch.upper() not in list(SUITS):
            t.run("reject", "A" + ch)
    edge = [0, 1, -1, 0xF000, 0xFF, 0xF00, 0x1FFF0000, 2 ** 31, 2 ** 32 - 1, -2 ** 31]
    for a in deck:
        for k in edge + [rng.getrandbits(32) for _ in range(6)]:
            t.run("operators", a, k, rng.choice([0, 1, 8, 12, 16, 28, 40]))
    return t.result(obligations=t.n, discharged=t.distinct, exhaustive=t.complete)


def gen_ops(rng, s, r):
    deck = [a + b for a in RANKS[13 - r:] for b in SUITS[:s]]
    ops = []
    for _ in range(rng.randrange(1, 14)):
        k = rng.random()
        if k < 0.5:
            ops.append(["draw", rng.choice([None, 0, 1, 1, 2, 3, 5, rng.randrange(0, 60)])])
        elif k < 0.75:
            ops.append(["shuffle"])
        elif k < 0.92:
            m = rng.choice([0, 1, 2, 3, rng.randrange(len(deck) + 1), len(deck), max(0, len(deck) - 1)])
            cs = rng.sample(deck, min(m, len(deck)))
            if rng.random() < 0.2:
                cs = [c.lower() for c in cs]
            ops.append(["trick", cs])
            if rng.random() < 0.7:
                ops.append(["shuffle"])
        else:
            ops.append(["untrick"])
            if rng.random() < 0.7:
                ops.append(["shuffle"])
    return ops


def deck_search(job):
    t = Tally(job, CASES)
    rng = random.Random(job["seed"])
    for s in range(-2, 8):
        for r in list(range(-2, 18)) + [100]:
            if not (1 <= s <= 4 and 1 <= r <= 13):
                t.run("bad_deck", s, r)
    for s in range(1, 5):
        for r in range(1, 14):
            t.run("deck_ops", s, r, 1, [["draw", None], ["draw", 3], ["shuffle"], ["draw", 100], ["draw", 1], ["shuffle"]])
    while not t.over():
        s, r = rng.randrange(1, 5), rng.randrange(1, 14)
        t.run("deck_ops", s, r, rng.randrange(10 ** 6), gen_ops(rng, s, r))
    return t.result()
