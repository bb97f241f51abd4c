"""C17 on the real table: win probabilities against exact counting."""
import itertools
import random
from fractions import Fraction

from native.cases import *  # noqa: F401,F403

import clubs
from clubs import poker

INF = float("inf")


def snap(d):
    f = lambda cs: [id(c) for c in cs]
    return (d.action, list(d.active), d.button, f(d.community_cards), f(d.deck.cards),
            list(d.history), [f(h) for h in d.hole_cards], d.largest_raise, d.pot,
            list(d.pot_commits), list(d.stacks), d.street, list(d.street_commits),
            list(d.street_option), d.street_raises, f(d.deck.full_deck),
            d.deck._tricked if hasattr(d.deck, "_tricked") else None)


def hand(kw, seed, bets):
    """plays the bets of one hand and checks before every action"""
    random.seed(seed)
    kw = dict(kw)
    if kw.get("raise_sizes") is None:
        kw["raise_sizes"] = INF
    d = clubs.poker.engine.Dealer(**kw)
    d.reset()
    for bet in list(bets) + [None]:
        check(d)
        if bet is None or d.action == -1:
            break
        d.step(bet)
        if d.action == -1:
            break


def check(d):
    n = d.num_players
    ev = d.evaluator
    missing = sum(d.num_community_cards) - len(d.community_cards)
    s0 = snap(d)
    got = d.win_probabilities()
    need(snap(d) == s0, "C17: computing win probabilities changes nothing at the table")
    won = [0] * n
    for extra in itertools.combinations(d.deck.cards, missing):
        comm = list(d.community_cards) + list(extra)
        st = {i: ev.evaluate(list(d.hole_cards[i]), list(comm)) for i in range(n) if d.active[i]}
        best = min(st.values())
        for i in st:
            won[i] += st[i] == best
    tot = sum(won)
    need(len(got) == n, "C17: one probability per player")
    for i in range(n):
        need(abs(float(Fraction(won[i], tot)) - got[i]) <= 1e-9,
             "C17: probability is the share of winning run-outs")
        need(got[i] >= 0, "C17: probabilities are not negative")
        if not d.active[i]:
            need(got[i] == 0, "C17: folded players have probability zero")
    need(abs(sum(got) - 1) <= 1e-9, "C17: probabilities sum to one")


CASES = dict(hand=hand)
run_script = make_run_script(CASES)

SHAPES = [(1, 13, 1, 0), (2, 3, 2, 0), (2, 6, 2, 0), (3, 4, 3, 0), (2, 8, 3, 1), (4, 4, 4, 2),
          (4, 5, 5, 0), (4, 3, 3, 1), (4, 6, 5, 2), (4, 13, 5, 0), (4, 9, 5, 3)]


def gen(rng):
    while True:
        s, r, k, m = rng.choice(SHAPES)
        n = rng.choice([2, 2, 3, 3, 4, 5, 6])
        hole = rng.choice([1, 1, 2, 2, 3]) if k > 1 else 1
        hole = max(hole, m)
        ns = rng.choice([1, 2, 3])
        cc = [rng.choice([0, 1, 1, 2, 3]) for _ in range(ns)]
        if rng.random() < 0.6:
            cc[-1] = rng.choice([0, 1, 1])
        left = s * r - n * hole - cc[0]
        miss = sum(cc[1:])
        if left < miss or sum(cc) + n * hole > s * r:
            continue
        c = 1
        for i in range(miss):
            c = c * (left - i) // (i + 1)
        if c > 3000:
            continue
        kw = dict(num_players=n, num_streets=ns, blinds=rng.choice([0, 1, 2]), antes=rng.choice([0, 0, 1]),
                  raise_sizes=None, num_raises=9, num_suits=s, num_ranks=r, num_hole_cards=hole,
                  num_community_cards=cc, num_cards_for_hand=k, mandatory_num_hole_cards=m,
                  start_stack=rng.choice([2, 10, 100]))
        return kw, c


def explore(job):
    t = Tally(job, CASES)
    rng = random.Random(job["seed"])
    while not t.over():
        kw, c = gen(rng)
        bets = [rng.choice([0, -1, 1, 2, 2, 4, 4, 200, 0, 1]) for _ in range(rng.randrange(0, 9))]
        t.run("hand", kw, rng.randrange(10 ** 6), bets)
    return t.result()
